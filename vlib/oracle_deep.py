"""Independent numpy definitions of the scores and losses of the trained recommenders, from their weights and the data."""
import itertools
import numpy as np


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def unit(x):
    n = np.sqrt(np.maximum((x ** 2).sum(axis=-1, keepdims=True), 1e-12))
    return x / n


def bce(y, p):
    if (((p > 0.9999) & (y != 1)) | ((p < 1e-4) & (p > 1e-6) & (y > 0))).any(): return None  # not decided by single precision numbers
    p = np.clip(p, 1e-7, 1 - 1e-7)
    return float(-np.mean(y * np.log(p) + (1 - y) * np.log(1 - p)))


class Ambiguous(Exception):
    """The weights of the model cannot be told apart by their shapes: the case decides nothing."""


def distinct(ok):
    if not ok: raise Ambiguous


class World:
    """Rows by internal id: vectors of every user and item, and the order of the interactions."""
    def __init__(self, data, uids, iids, sort='timestamp'):
        self.U, self.I = len(uids), len(iids)
        self.R = np.zeros((self.U, self.I))
        self.seq = {u: [] for u in range(self.U)}
        rows = sorted(data.rows, key=lambda r: r[sort]) if sort else data.rows
        for r in rows:
            self.R[uids[r['user']], iids[r['item']]] = r['interaction']
            self.seq[uids[r['user']]].append(iids[r['item']])
        inter = [r['interaction'] for r in data.rows]
        self.lo, self.hi = (0 if min(inter) == 1 else min(inter)), max(inter)


class CDAE:
    def __init__(self, world, weights, kw, thr):
        vs = [np.array(v, dtype=float) for v in weights['trainable_weights']]
        H = kw['hidden_factors']
        distinct(len({world.U, world.I, H}) == 3)
        get = lambda *shape: next(v for v in vs if v.shape == shape)
        self.W, self.W_, self.V, self.b, self.b_ = get(world.I, H), get(H, world.I), get(world.U, H), get(H), get(world.I)
        self.w, self.kw, self.Y = world, kw, (world.R >= thr).astype(float)

    def vector(self, u):
        return sigmoid(sigmoid(self.Y[u] @ self.W + self.V[u] + self.b) @ self.W_ + self.b_)

    def score(self, u, i): return self.vector(u)[i]

    def loss(self, batch, reg, neg_ratio):  # without corruption
        y, p = np.array([self.Y[u] for u, _, _ in batch]), np.array([self.vector(u) for u, _, _ in batch])
        base = bce(y, p) if self.kw['loss'] == 'bce' else float(np.mean((y - p) ** 2))
        return base and base + reg / len(batch) * sum((v ** 2).sum() / 2 for v in (self.W, self.W_, self.V))


    def noisy_losses(self, sample, reg, neg_ratio, rate):
        """All choices of corrupted preferences of the user of the sample (1: kept) and the loss of each."""
        y = self.Y[sample[0]]
        known = np.flatnonzero(y)
        if len(known) > 8: return None
        masks = np.array(list(itertools.product([0, 1], repeat=len(known)))).reshape(2 ** len(known), len(known))
        x = np.zeros((len(masks), self.w.I))
        x[:, known] = masks / (1 - rate)
        p = sigmoid(sigmoid(x @ self.W + self.V[sample[0]] + self.b) @ self.W_ + self.b_)
        each = [bce(y, q) for q in p] if self.kw['loss'] == 'bce' else ((y - p) ** 2).mean(axis=1)
        if any(v is None for v in each): return None
        return masks, np.array(each) + reg * sum((v ** 2).sum() / 2 for v in (self.W, self.W_, self.V))


class DMF:
    def __init__(self, world, weights, kw, thr):
        nets = [[np.array(v, dtype=float) for v in ws] for ws in weights['trainable_models']]
        distinct(world.U != world.I)
        self.user = next(n for n in nets if n[0].shape[0] == world.I)
        self.item = next(n for n in nets if n[0].shape[0] == world.U)
        self.w, self.kw = world, kw

    def net(self, ws, x):
        x = unit(x) if self.kw['l2_norm_vectors'] else x
        for k, b in zip(ws[::2], ws[1::2]): x = np.maximum(0, x @ k + b)
        return unit(x)

    def raw(self, u, i):
        return max(1e-6, float(self.net(self.user, self.w.R[u]) @ self.net(self.item, self.w.R[:, i])))

    def score(self, u, i): return self.w.lo + (self.w.hi - self.w.lo) * self.raw(u, i)

    def loss(self, batch, reg, neg_ratio):
        y = np.array([(v - self.w.lo) / (self.w.hi - self.w.lo) if self.kw['use_nce'] else v for _, _, v in batch], dtype=float)
        p = np.array([self.raw(u, i) for u, i, _ in batch])
        base = bce(y, p)
        return base and base + reg * sum((k ** 2).sum() for n in (self.user, self.item) for k in n[::2])


class Caser:
    def __init__(self, world, weights, kw, thr):
        layers = [[np.array(v, dtype=float) for v in ws] for ws in weights['trainable_layers']]
        self.L, self.T, self.d = kw['L'], kw['T'], kw['d']
        distinct(len({world.U, world.I, 2 * self.d, self.d}) == 4)
        one = lambda *shape: next(ws[0] for ws in layers if ws[0].shape == shape)
        self.users, self.items = one(world.U, self.d), one(world.I, self.d)
        self.out_w, self.out_b = one(world.I, 2 * self.d), one(world.I, 1)
        convs = [ws for ws in layers if ws[0].ndim == 3]
        self.conv_v, self.convs_h = convs[0], convs[1:]
        self.dense = next(ws for ws in layers if ws[0].ndim == 2 and len(ws) == 2)
        self.w, self.kw = world, kw

    def features(self, before):
        e = self.items[before]  # (L, d)
        conv = lambda k, b: np.array([np.tensordot(e[t:t + k.shape[0]], k, 2) + b for t in range(len(before) - k.shape[0] + 1)])
        v = conv(*self.conv_v).ravel()
        h = np.concatenate([np.maximum(0, conv(*c)).max(axis=0) for c in self.convs_h])
        return np.concatenate([v, h])

    def scores(self, u, before, items, mask=1):
        z = np.maximum(0, (self.features(before) * mask) @ self.dense[0] + self.dense[1])
        x = np.concatenate([z, self.users[u]])
        return self.out_w[items] @ x + self.out_b[items][:, 0]

    def score(self, u, i): return self.scores(u, self.w.seq[u][-self.L:], [i])[0]

    def loss(self, batch, reg, neg_ratio):  # without dropout
        y, p = [], []
        for before, after, negatives in batch:
            p.append(sigmoid(self.scores(int(before[0]['uid']), [int(r['iid']) for r in before], [int(r['iid']) for r in after] + [int(x) for x in negatives])))
            y.append([1] * self.T + [0] * (self.T * neg_ratio))
        kernels = [self.users, self.items, self.out_w, self.conv_v[0], self.dense[0]] + [c[0] for c in self.convs_h]
        base = bce(np.array(y), np.array(p))
        return base and base + reg * sum((k ** 2).sum() for k in kernels)

    def noisy_losses(self, sample, reg, neg_ratio, rate):
        """All choices of dropped features (1: kept) for the only group of a batch and the loss of each."""
        before, after, negatives = sample
        ids = [int(r['iid']) for r in before]
        n = len(self.features(ids))
        masks = np.array(list(itertools.product([0, 1], repeat=n)))
        y = np.array([1] * self.T + [0] * (self.T * neg_ratio))
        kernels = [self.users, self.items, self.out_w, self.conv_v[0], self.dense[0]] + [c[0] for c in self.convs_h]
        each = [bce(y, sigmoid(self.scores(int(before[0]['uid']), ids, [int(r['iid']) for r in after] + [int(x) for x in negatives], m / (1 - rate)))) for m in masks]
        if any(v is None for v in each): return None
        return masks, np.array(each) + reg * sum((k ** 2).sum() for k in kernels)
