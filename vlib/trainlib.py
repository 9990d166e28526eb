"""A recommender whose training can be replayed: it is trained by the real training loop, records every step of it, and an
independent replay in plain numpy gives the weights it must have after every epoch."""
import numpy as np

DIM = 3


def make_model_class():
    import tensorflow as tf
    from DRecPy.Recommender import RecommenderABC

    class Trained(RecommenderABC):
        def __init__(self, plan, **kw):
            super().__init__(**kw)
            self.plan, self.events, self.batches = plan, [], []

        def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
            self.events.append(('pre_fit', learning_rate, neg_ratio, reg_rate, kwds.get('extra_argument')))
            self.parts = []
            for kind, reg, init in self.plan['parts']:
                regularizer = tf.keras.regularizers.L2(reg) if reg else None
                start = tf.constant_initializer(init)
                if kind == 'var': part = tf.Variable(np.full((DIM, 1), init), dtype=tf.float32)
                else:
                    part = tf.keras.layers.Dense(1, use_bias=False, kernel_initializer=start, kernel_regularizer=regularizer)
                    if kind == 'model': part = tf.keras.Sequential([tf.keras.layers.Input((DIM,)), part])
                self.parts.append(part)
            if self.plan['one_by_one']:
                for part in self.parts: self._register_trainable(part)
            else: self._register_trainables(self.parts)
            if self.plan['own_optimizer']: self._register_optimizer(tf.keras.optimizers.SGD(self.plan['own_optimizer']))
            self.records = self.interaction_dataset.values_list(['uid', 'iid', 'interaction'], to_list=True)

        def _sample_batch(self, batch_size, **kwds):
            self.events.append(('sample', batch_size, kwds.get('extra_argument')))
            batch = [self._rng.choice(self.records) for _ in range(batch_size)]
            self.batches.append([features(r) for r in batch])
            return self.batches[-1]

        def _predict_batch(self, batch_samples, **kwds):
            batch = batch_samples
            self.events.append(('predict', len(batch), kwds.get('extra_argument')))
            x = tf.constant([f for f, _ in batch], dtype=tf.float32)
            out = 0
            for (kind, _, _), part in zip(self.plan['parts'], self.parts):
                out = out + (tf.matmul(x, part) if kind == 'var' else part(x))
            return out, [y for _, y in batch]

        def _compute_batch_loss(self, predictions, desired_values, **kwds):
            desired = desired_values
            self.events.append(('loss', len(desired), kwds.get('extra_argument')))
            return tf.reduce_mean((predictions[:, 0] - tf.constant(desired, dtype=tf.float32)) ** 2)

        def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
            models, layers, weights = trainable_models, trainable_layers, trainable_weights
            self.events.append(('reg_loss', reg_rate, batch_size, len(models), len(layers), len(weights)))
            out = super()._compute_reg_loss(reg_rate, batch_size, models, layers, weights, **kwds)
            if self.plan['own_reg']: out = out + reg_rate / batch_size * sum(tf.reduce_sum(w ** 2) for w in weights)
            return out

        def _update_weights(self, gradients, trainable_weights):
            self.events.append(('update', len(gradients)))
            super()._update_weights(gradients, trainable_weights)

        hooked_update = hasattr(RecommenderABC, '_update_weights')

        def _predict(self, uid, iid, **kwds):
            x, _ = features((uid, iid, 0))
            return float(sum(np.dot(x, w)[0] for w in self.current()))

        def current(self):
            return [np.array(p if k == 'var' else p.get_weights()[0], dtype=float) for (k, _, _), p in zip(self.plan['parts'], self.parts)
                    if k == 'var' or p.get_weights()]

    return Trained


def features(record):
    uid, iid, y = (record[0], record[1], record[2]) if not isinstance(record, dict) else (record['uid'], record['iid'], record['interaction'])
    return [1.0, (uid % 5) / 4 - 0.5, (iid % 7) / 6 - 0.5], float(y)


def replay(plan, batches, optimizer, rate, reg_rate):
    """Weights after every epoch (0 are the initial ones) and losses, by an independent implementation.

    Adam divides gradients by their size, so where they cancel, the rounding of 32 bits decides the step: such noise is
    followed through the epochs, and is the tolerance of each weight."""
    w = [np.full((DIM, 1), init, dtype=float) for _, _, init in plan['parts']]
    m, v = [np.zeros_like(a) for a in w], [np.zeros_like(a) for a in w]
    tol = [np.zeros_like(a) for a in w]
    out, losses = [Weights(w, tol)], []
    for t, batch in enumerate(batches, 1):
        x, y = np.array([f for f, _ in batch], dtype=float), np.array([[b] for _, b in batch], dtype=float)
        err = sum(x @ a for a in w) - y
        loss = float(np.mean(err ** 2))
        grads, noise = [], []
        unsure = np.abs(x) @ sum(tol) + 2e-7 * (sum(np.abs(x) @ np.abs(a) for a in w) + np.abs(y) + np.abs(err))
        for (kind, reg, _), a in zip(plan['parts'], w):
            g = 2 * x.T @ err / len(batch)
            c = reg_rate / len(batch) if kind == 'var' and plan['own_reg'] else reg if kind != 'var' and reg else 0
            loss += c * float(np.sum(a ** 2))
            grads.append(g + 2 * c * a)
            noise.append(2 * np.abs(x).T @ unsure / len(batch) + 2 * c * (tol[len(noise)] + 2e-7 * np.abs(a)) + 1e-9)
        losses.append(loss)
        for n, g in enumerate(grads):
            if optimizer == 'sgd': w[n] = w[n] - rate * g
            else:
                size = np.sqrt(v[n] * 0.999 + 0.001 * g ** 2) / np.sqrt(1 - 0.999 ** t) + 1e-7
                tol[n] = tol[n] + rate * np.minimum(2, 2 * noise[n] / size)
                m[n], v[n] = 0.9 * m[n] + 0.1 * g, 0.999 * v[n] + 0.001 * g ** 2
                w[n] = w[n] - rate * np.sqrt(1 - 0.999 ** t) / (1 - 0.9 ** t) * m[n] / (np.sqrt(v[n]) + 1e-7)
        out.append(Weights(w, tol))
    return out, losses


class Weights(list):
    def __init__(self, w, tol):
        super().__init__(a.copy() for a in w)
        self.tol = [a.copy() for a in tol]
        self.sure = all(a.max() < 1e-3 for a in tol)


def make_plan(rng):
    kinds = rng.choice([['var'], ['layer'], ['model'], ['var', 'layer'], ['layer', 'model'], ['var', 'var'], ['model', 'var', 'layer'], ['layer', 'layer']])
    return dict(parts=[(k, rng.choice([0, 0, 0.01, 0.1]), rng.choice([0.0, 0.25, -0.5, 1.0])) for k in kinds],
                one_by_one=rng.random() < 0.5, own_optimizer=rng.choice([None, None, 0.03125, 0.125]), own_reg=rng.random() < 0.5)


def same_weights(mon, plan, got, want, what):
    mon.eq(len(got), len(want), 'number of weights of ' + what)
    for n, (g, w) in enumerate(zip(got, want)):
        if want.tol[n].max() > 0.01: mon.ev('weights_undecided')
        if not np.all(np.abs(np.array(g, dtype=float).ravel() - w.ravel()) <= 2e-4 + 1e-3 * np.abs(w.ravel()) + 2 * want.tol[n].ravel()):
            mon.fail(f'weights of {what}: {plan["parts"][n][0]} {n}', got=np.array(g).ravel().tolist(), want=w.ravel().tolist())
        mon.checks += 1


def tracker(model):
    """The tracker of losses of the model, wherever the model keeps it, or None."""
    from DRecPy.Evaluation.loss_tracker import LossTracker
    found = [v for v in vars(model).values() if isinstance(v, LossTracker)]
    return found[0] if len(found) == 1 else None


def stored(plan, entry):
    """The weights stored for an epoch, in the order of the parts."""
    left = {'var': list(entry['trainable_weights']), 'layer': [w for ws in entry['trainable_layers'] for w in ws],
            'model': [w for ws in entry['trainable_models'] for w in ws]}
    return [np.array(left[k].pop(0), dtype=float) for k, _, _ in plan['parts']]
