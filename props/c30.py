"""C30: the trained recommenders score and learn what their definition says, from the information it uses."""
import contextlib
import copy
import numpy as np
from vlib import oracle_deep
from vlib.data import Data, KINDS, close_all, force_db_optimisation, load, rng_of
from vlib.models import DEEP, build, model_data

PARTS = ['formula', 'formula', 'information', 'learning']


def cases(tier, seed):
    for n in range(150 if tier == 'quick' else 2600):
        part = PARTS[n % 4]
        yield {'seed': seed, 'n': n, 'what': part, 'model': DEEP[n // 4 % 3], 'kind': KINDS[n // 12 % 4]}
    for n in range(24 if tier == 'quick' else 400):
        yield {'seed': seed, 'n': 10 ** 6 + n, 'what': 'noise', 'model': ['CDAE', 'Caser'][n % 2], 'kind': KINDS[n // 2 % 4]}


def options(rng, name, nce=True):
    if name == 'CDAE': return dict(hidden_factors=rng.choice([13, 17]), loss=rng.choice(['bce', 'mse']), corruption_level=0.0)
    if name == 'DMF':
        out = rng.choice([3, 4])
        return dict(user_factors=rng.choice([[8, out], [out], [7, 5, out]]), item_factors=rng.choice([[6, out], [out]]), use_nce=nce, l2_norm_vectors=rng.random() < 0.5)
    return dict(L=rng.choice([1, 2, 3]), T=rng.choice([1, 1, 2]), d=11, n_v=rng.choice([1, 2]), n_h=rng.choice([1, 2, 4]), dropout_rate=0.0)


def too_few(name, e):
    return name == 'Caser' and 'consecutive tries' in str(e)


def ids_of(model, data):
    ds = model.interaction_dataset
    return {r['user']: ds.user_to_uid(r['user']) for r in data.rows}, {r['item']: ds.item_to_iid(r['item']) for r in data.rows}


def scores(model, data):
    items = sorted({r['item'] for r in data.rows}, key=repr)
    out = {}
    for u in sorted({r['user'] for r in data.rows}, key=repr):
        out[u] = {i: float(s) for s, i in model.rank(u, items, novelty=False)}
    return out


def run_case(spec, mon):
    rng = rng_of('C30', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    try:
        if spec['what'] == 'formula': formula(rng, spec['model'], spec['kind'], mon, spec['n'])
        else: {'information': information, 'learning': learning, 'noise': noise}[spec['what']](rng, spec['model'], spec['kind'], mon)
    except oracle_deep.Ambiguous: mon.ev('ambiguous_shapes')


class Losses:
    """Not a rule at all: keeps the losses it is shown."""
    def __init__(self): self.seen = []

    def compute(self, losses, *a, **k):
        from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import InvalidEpochValidationResultsException
        self.seen = [float(x) for x in losses]
        raise InvalidEpochValidationResultsException('never')

    def stop_training(self, *a, **k): return False


def formula(rng, name, kind, mon, n):
    data = model_data(rng, n_users=rng.randint(3, 5), n_items=rng.randint(6, 9))
    data.rows[0]['interaction'], data.rows[1]['interaction'] = 1, 5
    kw = options(rng, name, nce=n % 4 == 0)
    thr = rng.choice([0.001, 1, 2, 3]) if name != 'Caser' else rng.choice([0.001, 1])
    epochs, bs, neg, reg = rng.choice([0, 1, 2, 3, 4, 5]), rng.randint(1, 5), rng.choice([0, 1]) if name == 'Caser' else rng.choice([0, 1, 3]), rng.choice([0.0, 0.01, 0.3])
    mon.log(name, kind, kw, thr, epochs, bs, neg, reg, data.spec())
    ds = load(data, kind)
    try:
        with recorded_batches() as batches:
            model, losses = build(name, seed=rng.randint(0, 10 ** 6), interaction_threshold=thr, **kw), Losses()
            try: model.fit(ds, epochs=epochs, batch_size=bs, neg_ratio=neg, reg_rate=reg, learning_rate=rng.choice([0.001, 0.05]), early_stopping_rule=losses, early_stopping_freq=1)
            except Exception as e:
                if too_few(name, e): return
                raise
        got = scores(model, data)
        uids, iids = ids_of(model, data)
        world = oracle_deep.World(data, uids, iids)
        oracle = lambda w: getattr(oracle_deep, name)(world, w, kw, thr)
        final = {'trainable_weights': list(model.trainable_weights), 'trainable_layers': [l.get_weights() for l in model.trainable_layers],
                 'trainable_models': [m.get_weights() for m in model.trainable_models]}
        want = oracle(final)
        for u in got:
            mon.eq(set(got[u]), set(iids), 'scored items')
            for i in got[u]:
                mon.close(got[u][i], want.score(uids[u], iids[i]), f'score of {i!r} for {u!r} by {name}', tol=2e-3)
                if name == 'CDAE': mon.check(0 <= got[u][i] <= 1, 'a reconstructed value is not in [0, 1]', got=got[u][i])
                if name == 'DMF': mon.check(world.lo - 1e-4 <= got[u][i] <= world.hi + 1e-4, 'a prediction is out of the range of the interactions', got=got[u][i])
        mon.ev('scored_' + name)
        mon.eq(len(batches), epochs, 'number of sampled batches')
        for e, batch in enumerate(batches):
            mon.eq(len(batch), bs, 'size of a batch')
            if name == 'CDAE' or name == 'DMF':
                for u, i, v in batch: mon.check(v == 0 or world.R[u, i] == v, 'a sampled interaction is not in the data', sample=(u, i, v))
            expected = oracle(model.epoch_weights[e]).loss(batch, reg, neg)
            if expected is None: continue
            mon.close(losses.seen[e], expected, f'loss of {name} at epoch {e + 1}', tol=5e-3)
            mon.ev('losses')
        mon.state((name, str(got)))
    finally:
        close_all([ds])


@contextlib.contextmanager
def recorded_batches():
    from DRecPy.Sampler import ListSampler, PointSampler
    batches = []
    point, group = PointSampler.sample, ListSampler.sample_group_records
    def sample(self, *a, **k):
        batches.append(point(self, *a, **k))
        return list(batches[-1])
    def sample_group(self, *a, **k):
        batches.append(group(self, *a, **k))
        return copy.deepcopy(batches[-1])
    PointSampler.sample, ListSampler.sample_group_records = sample, sample_group
    try: yield batches
    finally: PointSampler.sample, ListSampler.sample_group_records = point, group


def noise(rng, name, kind, mon):
    """With corruption or dropout, every loss is the one of some choice of the dropped inputs, rescaled, and the inputs are dropped at
    the requested rate."""
    data = model_data(rng, n_users=rng.randint(3, 5), n_items=rng.randint(6, 9))
    data.rows[0]['interaction'], data.rows[1]['interaction'] = 1, 5
    rate = rng.choice([0.2, 0.35, 0.5, 0.7])
    if name == 'CDAE': kw, thr = dict(options(rng, name), corruption_level=rate), rng.choice([2, 3])
    else: kw, thr = dict(options(rng, name), dropout_rate=rate, L=rng.choice([1, 2]), n_v=rng.choice([1, 2]), n_h=rng.choice([1, 2])), 0.001
    epochs, reg, neg = 40, rng.choice([0.0, 0.01]), 1
    mon.log(name, kind, kw, thr, reg, data.spec())
    ds = load(data, kind)
    try:
        with recorded_batches() as batches:
            model, losses = build(name, seed=rng.randint(0, 10 ** 6), interaction_threshold=thr, **kw), Losses()
            try: model.fit(ds, epochs=epochs, batch_size=1, neg_ratio=neg, reg_rate=reg, learning_rate=0.05, early_stopping_rule=losses, early_stopping_freq=1)
            except Exception as e:
                if too_few(name, e): return
                raise
        world = oracle_deep.World(data, *ids_of(model, data))
        dropped = decided = 0
        for e, batch in enumerate(batches[:epochs]):
            oracle = getattr(oracle_deep, name)(world, model.epoch_weights[e], kw, thr)
            found = oracle.noisy_losses(batch[0], reg, neg, rate)
            if found is None: continue
            masks, values = found
            near = np.abs(values - losses.seen[e]) <= 2e-5 * (1 + abs(losses.seen[e]))
            if not near.any():
                mon.fail(f'loss of {name} at epoch {e + 1}: not the one of any choice of dropped inputs', got=losses.seen[e], closest=float(values[np.abs(values - losses.seen[e]).argmin()]), choices=len(values))
            some = masks[near]
            sure = (some == some[0]).all(axis=0)
            decided, dropped = decided + int(sure.sum()), dropped + int((some[0][sure] == 0).sum())
            mon.ev('noisy_losses')
        mon.ev('inputs_decided', decided)
        if decided > 40:
            mon.check(abs(dropped - rate * decided) <= 5.5 * (decided * rate * (1 - rate)) ** 0.5, f'{name} drops {dropped} of {decided} inputs at a rate of {rate}')
            mon.ev('rate_checked')
        mon.check((dropped > 0 and dropped < decided) or decided < 60, f'{name} drops {dropped} of {decided} inputs')
        mon.state((name, 'noise', rate, dropped, decided))
    finally:
        close_all([ds])


def fit_scores(rng_seed, name, kw, thr, data, kind, epochs=0, **fit):
    ds = load(data, kind)
    try:
        model = build(name, seed=rng_seed, interaction_threshold=thr, **kw)
        model.fit(ds, epochs=epochs, **fit)
        return scores(model, data)
    finally: close_all([ds])


def same(mon, got, want, what, users=None, items=None):
    for u in want:
        if users is not None and u not in users: continue
        for i in want[u]:
            if items is not None and i not in items: continue
            mon.close(got[u].get(i), want[u][i], f'{what}: score of {i!r} for {u!r}', tol=2e-4)


def information(rng, name, kind, mon):
    """Changes of the data that the definition does, or does not, take into account."""
    data = model_data(rng, n_users=rng.randint(3, 5), n_items=rng.randint(6, 9), min_rows=5)
    data.rows[0]['interaction'], data.rows[1]['interaction'] = 1, 5
    kw, s, thr = options(rng, name), rng.randint(0, 10 ** 6), rng.choice([2, 3])
    kw.update({'CDAE': dict(corruption_level=0.2), 'Caser': dict(dropout_rate=0.5)}.get(name, {}))
    mon.log(name, kind, kw, thr, data.spec())
    base = fit_scores(s, name, kw, thr, data, kind)
    def variant(change):
        new = copy.deepcopy(data)
        change(new.rows)
        return new
    def reorder(rows):  # keeps the order in which users and items appear, which numbers them
        first, rest = [], []
        for r in rows: (rest if any(f['user'] == r['user'] for f in first) and any(f['item'] == r['item'] for f in first) else first).append(r)
        rng.shuffle(rest)
        rows[:] = first + rest
    same(mon, fit_scores(s, name, kw, thr, variant(reorder), kind), base, 'rows in another order')
    def change_stamps(rows):
        for r in rows: r['timestamp'] = r['timestamp'] * 3 + 1
    same(mon, fit_scores(s, name, kw, thr, variant(change_stamps), kind), base, 'other timestamps in the same order')
    victim = rng.choice(data.rows)
    users = {r['user'] for r in data.rows}
    if name == 'CDAE':
        def values(rows):
            for r in rows: r['interaction'] = rng.choice([v for v in (1, 2, 3, 4, 5) if (v >= thr) == (r['interaction'] >= thr)])
        new = variant(values)
        same(mon, fit_scores(s, name, kw, thr, new, kind), base, 'other values on the same side of the threshold')
        fit = dict(epochs=2, batch_size=4, neg_ratio=1, learning_rate=0.05)
        same(mon, fit_scores(s, name, kw, thr, new, kind, **fit), fit_scores(s, name, kw, thr, data, kind, **fit), 'training with other values on the same side of the threshold')
        def flip(rows):
            for r in rows:
                if r['user'] == victim['user'] and r['item'] == victim['item']: r['interaction'] = thr if r['interaction'] < thr else thr - 1
        got = fit_scores(s, name, kw, thr, variant(flip), kind)
        same(mon, got, base, 'the preferences of another user', users - {victim['user']})
        mon.check(any(abs(got[victim['user']][i] - base[victim['user']][i]) > 1e-7 for i in base[victim['user']]), 'the preferences of a user do not matter')
    elif name == 'DMF':
        def edit(rows):
            for r in rows:
                if r['user'] == victim['user'] and r['item'] == victim['item']: r['interaction'] = 6 - r['interaction'] if r['interaction'] != 3 else 4
        inside = [r for r in data.rows if 1 < r['interaction'] < 5]
        if inside:
            victim = rng.choice(inside)
            got = fit_scores(s, name, kw, thr, variant(edit), kind)
            same(mon, got, base, 'an interaction of others', users - {victim['user']}, {r['item'] for r in data.rows} - {victim['item']})
    else:
        def values(rows):
            for r in rows: r['interaction'] = rng.randint(1, 5)
        same(mon, fit_scores(s, name, kw, thr, variant(values), kind), base, 'other values')
        def older(rows):  # exchanges interactions before the last L ones
            for u in users:
                mine = sorted([r for r in rows if r['user'] == u], key=lambda r: r['timestamp'])[:-kw['L']]
                stamps = [r['timestamp'] for r in mine]
                rng.shuffle(stamps)
                for r, t in zip(mine, stamps): r['timestamp'] = t
        same(mon, fit_scores(s, name, kw, thr, variant(older), kind), base, 'another order of the oldest interactions')
        def newer(rows):  # the last item of a user changes place with an older one
            mine = sorted([r for r in rows if r['user'] == victim['user']], key=lambda r: r['timestamp'])
            mine[-1]['timestamp'], mine[0]['timestamp'] = mine[0]['timestamp'], mine[-1]['timestamp']
        got = fit_scores(s, name, kw, thr, variant(newer), kind)
        same(mon, got, base, 'the last interactions of another user', users - {victim['user']})
        mon.check(any(abs(got[victim['user']][i] - base[victim['user']][i]) > 1e-7 for i in base[victim['user']]), 'the last interactions of a user do not matter')
    mon.ev('information_' + name)
    mon.state((name, str(base)))


def learning(rng, name, kind, mon):
    """Two groups of users that like disjoint items: what was learned must show it."""
    users, items, n = [f'u{i}' for i in range(6)], [f'i{i}' for i in range(10)], 0
    rng.shuffle(users), rng.shuffle(items)
    rows = []
    for k, u in enumerate(users):
        mine = items[:5] if k < 3 else items[5:]
        if name == 'Caser': mine = (mine[k % 3:] + mine[:k % 3])  # each one goes around its items in the same order
        for i in mine:
            if name != 'Caser' and rng.random() < 0.15 and len([r for r in rows if r['user'] == u]) > 2: continue
            n += 1
            rows.append(dict(user=u, item=i, interaction=rng.choice([4, 5]), timestamp=n))
    if name != 'Caser': rng.shuffle(rows)
    if name == 'DMF': rows[0]['interaction'] = 1  # otherwise the interaction 0 of the negative pairs is out of their range
    data = Data(rows, ['user', 'item', 'interaction', 'timestamp'])
    kw = {'CDAE': dict(hidden_factors=8, corruption_level=0.2, loss=rng.choice(['bce', 'mse'])), 'DMF': dict(user_factors=[64, 32], item_factors=[64, 32], use_nce=True, l2_norm_vectors=True),
          'Caser': dict(L=2, T=1, d=8, n_v=2, n_h=4, dropout_rate=0.1)}[name]
    fit = {'CDAE': dict(epochs=60, learning_rate=0.05), 'DMF': dict(epochs=60, learning_rate=0.02), 'Caser': dict(epochs=60, learning_rate=0.03)}[name]
    mon.log(name, kind, kw, data.spec())
    seed = rng.randint(0, 10 ** 6)
    got = fit_scores(seed, name, kw, 1, data, kind, batch_size=10, neg_ratio=2, reg_rate=0.0001, **fit)
    inside, outside = [], []
    for k, u in enumerate(users):
        for i in [i for i in items if i in got[u]]: ((inside if (i in items[:5]) == (k < 3) else outside)).append(got[u][i])
    gap = (np.mean(inside) - np.mean(outside)) / max(np.std(inside + outside), 1e-9)
    mon.check(gap > GAP, f'{name} does not score the items of the group of a user higher after being trained', gap=gap)
    mon.ev('learned_' + name)
    mon.state((name, str(got)))


GAP = 0.5
