"""C16: the point sampler yields real positive interactions and true negatives in the requested proportion, following its seed."""
import pickle
import random
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, rng_of


def cases(tier, seed):
    for n in range(300 if tier == 'quick' else 4000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}
    for n in range(8 if tier == 'quick' else 60):
        yield {'seed': seed, 'n': n, 'kind': ['mem_df', 'mem_csv', 'db_csv'][n % 3], 'what': 'ratio'}


def check_triples(mon, triples, pos, negs, thr):
    for t in triples:
        mon.check(isinstance(t, tuple) and len(t) == 3, 'a sample is not a (uid, iid, interaction) triple', sample=t)
        u, i, v = t
        mon.check(t in pos or (v == 0 and (u, i) in negs), 'a sample is neither a positive row nor a negative pair', sample=t, threshold=thr)


def run_case(spec, mon):
    from DRecPy.Sampler import PointSampler
    rng = rng_of('C16', spec['seed'], spec['n'], spec.get('what'))
    force_db_optimisation(rng)
    ratio_case = spec.get('what') == 'ratio'
    data = make_data(rng, n_users=rng.randint(2, 7), n_items=rng.randint(2, 8), inter='stars' if ratio_case else None)
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log('load', spec['kind'], data.spec())
    try:
        ds.assign_internal_ids()
        ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                           {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        universe = {(u, i) for u in range(max(r['uid'] for r in ref.rows) + 1) for i in range(max(r['iid'] for r in ref.rows) + 1)}
        pairs = {(r['uid'], r['iid']) for r in ref.rows}
        null = universe - pairs
        thr = rng.choice([None, None, 1, 2, 2.5, 3, 0.001])
        pos = {(r['uid'], r['iid'], r['interaction']) for r in ref.rows if thr is None or r['interaction'] >= thr}
        below = {(r['uid'], r['iid']) for r in ref.rows if thr is not None and r['interaction'] < thr}
        negs = null | below
        if not negs or not pos: return
        ratio, s = rng.choice([0, 0.5, 1, 1, 2, 3, 5]), rng.randint(0, 10 ** 6)
        mon.log('PointSampler', ratio, thr, s)
        make = lambda seed: PointSampler(ds, neg_ratio=ratio, interaction_threshold=thr, seed=seed)
        if ratio_case:
            n = 1500
            got = make(s).sample(n)
            mon.eq(len(got), n, 'number of samples')
            check_triples(mon, got, pos, negs, thr)
            p = ratio / (ratio + 1)
            k = sum(1 for t in got if t[2] == 0)
            slack = 6 * (n * p * (1 - p)) ** 0.5 + 1
            mon.check(abs(k - n * p) <= slack, f'share of negative samples with ratio {ratio}', got=k, expected=n * p)
            seen = {(t[0], t[1]) for t in got if t[2] != 0}
            if len(pos) <= 12 and ratio <= 2: mon.eq(seen, {(u, i) for u, i, _ in pos}, 'positive pairs reached')
            mon.ev('ratio_checked')
            mon.state((ratio, thr, k))
            return
        a = make(s)
        seq = []
        for _ in range(8):
            n = rng.randint(1, 12)
            op = rng.choice(['sample', 'sample', 'one', 'neg', 'pos'])
            if op == 'sample':
                got = a.sample(n)
                mon.check(isinstance(got, list) and len(got) == n, f'sample({n}) gave {len(got)} samples')
            elif op == 'one': got = [a.sample_one()]
            elif op == 'neg':
                got = [a.sample_negative()]
                mon.check(got[0][2] == 0 and tuple(got[0][:2]) in negs, 'a negative sample is not a negative pair', sample=got[0], threshold=thr)
            else:
                got = [a.sample_positive()]
                mon.check(got[0] in pos, 'a positive sample is not a positive row', sample=got[0], threshold=thr)
            check_triples(mon, got, pos, negs, thr)
            if ratio == 0 and op in ('sample', 'one'): mon.check(all(t in pos for t in got), 'negative samples with a ratio of 0', got=got)
            seq.append((op, n, got))
            mon.ev('samples', len(got))
        b = make(s)
        random.seed(rng.random())
        for op, n, got in seq:
            random.random()
            again = {'sample': lambda: b.sample(n), 'one': lambda: [b.sample_one()], 'neg': lambda: [b.sample_negative()], 'pos': lambda: [b.sample_positive()]}[op]()
            mon.eq(again, got, f'the same seed gave other samples ({op})')
        mon.ev('reproduced')
        if spec['kind'].startswith('mem') and rng.random() < 0.5:
            c = pickle.loads(pickle.dumps(a))
            check_triples(mon, c.sample(10), pos, negs, thr)
            mon.ev('pickled')
        check_triples(mon, make(None).sample(10), pos, negs, thr)
        check_same(mon, ds, ref, 'dataset after sampling')
        mon.state((spec['kind'], ratio, thr, seq))
        mon.sample({'kind': spec['kind'], 'ratio': ratio, 'threshold': thr, 'seed': s, 'samples': seq[0][2][:4]})
    finally:
        close_all(ds)
