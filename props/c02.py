"""C02: a query selects exactly the rows that satisfy every one of its conditions."""
from vlib.data import KINDS, Ref, OPS, close_all, check_same, force_db_optimisation, load, make_data, pyval, qtext, repr_key, rng_of
from vlib.hist import rand_conds

NEG = {'==': '!=', '!=': '==', '>': '<=', '<=': '>', '<': '>=', '>=': '<'}


def cases(tier, seed):
    for n in range(1080 if tier == 'quick' else 9000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}


def run_case(spec, mon):
    rng = rng_of('C02', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    data = make_data(rng)
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log('load', spec['kind'], data.spec())
    try:
        if rng.random() < 0.5:
            ds.assign_internal_ids()
            ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                               {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        for _ in range(12):
            conds = rand_conds(rng, ref)
            if conds is None: break
            q = qtext(conds, rng)
            mon.log(q)
            want = ref.filt(conds)
            sel = ds.select(q)
            check_same(mon, sel, want, f'select({q!r})')
            mon.eq(bool(ds.exists(q)), bool(want.rows), f'exists({q!r})')
            one = ds.select_one(q)
            mon.check((one is None) == (not want.rows), f'select_one({q!r}) disagrees with select', one=one, n=len(want.rows))
            if one is not None:
                mon.check(tuple(one[c] for c in sorted(ref.columns)) in want.tup(), f'select_one({q!r}) returned a row that does not match', one=one)
                mon.eq(one['rid'], min(r['rid'] for r in want.rows), f'select_one({q!r}) is not the first matching row')
            # both sides of a condition partition the rows
            c, o, v = conds[0]
            a, b = ds.select(qtext([(c, o, v)])), ds.select(qtext([(c, NEG[o], v)]))
            mon.eq(len(a) + len(b), len(ref.rows), f'{c} {o} {v!r} and its negation do not partition the rows')
            # filtering step by step is the same as all the conditions at once
            step = ds
            for cond in rng.sample(conds, len(conds)): step = step.select(qtext([cond]))
            check_same(mon, step, want, f'stepwise select of {q!r}')
            mon.ev('queries')
            for _, o, _ in conds: mon.ev('op_' + o)
            mon.ev('matched' if want.rows else 'no_match')
            mon.state((spec['kind'], conds, len(want.rows)))
            if rng.random() < 0.15 and want.rows: ds, ref = sel, want
        check_same(mon, ds, ref, 'queried dataset')
        mon.sample({'kind': spec['kind'], 'queries': mon.trace[1:6]})
    finally:
        close_all(ds)
