"""C11: random record and null pair generators only yield what they promise, cover all of it, and follow their seed."""
from vlib.data import KINDS, Ref, close_all, force_db_optimisation, load, make_data, qtext, rng_of
from vlib.hist import rand_conds


def cases(tier, seed):
    for n in range(150 if tier == 'quick' else 4000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}


def take(gen, n):
    return [next(gen) for _ in range(n)]


def run_case(spec, mon):
    rng = rng_of('C11', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    data = make_data(rng, n_users=rng.randint(1, 7), n_items=rng.randint(1, 8))
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log('load', spec['kind'], data.spec())
    try:
        ds.assign_internal_ids()
        ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                           {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        if rng.random() < 0.4:
            rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) - 1))
            ds, ref = ds.drop(rids), ref.drop(rids)
        for _ in range(3):
            conds = rand_conds(rng, ref, rng.choice([1, 2])) if rng.random() < 0.7 else []
            want = ref.filt(conds)
            q = qtext(conds) if conds else None
            s = rng.randint(0, 10 ** 6)
            mon.log('select_random_generator', q, s)
            if not want.rows:
                try:
                    next(ds.select_random_generator(q, seed=s))
                except Exception: mon.ev('nothing_to_sample')
                else: mon.fail(f'sampled a record although none satisfies {q!r}')
                continue
            recs = take(ds.select_random_generator(q, seed=s), 25)
            ok = want.tup()
            for r in recs:
                mon.check(sorted(r) == sorted(ref.columns), 'columns of a sampled record', record=r)
                mon.check(tuple(r[c] for c in sorted(ref.columns)) in ok, f'a sampled record does not satisfy {q!r} or is not a row', record=r)
            mon.eq(take(ds.select_random_generator(q, seed=s), 25), recs, 'the same seed sampled other records')
            mon.ev('sampled', 50)
            if len(want.rows) <= 6 and rng.random() < 0.6:
                seen = {r['rid'] for r in recs} | {r['rid'] for r in take(ds.select_random_generator(q, seed=s + 1), 45 * len(want.rows))}
                mon.eq(seen, {r['rid'] for r in want.rows}, f'records that satisfy {q!r} and are never sampled')
                mon.ev('coverage_checked')
            mon.state((spec['kind'], q, [r['rid'] for r in recs]))
        pairs = {(r['uid'], r['iid']) for r in ref.rows}
        mu, mi = max(r['uid'] for r in ref.rows) + 1, max(r['iid'] for r in ref.rows) + 1
        universe = {(u, i) for u in range(mu) for i in range(mi)}
        for _ in range(2):
            thr = rng.choice([None, None, 0, 1, 2, 2.5, 3, 6])
            s = rng.randint(0, 10 ** 6)
            null = universe - pairs
            neg = {(r['uid'], r['iid']) for r in ref.rows if thr is not None and r['interaction'] < thr}
            allowed = null | neg
            if not allowed:
                try: next(ds.null_interaction_pair_generator(thr, seed=s))
                except Exception: mon.ev('nothing_to_sample')
                else: mon.fail('a null pair was given although every pair has an interaction', threshold=thr)
                continue
            mon.log('null_interaction_pair_generator', thr, s)
            n = 30
            got = take(ds.null_interaction_pair_generator(thr, seed=s), n)
            for p in got:
                mon.check(isinstance(p, tuple) and tuple(p) in allowed, 'a null pair has an interaction (or is unknown)', pair=p, threshold=thr, positive=tuple(p) in pairs)
            mon.eq(take(ds.null_interaction_pair_generator(thr, seed=s), n), got, 'the same seed gave other null pairs')
            mon.ev('null_pairs', 2 * n)
            if len(universe) <= 24 and null:
                seen = set(take(ds.null_interaction_pair_generator(thr, seed=s + 1), 40 * len(universe)))
                mon.check(null <= seen, 'null pairs that are never given', missing=null - seen)
                if neg and len(universe) <= 12 :
                    mon.check(bool(neg & seen), 'pairs below the threshold are never given', threshold=thr, negatives=neg)
                mon.ev('null_coverage_checked')
            mon.state((spec['kind'], thr, got))
        # without a seed, it still yields only what it should
        for r in take(ds.select_random_generator(), 10): mon.check(r['rid'] in {x['rid'] for x in ref.rows}, 'unknown record', record=r)
        mon.sample({'kind': spec['kind'], 'calls': mon.trace[1:]})
    finally:
        close_all(ds)
