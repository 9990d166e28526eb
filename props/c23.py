"""C23: neighbour-based recommenders predict what their definition says, for any data and parameters."""
import warnings
from vlib import oracle_knn as ok
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, rng_of
from vlib.evallib import by


def cases(tier, seed):
    for n in range(800 if tier == 'quick' else 5000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}


def run_case(spec, mon):
    from DRecPy.Recommender.Baseline import ItemKNN, UserKNN
    warnings.simplefilter('ignore')
    rng = rng_of('C23', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    data = make_data(rng, n_users=rng.randint(2, 8), n_items=rng.randint(2, 8), n_rows=rng.randint(4, 50), dups=False, inter='stars', extra=[])
    if rng.random() < 0.3:
        for r in data.rows: r['interaction'] = rng.randint(1, 80) / 16
    ds = load(data, spec['kind'])
    try:
        user_based = rng.random() < 0.5
        me, other = ('user', 'item') if user_based else ('item', 'user')
        sim = rng.choice(list(ok.SIMS))
        args = dict(k=rng.choice([1, 2, 3, 20]), m=rng.choice([0, 1, 2, 3]), sim_metric=sim, aggregation=rng.choice(['mean', 'weighted_mean']),
                    shrinkage=rng.choice([None, 0, 1, 10, 100]), use_averages=rng.random() < 0.5)
        mon.log(spec['kind'], data.spec(), 'user' if user_based else 'item', args)
        model = (UserKNN if user_based else ItemKNN)(verbose=False, **args)
        model.fit(ds)
        rows = {a: {r[other]: r['interaction'] for r in rs} for a, rs in by(data.rows, me).items()}
        cols = by(data.rows, other)
        ctx = ok.span(rows.values(), len(cols))

        def similarity(a, b):
            co = len(set(rows[a]) & set(rows[b]))
            if args['m'] > 0 and co < args['m']: return 0.0
            s = ok.SIMS[sim](rows[a], rows[b], ctx)
            return s if args['shrinkage'] is None else s * (co / (co + args['shrinkage'] + 1e-6))
        sims = {a: {b: similarity(a, b) for b in rows if b != a} for a in rows}

        def undecided(a, b):
            """The similarity is 0 up to the rounding of terms that cancel out."""
            if abs(sims[a][b]) > 1e-9 or sim not in ('adjusted_cosine', 'pearson'): return False
            common = [c for c in rows[a] if c in rows[b]]
            ra, rb = (rows[a], rows[b]) if sim == 'adjusted_cosine' else ({c: rows[a][c] for c in common}, {c: rows[b][c] for c in common})
            ra, rb = ok.center(ra), ok.center(rb)
            return any(abs(ra[c] * rb[c]) > 1e-15 for c in common) or any(0 < abs(v) < 1e-9 for v in [*ra.values(), *rb.values()])
        agg = ok.mean if args['aggregation'] == 'mean' else ok.weighted_mean
        decided = 0
        for a in rows:
            ranked = sorted((s for s in sims[a].values() if s > 1e-9), reverse=True)
            if any(undecided(a, b) for b in sims[a]): continue
            if len(ranked) > args['k'] and ranked[args['k'] - 1] - ranked[args['k']] < 1e-9: continue  # a tie decides the neighbours
            near = {b: s for b, s in sims[a].items() if s > 1e-9 and (len(ranked) <= args['k'] or s > ranked[args['k']] + 1e-10)}
            for c in cols:
                voters = [b for b in near if c in rows[b]]
                if voters: want = agg([rows[b][c] for b in voters], [near[b] for b in voters])
                elif args['use_averages']: want = ok.mean([r['interaction'] for r in cols[c]], None)
                else: want = None
                u, i = (a, c) if user_based else (c, a)
                got = model.predict(u, i, skip_errors=True)
                mon.check(type(got) in (type(None), float, int) or hasattr(got, 'dtype'), 'type of a prediction', got=got)
                mon.close(got, want, f'prediction of ({u!r}, {i!r})', tol=1e-6, neighbours={k: (v, rows[k].get(c)) for k, v in near.items()}, args=args)
                decided += 1
                mon.ev('predicted' if voters else 'average' if want is not None else 'no_prediction')
                if voters and rng.random() < 0.1:
                    mon.close(model.predict(u, i), want, f'prediction of ({u!r}, {i!r})', tol=1e-6)
                    lone = model.rank(u, [i], novelty=False)
                    mon.eq(len(lone), 1, f'rank of ({u!r}, {i!r})')
                    mon.close(lone[0][0], want, f'score of ({u!r}, {i!r}) when ranked', tol=1e-6)
                    mon.ev('ranked')
                if want is None and rng.random() < 0.1:
                    try: model.predict(u, i)
                    except Exception: mon.ev('refused')
                    else: mon.fail('a prediction without neighbours did not fail', user=u, item=i)
        umap = {r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])}
        imap = {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])}
        check_same(mon, ds, Ref.of(data).with_ids(umap, imap), 'dataset after fitting')
        # fitting again, with the same or other data, forgets what was learnt before
        if rng.random() < 0.3:
            data2 = make_data(rng, n_users=rng.randint(2, 6), n_items=rng.randint(2, 6), n_rows=rng.randint(4, 30), dups=False, inter='stars', extra=[])
            ds2, ds3 = load(data2, 'mem_df'), load(data2, 'mem_df')
            model.fit(ds2)
            fresh = (UserKNN if user_based else ItemKNN)(verbose=False, **args)
            fresh.fit(ds3)
            for u in by(data2.rows):
                for i in by(data2.rows, 'item'):
                    mon.close(model.predict(u, i, skip_errors=True), fresh.predict(u, i, skip_errors=True), 'prediction of a model that was fitted before', args=args)
            mon.ev('refitted')
        mon.ev('predictions', decided)
        mon.state((spec['kind'], user_based, sorted(args.items(), key=repr), data.spec()['rows']))
        mon.sample({'model': type(model).__name__, 'args': args, 'predictions': decided})
    finally:
        close_all(ds)
