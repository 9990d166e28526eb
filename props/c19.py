"""C19: ranking evaluation reports exactly the mean of each metric over valid per-user samples, whatever the schedule."""
import sys
from vlib import oracle_metrics as om
from vlib.sched import noisy
from vlib.data import Ref, check_same, close_all, force_db_optimisation, rng_of
from vlib.evallib import by, load_pair, make_stub, near4, train_test


def setup():
    sys.setswitchinterval(1e-5)


def cases(tier, seed):
    for n in range(450 if tier == 'quick' else 4000):
        yield {'seed': seed, 'n': n}
    for n in range(4 if tier == 'quick' else 20):
        yield {'seed': seed, 'n': n, 'what': 'verbose'}
    for n in range(6 if tier == 'quick' else 40):
        yield {'seed': seed, 'n': n, 'what': 'spread'}


def metrics_of(rng, with_rr):
    from DRecPy.Evaluation import Metrics as M

    class Custom(M.RankingMetricABC):
        def __call__(self, recommendations, k=None, relevant_recommendations=None, relevancies=None):
            return sum(float(relevancies[r]) / (n + 2) for n, r in enumerate(recommendations[:k])) + len(relevant_recommendations)

    def custom(recs, pos, best, rel, k): return sum(rel[r] / (n + 2) for n, r in enumerate(recs[:k])) + len(pos)
    all_ = [(M.Precision(), lambda recs, pos, best, rel, k: om.precision(recs, pos, k)),
            (M.Recall(), lambda recs, pos, best, rel, k: om.recall(recs, pos, k)),
            (M.HitRatio(), lambda recs, pos, best, rel, k: om.hit_ratio(recs, pos, k)),
            (M.NDCG(), lambda recs, pos, best, rel, k: om.ndcg(recs, rel, k)),
            (M.DCG(strong_relevancy=False), lambda recs, pos, best, rel, k: om.dcg(recs, rel, k, False)),
            (M.FScore(beta=2), lambda recs, pos, best, rel, k: om.fscore(recs, pos, k, 2)),
            (M.AveragePrecision(), lambda recs, pos, best, rel, k: om.average_precision(recs, pos, k)),
            (Custom(), custom)]
    if with_rr: all_.append((M.ReciprocalRank(), lambda recs, pos, best, rel, k: om.reciprocal_rank(recs, best, k) if best is not None else 0))
    rng.shuffle(all_)
    return all_[:rng.randint(2, len(all_))]


def means(per_user, metrics, ks):
    out = {}
    for m, fn in metrics:
        for k in ks:
            vals = []
            for recs, pos, best, rel in per_user:
                try: vals.append(fn(recs, pos, best, rel, k))
                except ZeroDivisionError: pass  # undefined for this user
            out[f'{m.name}@{k}'] = sum(vals) / len(vals) if vals else 0
    return out


def args_of(rng):
    a = {}
    if rng.random() < 0.4: a['n_pos_interactions'] = rng.randint(1, 3)
    if rng.random() < 0.6: a['n_neg_interactions'] = rng.choice([1, 2, 3, 5, 0.5, 1.0, 2.0])
    if 'n_neg_interactions' in a and rng.random() < 0.6: a['generate_negative_pairs'] = True
    if rng.random() < 0.4: a['novelty'] = True
    if rng.random() < 0.3: a['n_test_users'] = rng.randint(1, 9)
    if rng.random() < 0.5: a['interaction_threshold'] = rng.choice([1, 2, 2.5, 3, 0])
    return a


def run_case(spec, mon):
    from DRecPy.Evaluation.Processes import ranking_evaluation
    what = spec.get('what')
    rng = rng_of('C19', spec['seed'], spec['n'], what)
    force_db_optimisation(rng)
    rr = rng.random() < 0.5
    train, test = train_test(rng, unique_values=rr)
    on_train = rng.random() < 0.2
    if on_train: test = train
    ds_tr, ds_te, kinds = load_pair(rng, train, test)
    mon.log('train', kinds[0], train.spec(), 'test', kinds[1], 'the train data' if on_train else test.spec())
    try:
        users_te, users_tr = by(test.rows), by(train.rows)
        items_tr = {r['item'] for r in train.rows}
        fails = rng.sample(sorted(users_tr, key=repr), 1) if rng.random() < 0.25 else []
        model = make_stub()(rng.random(), none_rate=rng.choice([0, 0, 0.2]), delay=0.002, fail_users=fails, interaction_threshold=rng.choice([0.001, 2]))
        model.fit(ds_tr)
        args = args_of(rng)
        if what == 'spread':
            args = dict(n_pos_interactions=1)
            args.update({'n_neg_interactions': 2, 'generate_negative_pairs': True} if rng.random() < 0.7 else {})
        thr = args.get('interaction_threshold', model.interaction_threshold)
        ks = rng.choice([[10], [1], [3], [1, 3, 5], [5, 2]])
        if rng.random() < 0.2: ks = [10]
        mets = metrics_of(rng, rr)
        novelty, n_pos, n_neg, gen = args.get('novelty', False), args.get('n_pos_interactions'), args.get('n_neg_interactions'), args.get('generate_negative_pairs', False)
        mon.log(args, 'k', ks, [m.name for m, _ in mets], 'failing', fails)

        def test_rows(u): return {r['item']: r['interaction'] for r in users_te[u]}

        def positives(u, rows): return {r['item'] for r in rows.get(u, ()) if r['interaction'] >= thr}

        def evaluate(threads, seed, verbose=False):
            model.calls.clear()
            k = ks[0] if len(ks) == 1 and rng.random() < 0.5 else list(ks)
            given = dict(args)
            ds = None if on_train and rng.random() < 0.5 else (ds_tr if on_train else ds_te)
            res = ranking_evaluation(model, ds, k=k, metrics=[m for m, _ in mets], max_concurrent_threads=threads, seed=seed, verbose=verbose, block=False, **given)
            return res, [c for c in model.calls if c[0] == 'rank']

        seed, nrng = rng.randint(0, 1000), rng_of('noise', spec['seed'], spec['n'])
        res, calls = evaluate(rng.choice([1, 2, 4, 8]), seed, verbose=what == 'verbose')
        # which users were ranked, and on which items
        ranked = {}
        for _, u, items, kw, _ in calls:
            mon.check(u in users_te, 'a user that is not in the test data was evaluated', user=u)
            mon.check(u not in ranked, 'a user was evaluated twice', user=u)
            ranked[u] = items
        may_rank, must_rank = set(), set()
        for u in users_te:
            pos_all = positives(u, users_te)
            neg_all = set(test_rows(u)) - pos_all
            if n_pos is not None and len(pos_all) < n_pos: continue
            npos = n_pos if n_pos is not None else len(pos_all)
            want_neg = None if n_neg is None else (int(n_neg * npos) if isinstance(n_neg, float) else n_neg)
            black = pos_all | positives(u, users_tr)
            got_neg = len(neg_all) if want_neg is None else min(want_neg, len(neg_all))
            must = True
            if want_neg is not None and got_neg < want_neg and gen:
                if len(items_tr) - len(black) < want_neg: must = False  # documented: not enough eligible negative items
                if len((items_tr | neg_all) - black) < want_neg: continue
            elif npos + got_neg == 0: continue
            may_rank.add(u)
            if must: must_rank.add(u)
            if u not in ranked: continue
            items = ranked[u]
            mon.check(len(set(items)) == len(items), f'an item is repeated in the list to rank of user {u!r}', items=items)
            pos_in = [i for i in items if i in pos_all]
            neg_in = [i for i in items if i not in pos_all]
            mon.eq(len(pos_in), npos, f'number of positive items of user {u!r}')
            for i in neg_in:
                mon.check(i in neg_all or (gen and i in items_tr), f'unknown negative item for user {u!r}', item=i)
                mon.check(i not in black or i in neg_all, f'a positive item of user {u!r} was taken as negative', item=i)
            if want_neg is None: mon.eq(set(neg_in), neg_all, f'negative items of user {u!r}')
            elif not gen: mon.eq(len(neg_in), min(want_neg, len(neg_all)), f'number of negative items of user {u!r}')
            else: mon.eq(len(neg_in), want_neg, f'number of negative items of user {u!r} (generated)')
            if want_neg is not None: mon.check(sum(1 for i in neg_in if i in neg_all) >= min(want_neg, len(neg_all)), f'negative items of the test data of {u!r} were not used first', neg=neg_in)
            mon.ev('samples_checked')
            mon.ev('generated_negatives', sum(1 for i in neg_in if i not in neg_all))
        limit = args.get('n_test_users')
        mon.check(set(ranked) <= may_rank, 'a user without enough interactions was evaluated', users=set(ranked) - may_rank)
        if limit is None or limit >= len(users_te): mon.check(must_rank <= set(ranked), 'users were not evaluated', users=must_rank - set(ranked))
        else:
            mon.check(len(ranked) <= limit, f'{len(ranked)} users were evaluated instead of {limit}')
            if must_rank == set(users_te): mon.eq(len(ranked), limit, 'number of evaluated users')
        # expected results
        per_user = []
        for u, items in ranked.items():
            if u not in users_tr or u in fails and any(i in items_tr and not (novelty and i in by(users_tr[u], 'item')) for i in items):
                mon.ev('user_failed')
                continue
            rows = test_rows(u)
            seen = {r['item'] for r in users_tr[u]}
            scored = [(model.truth(u, i), i) for i in items if i in items_tr and not (novelty and i in seen)]
            recs = [i for s, i in sorted([p for p in scored if p[0] is not None], key=lambda p: -p[0])]
            pos = [i for i in items if i in positives(u, users_te)]
            best = max(pos, key=lambda i: rows[i]) if pos else None
            per_user.append((recs, pos, best, {i: rows.get(i, 0) for i in items}))
        want = means(per_user, mets, ks)
        mon.eq(set(res), set(want), 'reported metrics')
        for name, v in want.items():
            mon.check(near4(res[name], v), f'{name} is not the mean over the evaluated users', got=res[name], want=v, users=len(per_user), args=args)
            mon.ev('results_checked')
        mon.ev('users_evaluated', len(per_user))
        if what == 'verbose':
            mon.ev('verbose_runs')
            return
        # another schedule or number of threads gives the same samples and results
        for threads in rng.sample([1, 2, 3, 8], 2):
            model.delay = rng.choice([0, 0.004])
            with noisy(nrng, mon): res2, calls2 = evaluate(threads, seed)
            mon.eq({repr(c[1]): c[2] for c in calls2}, {repr(u): i for u, i in ranked.items()}, f'the same seed sampled other items with {threads} threads')
            for name in want: mon.check(near4(res2[name], want[name]), f'{name} depends on the schedule', got=res2[name], want=want[name], threads=threads)
            mon.state(('order', [repr(c[1]) for c in calls2], spec['n']))
            mon.ev('schedules')
        if what == 'spread' and ranked:
            model.delay = 0
            multi = [u for u in ranked if len(positives(u, users_te)) >= 2]
            seen = {u: set() for u in multi}
            for s in range(40):
                for c in evaluate(4, 5000 + 41 * s)[1]:
                    if c[1] in seen: seen[c[1]] |= {i for i in c[2] if i in positives(c[1], users_te)}
            for u in multi:
                mon.check(len(seen[u]) > 1, f'the positive item sampled for user {u!r} never depends on the seed')
                mon.ev('spread_checked')
        check_same(mon, ds_te, Ref.of(test), 'test data after the evaluation')
        mon.state((kinds, sorted(args.items(), key=repr), sorted(map(repr, ranked)), sorted(res.items())))
        mon.sample({'args': args, 'k': ks, 'evaluated': len(per_user), 'results': res})
    finally:
        close_all(ds_tr, ds_te)
