"""C20: recommendation evaluation reports exactly the mean of each metric over the users it must evaluate, whatever the schedule."""
import sys
import threading
from props.c19 import means, metrics_of
from vlib.sched import noisy
from vlib.data import Ref, check_same, close_all, force_db_optimisation, rng_of
from vlib.evallib import by, load_pair, make_stub, near4, train_test


def setup():
    sys.setswitchinterval(1e-5)


def cases(tier, seed):
    for n in range(450 if tier == 'quick' else 4000):
        yield {'seed': seed, 'n': n}
    for n in range(4 if tier == 'quick' else 20):
        yield {'seed': seed, 'n': n, 'what': 'verbose'}
    for n in range(6 if tier == 'quick' else 40):
        yield {'seed': seed, 'n': n, 'what': 'spread'}


def recorder():
    from DRecPy.Evaluation import Metrics as M

    class Rec(M.RankingMetricABC):
        def __init__(self):
            super().__init__()
            self.seen, self.lock = [], threading.Lock()

        def __call__(self, recommendations, k=None, relevant_recommendations=None, relevant_recommendation=None, relevancies=None):
            with self.lock:
                self.seen.append((tuple(recommendations), k, tuple(relevant_recommendations), relevant_recommendation, dict(relevancies)))
            return 0
    return Rec()


def run_case(spec, mon):
    from DRecPy.Evaluation.Processes import recommendation_evaluation
    what = spec.get('what')
    rng = rng_of('C20', spec['seed'], spec['n'], what)
    force_db_optimisation(rng)
    rr = rng.random() < 0.5
    train, test = train_test(rng, unique_values=rr, n_items=rng.randint(5, 14))
    on_train = rng.random() < 0.2
    if on_train: test = train
    ds_tr, ds_te, kinds = load_pair(rng, train, test)
    mon.log('train', kinds[0], train.spec(), 'test', kinds[1], 'the train data' if on_train else test.spec())
    try:
        users_te, users_tr = by(test.rows), by(train.rows)
        items_tr = {r['item'] for r in train.rows}
        fails = rng.sample(sorted(users_tr, key=repr), 1) if rng.random() < 0.25 else []
        model = make_stub()(rng.random(), none_rate=rng.choice([0, 0, 0.2]), delay=0.002, fail_users=fails, interaction_threshold=rng.choice([0.001, 2]))
        model.fit(ds_tr)
        args = {}
        if rng.random() < 0.4 or what == 'spread': args['n_pos_interactions'] = rng.randint(1, 3)
        if what == 'spread': args['n_pos_interactions'] = 1
        if rng.random() < 0.4: args['novelty'] = True
        if rng.random() < 0.3 and what != 'spread': args['n_test_users'] = rng.randint(1, 9)
        if rng.random() < 0.5: args['interaction_threshold'] = rng.choice([1, 2, 2.5, 3, 0])
        if rng.random() < 0.4: args['ignore_low_predictions_threshold'] = rng.choice([1, 2.5, 4, 5.5])
        thr = args.get('interaction_threshold', model.interaction_threshold)
        low, novelty, n_pos = args.get('ignore_low_predictions_threshold'), args.get('novelty', False), args.get('n_pos_interactions')
        ks = rng.choice([[10], [1], [3], [1, 3, 5], [5, 2]])
        mets = metrics_of(rng, rr)
        rec = recorder()
        mon.log(args, 'k', ks, [m.name for m, _ in mets], 'failing', fails)

        def evaluate(threads, seed, verbose=False):
            model.calls.clear()
            rec.seen.clear()
            k = ks[0] if len(ks) == 1 and rng.random() < 0.5 else list(ks)
            ds = None if on_train and rng.random() < 0.5 else (ds_tr if on_train else ds_te)
            res = recommendation_evaluation(model, ds, k=k, metrics=[m for m, _ in mets] + [rec], max_concurrent_threads=threads, seed=seed,
                                            verbose=verbose, block=False, **args)
            return res, [c for c in model.calls if c[0] == 'recommend'], list(rec.seen)

        def positives(u): return {r['item']: r['interaction'] for r in users_te[u] if r['interaction'] >= thr}

        def expected_recs(u):
            seen = {r['item'] for r in users_tr[u]} if novelty else set()
            scored = [(model.truth(u, i), i) for i in items_tr if i not in seen]
            scored = sorted([p for p in scored if p[0] is not None], key=lambda p: -p[0])[:max(ks)]
            return tuple(i for s, i in scored if low is None or s >= low)

        seed, nrng = rng.randint(0, 1000), rng_of('noise', spec['seed'], spec['n'])
        res, calls, seen = evaluate(rng.choice([1, 2, 4, 8]), seed, verbose=what == 'verbose')
        asked = [c[1] for c in calls]
        mon.check(len(set(asked)) == len(asked), 'a user was evaluated twice', users=asked)
        mon.check(set(asked) <= set(users_te), 'a user that is not in the test data was evaluated', users=set(asked) - set(users_te))
        due = {u for u in users_te if len(positives(u)) >= (n_pos or 1)}
        mon.check(set(asked) <= due, 'a user without enough positive interactions was evaluated', users=set(asked) - due)
        limit = args.get('n_test_users')
        if limit is None or limit >= len(users_te): mon.eq({repr(u) for u in asked}, {repr(u) for u in due}, 'users that were evaluated')
        else:
            mon.check(len(asked) <= limit, f'{len(asked)} users were evaluated instead of {limit}')
            if due == set(users_te): mon.eq(len(asked), limit, 'number of evaluated users')
        ok_users = [u for u in asked if u in users_tr and not (u in fails and any(i not in {r['item'] for r in users_tr[u]} or not novelty for i in items_tr))]
        mon.ev('user_failed', len(asked) - len(ok_users))
        # what the metrics were given: one set of arguments per user and cut-off
        lists = {u: expected_recs(u) for u in ok_users}
        mon.eq(len(seen), len(ok_users) * len(ks), 'number of evaluations of a metric', users=len(ok_users), k=ks)
        mon.eq(sorted(map(repr, [(s[0], s[1]) for s in seen])), sorted(map(repr, [(lists[u], k) for u in ok_users for k in ks])), 'recommendation lists and cut-offs given to the metrics')
        per_user, ambiguous = [], False
        for u in ok_users:
            pos = positives(u)
            mine = [s for s in seen if s[0] == lists[u]]
            if sum(1 for v in ok_users if lists[v] == lists[u]) > 1:
                if n_pos is not None: ambiguous = True
                chosen = list(pos)
            else:
                mon.eq(len({repr(s[2:]) for s in mine}), 1, f'user {u!r} has other relevant items for another cut-off', seen=mine)
                _, _, relevant, best, rel = mine[0]
                mon.check(len(set(relevant)) == len(relevant) and set(relevant) <= set(pos), f'relevant items of {u!r} are not positive items of the test data', relevant=relevant, positive=pos)
                mon.eq(len(relevant), n_pos or len(pos), f'number of relevant items of {u!r}')
                mon.check(best in relevant and pos[best] == max(pos[i] for i in relevant), f'the most relevant item of {u!r} is not the one with the highest interaction', best=best, relevant={i: pos[i] for i in relevant})
                truth = {r['item']: r['interaction'] for r in users_te[u]}
                mon.check(set(rel) >= set(relevant) | set(lists[u]), f'relevancies of {u!r} are missing', rel=rel)
                for i, v in rel.items(): mon.eq(float(v), float(truth.get(i, 0)), f'relevancy of {i!r} for {u!r}')
                chosen = list(relevant)
                mon.ev('users_checked')
            truth = {r['item']: r['interaction'] for r in users_te[u]}
            per_user.append((list(lists[u]), chosen, max(chosen, key=lambda i: pos[i]), {i: truth.get(i, 0) for i in set(chosen) | set(lists[u])}))
        want = means(per_user, mets, ks)
        mon.eq(set(res), set(want) | {f'Rec@{k}' for k in ks}, 'reported metrics')
        if not ambiguous:
            for name, v in want.items():
                mon.check(near4(res[name], v), f'{name} is not the mean over the evaluated users', got=res[name], want=v, users=len(per_user), args=args)
                mon.ev('results_checked')
        mon.ev('users_evaluated', len(per_user))
        if what == 'verbose':
            mon.ev('verbose_runs')
            return
        for threads in rng.sample([1, 2, 3, 8], 2):
            model.delay = rng.choice([0, 0.004])
            with noisy(nrng, mon): res2, calls2, seen2 = evaluate(threads, seed)
            mon.eq(sorted(map(repr, seen2)), sorted(map(repr, seen)), f'the same seed gave other arguments to the metrics with {threads} threads')
            for name in res: mon.check(abs(res2[name] - res[name]) <= 1.01e-4, f'{name} depends on the schedule', got=res2[name], want=res[name], threads=threads)
            mon.state(('order', [repr(c[1]) for c in calls2], spec['n']))
            mon.ev('schedules')
        if what == 'spread':
            model.delay = 0
            multi = {u: set() for u in ok_users if len(positives(u)) >= 2 and sum(1 for v in ok_users if lists[v] == lists[u]) == 1}
            for s in range(40):
                for x in evaluate(4, 5000 + 41 * s)[2]:
                    for u in multi:
                        if lists[u] == x[0]: multi[u] |= set(x[2])
            for u, got in multi.items():
                mon.check(len(got) > 1, f'the positive item sampled for user {u!r} never depends on the seed')
                mon.ev('spread_checked')
        check_same(mon, ds_te, Ref.of(test), 'test data after the evaluation')
        mon.state((kinds, sorted(args.items(), key=repr), sorted(map(repr, asked)), sorted(res.items())))
        mon.sample({'args': args, 'k': ks, 'evaluated': len(per_user), 'results': res})
    finally:
        close_all(ds_tr, ds_te)
