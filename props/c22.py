"""C22: predict, rank and recommend agree with each other and keep their promises, for every recommender."""
import math
import sys
import threading
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, rng_of
from vlib.evallib import by
from vlib.models import DEEP, build, model_data, small_args
from vlib.sched import noisy

MODELS = ['Stub', 'UserKNN', 'ItemKNN', 'CDAE', 'DMF', 'Caser', 'Stub', 'UserKNN', 'ItemKNN']


def setup():
    sys.setswitchinterval(1e-5)


def cases(tier, seed):
    for n in range(270 if tier == 'quick' else 4500):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n // len(MODELS) % 4], 'model': MODELS[n % len(MODELS)]}


def fails(fn):
    try: fn()
    except Exception: return True
    return False


def run_case(spec, mon):
    name = spec['model']
    rng = rng_of('C22', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    srng = rng_of('C22 scores', spec['seed'], spec['n'])
    data = model_data(rng, values=srng.choice([(1, 2, 3, 4, 5), (0, 1), (-2, -1, 0, 1, 2)]) if name not in DEEP else (1, 2, 3, 4, 5))
    ds = load(data, spec['kind'])
    try:
        kw = small_args(rng, name)
        if rng.random() < 0.5: kw['interaction_threshold'] = rng.choice([1, 2, 3])
        if name == 'Stub' and srng.random() < 0.5: kw['levels'] = True
        model = build(name, seed=rng.randint(0, 10 ** 6), **kw)
        users, items = by(data.rows), by(data.rows, 'item')
        some_user, some_item = next(iter(users)), next(iter(items))
        mon.log(spec['kind'], name, kw, data.spec())
        mon.check(fails(lambda: model.predict(some_user, some_item)) and fails(lambda: model.rank(some_user, [some_item])) and
                  fails(lambda: model.recommend(some_user)), 'a model that was not fitted answered')
        try:
            model.fit(ds, epochs=rng.randint(0, 3), batch_size=rng.randint(2, 6), neg_ratio=1, copy_dataset=rng.random() < 0.2)
        except Exception as e:
            if name == 'Caser' and 'consecutive tries' in str(e): return  # too few positive records for its sequences
            raise
        unknown_user = 'nobody' if isinstance(some_user, str) else 987654
        unknown_item = 'nothing' if isinstance(some_item, str) else 987654
        point = name != 'Caser'
        zeros = 0
        full = {}  # scores of all the items of each user, whatever the novelty
        for u in users:
            pred = {}
            for i in items:
                p = model.predict(u, i, skip_errors=True)
                if not point: mon.eq(p, None, 'prediction of a model without point predictions')
                else:
                    mon.check(p is None or math.isfinite(float(p)), 'a prediction is not a finite number', user=u, item=i, got=p)
                    if p is None: mon.check(fails(lambda: model.predict(u, i)), 'a missing prediction did not fail')
                    else:
                        mon.check(getattr(p, 'shape', ()) == (), 'a prediction is not a single number', got=p)
                        pred[i] = float(p)
                        zeros += int(float(p) == 0)
                        if rng.random() < 0.05: mon.close(model.predict(u, i), p, 'prediction when called again', tol=1e-5)
                mon.ev('predictions')
            for bad in [(unknown_user, some_item), (u, unknown_item), (unknown_user, unknown_item), (None, None)]:
                mon.eq(model.predict(*bad, skip_errors=True), None, f'prediction of an unknown user or item {bad} with skip_errors')
                mon.check(fails(lambda: model.predict(*bad)), f'prediction of an unknown user or item {bad} did not fail')
            seen = {r['item'] for r in users[u]}
            ranks = {}
            for novelty in (False, True):
                allowed = [i for i in items if not (novelty and i in seen)]
                given = list(items)
                rng.shuffle(given)
                res = model.rank(u, list(given), novelty=novelty)
                check_list(mon, res, allowed, f'rank of all the items, novelty={novelty}')
                got = {i: float(s) for s, i in res}
                if point:
                    for i, s in got.items(): mon.close(s, pred.get(i), f'score of {i!r} when ranked for {u!r} and when predicted', tol=1e-5)
                    missing = {i for i in allowed if i in pred} - set(got)
                    if name == 'UserKNN' and kw['use_averages']: mon.ev('averages_not_ranked', len(missing))  # documented by its tests
                    else: mon.check(not missing, f'items with a prediction were not ranked, novelty={novelty}', missing=missing)
                else: mon.eq(set(got), set(allowed), f'ranked items, novelty={novelty}')
                ranks[novelty] = got
                mon.ev('rankings')
            for i, s in ranks[True].items(): mon.close(s, ranks[False].get(i), f'score of {i!r} with and without novelty', tol=1e-5)
            full[u] = ranks
            # subsets, unknown items, and truncation
            for _ in range(3):
                novelty = rng.random() < 0.5
                sub = rng.sample(list(items), rng.randint(1, len(items)))
                args, extra = {}, []
                if rng.random() < 0.4: extra = [unknown_item]
                if rng.random() < 0.5: args['n'] = rng.randint(0, len(sub))
                req = sub + extra
                rng.shuffle(req)
                if extra: mon.check(fails(lambda: model.rank(u, req, skip_invalid_items=False, novelty=novelty, **args)), 'an unknown item was ranked without failing')
                before = list(req)
                res = model.rank(u, req, novelty=novelty, **args)
                mon.eq(req, before, 'rank modified the list of the caller')
                allowed = [i for i in sub if not (novelty and i in seen)]
                check_list(mon, res, allowed, f'rank of {req}, novelty={novelty}, {args}')
                want = sorted((ranks[novelty][i] for i in allowed if i in ranks[novelty]), reverse=True)[:args.get('n')]
                close_lists(mon, [s for s, _ in res], want, f'scores of rank({u!r}, {req}, novelty={novelty}, {args})')
                for s, i in res: mon.close(s, ranks[novelty].get(i), f'score of {i!r} depends on the other items to rank', tol=1e-5)
                mon.check(fails(lambda: model.rank(u, sub, n=len(sub) + 1)), 'n larger than the number of items did not fail')
                mon.ev('rankings')
            for _ in range(3):
                novelty, thr = rng.choice([True, True, False]), None
                n = rng.choice([None, 1, 2, 3, 100])
                args = {} if novelty and rng.random() < 0.5 else {'novelty': novelty}
                if ranks[novelty] and rng.random() < 0.5: args['interaction_threshold'] = thr = rng.choice(sorted(ranks[novelty].values())) + rng.choice([-1e-3, 1e-3, 0])
                if n is not None: args['n'] = n
                res = model.recommend(u, **args)
                check_list(mon, res, [i for i in items if not (novelty and i in seen)], f'recommend({u!r}, {args})')
                want = sorted(ranks[novelty].values(), reverse=True)[:n]
                if thr is not None:
                    mon.check(all(s >= thr for s, _ in res), f'recommend({u!r}, {args}) gave scores below the threshold', got=res)
                    exact = name == 'Stub' or name.endswith('KNN')  # the same score, bit by bit, each time
                    mon.check(len(res) >= sum(1 for s in want if (s >= thr if exact else s > thr + 1e-4)), f'recommend({u!r}, {args}) left out recommendations', got=res, want=want)
                    want = want[:len(res)]
                close_lists(mon, [s for s, _ in res], want, f'scores of recommend({u!r}, {args})')
                mon.ev('recommendations')
        mon.check(fails(lambda: model.rank(unknown_user, list(items))) and fails(lambda: model.recommend(unknown_user)), 'an unknown user was given recommendations')
        # several threads at once, as the evaluation processes do
        if rng.random() < 0.4:
            bad = []
            def work(us):
                try:
                    for u in us:
                        got = {i: float(s) for s, i in model.rank(u, list(items), novelty=False)}
                        if set(got) != set(full[u][False]) or any(abs(got[i] - full[u][False][i]) > 1e-5 * max(1, abs(got[i])) for i in got): bad.append((u, got))
                except Exception as e: bad.append(repr(e))
            ts = [threading.Thread(target=work, args=(rng.sample(list(users), len(users)),)) for _ in range(4)]
            with noisy(rng_of('noise', spec['seed'], spec['n']), mon, 0.5 if name == 'Stub' or name.endswith('KNN') else 0):
                for t in ts: t.start()
                for t in ts: t.join()
            mon.check(not bad, 'ranking from several threads gave other results', bad=bad[:2])
            mon.ev('threads')
        umap = {r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])} if 'uid' in ds.columns else None
        if umap is not None:
            imap = {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])}
            check_same(mon, ds, Ref.of(data).with_ids(umap, imap), 'train data after all of it')
        mon.ev('model_' + name)
        mon.ev('zero_predictions', zeros)
        mon.state((name, spec['kind'], sorted(kw.items(), key=repr), len(full), [sorted(r[True].items(), key=repr) for r in full.values()]))
        mon.sample({'model': name, 'args': {k: str(v) for k, v in kw.items()}, 'users': len(users), 'items': len(items)})
    finally:
        close_all(ds)


def check_list(mon, res, allowed, what):
    mon.check(isinstance(res, list) and all(len(p) == 2 for p in res), f'{what}: not a list of (score, item) pairs', got=res)
    got = [i for _, i in res]
    mon.check(len(set(got)) == len(got), f'{what}: an item is repeated', got=got)
    mon.check(set(got) <= set(allowed), f'{what}: items that should not be there', items=set(got) - set(allowed))
    mon.check(all(type(i) is type(allowed[0]) or hasattr(i, 'dtype') for i in got), f'{what}: items are not raw ids', got=got)
    scores = [float(s) for s, _ in res]
    mon.check(all(math.isfinite(s) for s in scores), f'{what}: a score is not a number', scores=scores)
    mon.check(scores == sorted(scores, reverse=True), f'{what}: not sorted by score', scores=scores)


def close_lists(mon, got, want, what):
    mon.check(len(got) == len(want) and all(abs(float(a) - b) <= 1e-5 * max(1, abs(b)) for a, b in zip(got, want)), what, got=got, want=want)
