"""C21: predictive evaluation measures the error over exactly the test rows it should predict."""
from vlib import oracle_metrics as om
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, rng_of
from vlib.evallib import by, load_pair, make_stub, near4, train_test


def cases(tier, seed):
    for n in range(1000 if tier == 'quick' else 6000):
        yield {'seed': seed, 'n': n}


def run_case(spec, mon):
    from DRecPy.Evaluation import Metrics as M
    from DRecPy.Evaluation.Processes import predictive_evaluation
    rng = rng_of('C21', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    train, test = train_test(rng, outsiders=rng.random() < 0.7)
    on_train = rng.random() < 0.2
    if on_train: test = train
    ds_tr, ds_te, kinds = load_pair(rng, train, test)
    mon.log('train', kinds[0], train.spec(), 'test', kinds[1], 'the train data' if on_train else test.spec())

    class Seen(M.PredictiveMetricABC):
        def __call__(self, y_true, y_pred):
            self.got = (list(y_true), list(y_pred))
            return len(y_true) / 8
    try:
        users, items = by(train.rows), by(train.rows, 'item')
        fails = rng.sample(sorted(users, key=repr), 1) if rng.random() < 0.3 else []
        model = make_stub()(rng.random(), none_rate=rng.choice([0, 0.25]), fail_users=fails)
        model.fit(ds_tr)

        def truth(r):
            if r['user'] not in users or r['item'] not in items or r['user'] in fails: return None
            return model.truth(r['user'], r['item'])
        count_none, skip = rng.random() < 0.5, rng.random() < 0.8
        limit = rng.choice([None, None, 1, 2, 5, 1000])
        args = dict(count_none_predictions=count_none, skip_errors=skip)
        if limit is not None: args['n_test_predictions'] = limit
        mon.log(args, 'failing', fails)
        y = []
        error = False
        for r in test.rows:
            if len(y) >= min(limit or 10 ** 9, len(test.rows)): break
            p = truth(r)
            if p is None and not skip:
                error = True
                break
            if p is None and not count_none: continue
            y.append((r['interaction'], p if p is not None else 0))
        seen = Seen()
        mets = [M.RMSE(), M.MSE(), M.MAE(), seen]
        rng.shuffle(mets)
        before = list(mets)
        ds = None if on_train and rng.random() < 0.5 else (ds_tr if on_train else ds_te)
        try:
            res = predictive_evaluation(model, ds, metrics=mets, verbose=rng.random() < 0.05, **args)
        except Exception as e:
            mon.check(error or not y, f'the evaluation failed: {type(e).__name__}: {e}', predictions=len(y))
            mon.ev('error_reported' if error else 'nothing_to_evaluate')
            mon.state((spec['n'], 'error'))
            return
        mon.check(not error, 'a failing prediction was not reported although errors are not skipped', args=args)
        if not y: return
        mon.eq(mets, before, 'list of metrics')
        mon.eq(set(res), {'RMSE', 'MSE', 'MAE', 'Seen'}, 'reported metrics')
        if limit is None or limit >= len(test.rows):
            mon.eq(sorted(zip(*seen.got)), sorted(y), 'pairs of true and predicted values')
        else:
            mon.eq(len(seen.got[0]), len(y), 'number of evaluated predictions')
            everything = [(r['interaction'], truth(r) if truth(r) is not None else 0) for r in test.rows]
            for p in zip(*seen.got): mon.check(p in everything, 'a pair of true and predicted values is not of the test data', pair=p)
            y = list(zip(*seen.got))
        t, p = [a for a, _ in y], [b for _, b in y]
        for name, fn in [('MSE', om.mse), ('RMSE', om.rmse), ('MAE', om.mae)]:
            mon.check(near4(res[name], fn(t, p)), f'{name} is not the one of the predictions', got=res[name], want=fn(t, p))
        mon.check(near4(res['Seen'], len(y) / 8), 'custom metric', got=res['Seen'])
        mon.ev('evaluated')
        mon.ev('predictions', len(y))
        check_same(mon, ds_te, Ref.of(test), 'test data after the evaluation')
        if not limit:
            dflt = predictive_evaluation(model, ds, verbose=False, **args)
            mon.eq(dflt, {'RMSE': res['RMSE'], 'MSE': res['MSE']}, 'default metrics')
        mon.state((kinds, sorted(args.items()), sorted(res.items()), len(y)))
        mon.sample({'args': args, 'predictions': len(y), 'results': res})
    finally:
        close_all(ds_tr, ds_te)
