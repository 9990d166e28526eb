"""C32: an option that is left out has its documented default value, and options can be given by position or by name."""
import contextlib
import io
import os
import warnings
from vlib.data import Data, KINDS, close_all, force_db_optimisation, load, make_data, make_ids, pyval, repr_key, rng_of, scratch
from vlib.evallib import load_pair, make_stub, train_test
from vlib.models import build, model_data

PARTS = ['split', 'sampler', 'list_sampler', 'evaluation', 'evaluation', 'predictive', 'knn', 'queries', 'dataset', 'dataset', 'load', 'metrics',
         'fit', 'quiet', 'deep', 'early', 'pairs', 'split', 'large']
BY_NAME = object()  # can only be given by name


def cases(tier, seed):
    for n in range(380 if tier == 'quick' else 5700):
        yield {'seed': seed, 'n': n, 'part': PARTS[n % len(PARTS)]}


def run_case(spec, mon):
    warnings.simplefilter('ignore')
    rng = rng_of('C32', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    mon.log(spec['part'])
    globals()['part_' + spec['part']](rng, mon, spec)
    mon.state((spec['part'], spec['n']))


def plain(v):
    """A comparable form of a result."""
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    v = pyval(v)
    return float(v) if isinstance(v, float) else v


def close(a, b, tol=1e-5):
    if isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool): return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))
    if isinstance(a, dict): return isinstance(b, dict) and list(a) == list(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def content(ds):
    return [sorted(ds.columns), sorted((tuple(r[c] for c in sorted(r)) for r in ds.values_list()), key=repr_key)]


def left_out(rng, mon, what, run, options, others=None, times=2):
    """Calls with all the options of the documentation, and with some of them left out, do the same.

    options: (name, documented default) in the order of the arguments, after them those that can only be given by name.
    others: other values that some of the options have in all the calls instead."""
    names = [o[0] for o in options]
    by_position = [o[0] for o in options if len(o) == 2]
    value = {o[0]: o[1] for o in options}
    fixed = {}
    for name, values in (others or {}).items():
        if rng.random() < 0.35: fixed[name] = rng.choice(values)
    value.update(fixed)

    def outcome(args, kwds):
        try: return plain(run(*args, **kwds))
        except (AssertionError, KeyboardInterrupt): raise
        except Exception as e: return f'failed: {type(e).__name__}'

    def attempt(args, kwds):
        try: return outcome(args, kwds)
        except AssertionError as e: return f'failed: {type(e).__name__}'
    want = attempt((), {n: value[n] for n in names})
    if isinstance(want, str) and want.startswith('failed'): mon.ev('failed_calls')
    for t in range(times):
        keep = set(names) if t == 0 and rng.random() < 0.2 else set(fixed) | (set() if t == 0 else {n for n in names if rng.random() < rng.choice([0.2, 0.5])})
        args = []
        for n in by_position:
            if n not in keep or rng.random() < 0.5: break
            args.append(value[n])
        kwds = {n: value[n] for n in names if n in keep and n not in by_position[:len(args)]}
        kwds = dict(rng.sample(sorted(kwds.items(), key=lambda x: x[0]), len(kwds)))
        got = attempt(args, kwds)
        if not close(want, got, 2e-4 if 'evaluation' in what else 1e-5):  # threads add up in any order, before the results are rounded to 4 decimals
            mon.fail(f'{what} does something else when options with their default values are left out', left_out=sorted(set(names) - keep),
                     by_position=by_position[:len(args)], values={k: repr(v)[:60] for k, v in value.items()}, got=got, want=want)
        mon.checks += 1
        mon.ev('calls'); mon.ev(what.replace(' ', '_')); mon.ev('options_left_out', len(names) - len(keep))
        if args: mon.ev('by_position', len(args))


# splits, samplers and generators

def timed(rng, **kw):
    data = make_data(rng, extra=[], dups=False, **kw)
    for c in ('timestamp', 'moment'):
        data.columns.append(c)
        for r, t in zip(data.rows, rng.sample(range(10, 10 + 3 * len(data.rows)), len(data.rows))): r[c] = t
    return data


def part_split(rng, mon, spec):
    from DRecPy.Evaluation.Splits import leave_k_out, matrix_split, random_split
    data = timed(rng, n_users=rng.randint(3, 12), n_items=rng.randint(4, 14), n_rows=rng.randint(20, 90))
    ds = load(data, rng.choice(KINDS))
    mon.log(data.spec())
    try:
        def of(split):
            def run(*args, **kw):
                parts = split(ds, *args, verbose=False, **kw)
                try: return [content(p) for p in parts]
                finally: close_all(parts)
            return run
        left_out(rng, mon, 'random_split', of(random_split), [('test_ratio', 0.25), ('seed', 0)], {'seed': [3, 7], 'test_ratio': [0.4, 0.1]})
        left_out(rng, mon, 'leave_k_out', of(leave_k_out), [('k', 1), ('min_user_interactions', 0), ('last_timestamps', False), ('timestamp_label', 'timestamp'),
                 ('seed', 0), ('max_concurrent_threads', 4)], {'last_timestamps': [True], 'k': [2, 0.4], 'seed': [5], 'min_user_interactions': [3, 6], 'timestamp_label': ['moment']})
        left_out(rng, mon, 'matrix_split', of(matrix_split), [('user_test_ratio', 0.2), ('item_test_ratio', 0.2), ('min_user_interactions', 0), ('seed', 0),
                 ('max_concurrent_threads', 4)], {'user_test_ratio': [0.5, 1], 'item_test_ratio': [0.5, 1], 'seed': [4], 'min_user_interactions': [3]})
    finally: close_all(ds)


def part_sampler(rng, mon, spec):
    from DRecPy.Sampler import PointSampler
    data = model_data(rng)  # some pair has no interaction
    ds = load(data, rng.choice(KINDS))
    mon.log(data.spec())
    try:
        ds.assign_internal_ids()
        seed, ratio = rng.randint(0, 99), rng.choice([0, 1, 3])

        def draw(n, *args, **kw):
            s = PointSampler(ds, ratio, *args, **dict(kw, **({} if len(args) > 1 else {'seed': seed})))
            return [s.sample(n), s.sample_one(), s.sample(n=n)] if n else [s.sample(), s.sample_one(), s.sample()]
        mon.check(close(plain(draw(16)), plain(draw(None))), 'PointSampler.sample() does not sample 16 records')
        mon.eq(len(PointSampler(ds, ratio, seed=seed).sample()), 16, 'records of PointSampler.sample()')
        left_out(rng, mon, 'PointSampler', lambda *a, **kw: draw(5, *a, **kw), [('interaction_threshold', None)])
    finally: close_all(ds)


def part_list_sampler(rng, mon, spec):
    from DRecPy.Sampler import ListSampler
    users, items = make_ids(rng, rng.choice(['int', 'str']), rng.randint(2, 4)), make_ids(rng, rng.choice(['int', 'str']), rng.randint(32, 40))
    rows = [dict(user=u, item=i, interaction=rng.choice([1, 2, 3])) for u in users for i in rng.sample(items, rng.randint(9, 16))]
    rng.shuffle(rows)
    for c in ('timestamp', 'moment'):
        for r, t in zip(rows, rng.sample(range(10, 10 + 3 * len(rows)), len(rows))): r[c] = t
    data = Data(rows, ['user', 'item', 'interaction', 'timestamp', 'moment'])
    ds = load(data, rng.choice(KINDS))
    mon.log(data.spec())
    try:
        ds.assign_internal_ids()
        seed = rng.randint(0, 99)

        def sample(*args, **kw):
            s = ListSampler(ds, ['uid'], *args, **dict(kw, seed=seed))
            return [s.sample_group_records(4), s.sample_group_records(n=1)]
        left_out(rng, mon, 'ListSampler', sample, [('neg_ratio', 3), ('n_targets', 5), ('negative_ids_col', 'iid'), ('interaction_threshold', None), ('sort_column', None),
                 ('min_positive_records', 8), ('max_positive_records', None)], {'n_targets': [2, 1, None], 'neg_ratio': [1, 2], 'min_positive_records': [2, 4],
                 'sort_column': ['timestamp'], 'max_positive_records': [9], 'negative_ids_col': ['item'], 'interaction_threshold': [2]}, times=3)

        def drawn(*args, **kw): return ListSampler(ds, ['uid'], n_targets=1, min_positive_records=2, seed=seed).sample_group_records(*args, **kw)
        left_out(rng, mon, 'sample_group_records', drawn, [('n', 16)])
    finally: close_all(ds)


def part_pairs(rng, mon, spec):
    data = model_data(rng)
    ds = load(data, rng.choice(KINDS))
    mon.log(data.spec())
    try:
        ds.assign_internal_ids()
        seed = rng.randint(0, 99)

        def take(gen, n=8):
            try: return [next(gen) for _ in range(n)]
            finally: gen.close()
        left_out(rng, mon, 'null_interaction_pair_generator', lambda *a, **kw: take(ds.null_interaction_pair_generator(*a, **dict(kw, seed=seed))),
                 [('interaction_threshold', None)], {'interaction_threshold': [2, 3]})
        left_out(rng, mon, 'select_random_generator', lambda *a, **kw: take(ds.select_random_generator(*a, **dict(kw, seed=seed))),
                 [('query', None)], {'query': ['uid >= 0']})
    finally: close_all(ds)


# evaluation

def fitted_stub(rng, train, **kw):
    if rng.random() < 0.7: kw['interaction_threshold'] = rng.choice([2, 3, 2.5])
    m = make_stub()(rng.randint(0, 999), none_rate=rng.choice([0, 0.2]), levels=rng.random() < 0.3, **kw)
    m.fit(train, epochs=0)
    return m


def part_evaluation(rng, mon, spec):
    from DRecPy.Evaluation.Metrics import HitRatio, NDCG, Precision, Recall, ReciprocalRank, AveragePrecision
    from DRecPy.Evaluation.Processes import ranking_evaluation, recommendation_evaluation
    train, test = train_test(rng, n_users=rng.randint(3, 6), n_items=rng.randint(12, 30))
    tr, te, kinds = load_pair(rng, train, test)
    mon.log(kinds, train.spec(), test.spec())
    try:
        m = fitted_stub(rng, tr)
        ranking = spec['n'] // len(PARTS) % 2
        rest = [('metrics', [Precision(), Recall(), HitRatio(), NDCG()], BY_NAME), ('interaction_threshold', m.interaction_threshold, BY_NAME)]
        own = rng.random() < 0.3
        n_users = len({r['user'] for r in (train if own else test).rows})
        others = dict(ds_test=[te], k=[[1, 3], 2], n_test_users=[2], n_pos_interactions=[1, 2], novelty=[True], seed=[3], metrics=[[AveragePrecision(), HitRatio()]],
                      interaction_threshold=[1, 3], ignore_low_predictions_threshold=[2, 3], n_neg_interactions=[1, 3, 0.5], generate_negative_pairs=[True])
        options = [('ds_test', tr if own else te), ('n_test_users', n_users), ('k', 10), ('n_pos_interactions', None)]
        if ranking:
            options += [('n_neg_interactions', None), ('generate_negative_pairs', False), ('novelty', False), ('seed', 0), ('max_concurrent_threads', 4)] + rest
            process = ranking_evaluation
        else:
            options += [('novelty', False), ('ignore_low_predictions_threshold', None), ('seed', 0), ('max_concurrent_threads', 4)] + rest
            process = recommendation_evaluation
        others = {k: v for k, v in others.items() if any(k == o[0] for o in options)}
        if own: others.pop('ds_test')
        else:
            def given(*args, **kw):
                if not args and 'ds_test' not in kw: kw['ds_test'] = te
                return process(m, *args, verbose=False, **kw)
        left_out(rng, mon, process.__name__, (lambda *a, **kw: process(m, *a, verbose=False, **kw)) if own else given, options, others, times=3)
    finally: close_all([tr, te])


def part_predictive(rng, mon, spec):
    from DRecPy.Evaluation.Metrics import MAE, MSE, RMSE
    from DRecPy.Evaluation.Processes import predictive_evaluation
    train, test = train_test(rng, n_users=rng.randint(3, 6), n_items=rng.randint(6, 14), outsiders=rng.random() < 0.5)
    tr, te, kinds = load_pair(rng, train, test)
    mon.log(kinds, train.spec(), test.spec())
    try:
        m = fitted_stub(rng, tr)
        own = rng.random() < 0.4
        ds = tr if own else te

        def run(*args, **kw):
            if not own and not args and 'ds_test' not in kw: kw['ds_test'] = te
            return predictive_evaluation(m, *args, verbose=False, **kw)
        left_out(rng, mon, 'predictive_evaluation', run, [('ds_test', ds), ('count_none_predictions', False), ('n_test_predictions', len((train if own else test).rows)), ('skip_errors', True),
                 ('metrics', [RMSE(), MSE()], BY_NAME)], {'count_none_predictions': [True], 'n_test_predictions': [3], 'metrics': [[MAE()]], 'skip_errors': [False]}, times=3)
    finally: close_all([tr, te])


def part_large(rng, mon, spec):
    """'All of them' is the default, however many there are."""
    from DRecPy.Dataset import InteractionDataset
    from DRecPy.Evaluation.Metrics import MSE, NDCG, Precision, RMSE
    from DRecPy.Evaluation.Processes import predictive_evaluation, ranking_evaluation, recommendation_evaluation
    import pandas as pd
    n_users, n_items = rng.choice([(4, 320), (12, 130), (120, 40), (260, 12), (30, 70)])
    rows = [(u, i, rng.randint(1, 5)) for u in range(n_users) for i in range(n_items) if rng.random() < 0.85 or i == u % n_items]
    rng.shuffle(rows)
    train = sorted({r[0]: r for r in rows}.values()) + sorted({r[1]: r for r in rows}.values())
    train += [r for r in rows if rng.random() < 0.1]
    train = list(dict.fromkeys(train))
    users, items = sorted({r[0] for r in train}), sorted({r[1] for r in train})
    tr, te = (InteractionDataset.read_df(pd.DataFrame(x, columns=['user', 'item', 'interaction']), verbose=False) for x in (train, rows))
    mon.log(n_users, n_items, len(train), len(rows))
    m = make_stub()(rng.randint(0, 999))
    m.fit(tr, epochs=0)
    for u in rng.sample(users, 2):
        left_out(rng, mon, 'recommend', lambda *a, **kw: m.recommend(u, *a, **kw), [('n', len(items)), ('novelty', True), ('interaction_threshold', None)],
                 {'novelty': [False], 'interaction_threshold': [0, 2]})
        mon.eq(len(m.recommend(u, novelty=False)), len(items), 'number of recommended items when it is left out')
        left_out(rng, mon, 'rank', lambda *a, **kw: m.rank(u, list(items), *a, **kw), [('novelty', True), ('skip_invalid_items', True), ('n', len(items), BY_NAME)], {'novelty': [False]})
        mon.eq(len(m.rank(u, list(items), novelty=False)), len(items), 'number of ranked items when it is left out')
    metrics = [Precision(), NDCG()]
    if len(users) * len(items) < 5500:
        for process in (ranking_evaluation, recommendation_evaluation):
            left_out(rng, mon, process.__name__, lambda *a, **kw: process(m, te, *a, metrics=metrics, verbose=False, **kw), [('n_test_users', n_users), ('k', 10), ('n_pos_interactions', None)], {'k': [3, [2, 90]]}, times=1)
    left_out(rng, mon, 'predictive_evaluation', lambda *a, **kw: predictive_evaluation(m, te, *a, metrics=[RMSE(), MSE()], verbose=False, **kw),
             [('count_none_predictions', False), ('n_test_predictions', len(rows))], {'count_none_predictions': [True]}, times=1)
    mon.ev('all_of_many')


def part_metrics(rng, mon, spec):
    from DRecPy.Evaluation import Metrics as M
    items = list(range(rng.randint(2, 14)))
    recs, relevant = rng.sample(items, rng.randint(1, len(items))), rng.sample(items, rng.randint(1, len(items)))
    rel = {i: rng.choice([0, 1, 2, 3, 0.5]) for i in items}
    rel[recs[0]] = 2
    for name, option, truth in [('DCG', ('strong_relevancy', True), 'relevancies'), ('NDCG', ('strong_relevancy', True), 'relevancies'), ('FScore', ('beta', 1), 'relevant_recommendations'),
                                ('HitRatio', None, 'relevant_recommendations'), ('Precision', None, 'relevant_recommendations'), ('Recall', None, 'relevant_recommendations'),
                                ('AveragePrecision', None, 'relevant_recommendations'), ('ReciprocalRank', None, 'relevant_recommendation')]:
        cls = getattr(M, name)
        args = {truth: {'relevancies': rel, 'relevant_recommendations': relevant, 'relevant_recommendation': relevant[0]}[truth]}
        if option: left_out(rng, mon, name, lambda *a, **kw: cls(*a, **kw)(recs, k=3, **args), [option], times=1)
        left_out(rng, mon, name + ' at k', lambda *a, **kw: cls()(recs, *a, **kw, **args), [('k', None)], {'k': [2]}, times=1)


# models

def scores(m, data):
    out = []
    for u in sorted({r['user'] for r in data.rows}, key=repr):
        for i in sorted({r['item'] for r in data.rows}, key=repr): out.append(m.predict(u, i, skip_errors=True))
    return [None if v is None else float(v) for v in out]


def part_knn(rng, mon, spec):
    from DRecPy.Recommender.Baseline import ItemKNN, UserKNN
    cls = rng.choice([ItemKNN, UserKNN])
    data = model_data(rng, *((8, 30) if cls is ItemKNN else (30, 8)), min_rows=5 if cls is ItemKNN else 3, values=(0, 0.0005, 0.5, 1, 2, 3, 4, 5) if rng.random() < 0.5 else (1, 2, 3, 4, 5))
    ds = load(data, rng.choice(KINDS))
    mon.log(cls.__name__, data.spec())
    try:
        def run(*args, **kw):
            m = cls(*args, verbose=False, **kw)
            m.fit(ds)
            some = data.rows[:3]
            return [scores(m, data), m.interaction_threshold, [m.recommend(r['user']) for r in some]]
        left_out(rng, mon, cls.__name__, run, [o + (BY_NAME,) for o in [('k', 20), ('m', 5), ('sim_metric', 'adjusted_cosine'), ('aggregation', 'weighted_mean'), ('shrinkage', 100),
                 ('use_averages', False), ('interaction_threshold', 0.001)]], {'m': [1, 2], 'sim_metric': ['cosine', 'msd', 'jaccard'], 'shrinkage': [None, 1], 'k': [3], 'use_averages': [True]})
    finally: close_all(ds)


def part_deep(rng, mon, spec):
    import tensorflow as tf
    from DRecPy.Recommender import CDAE, Caser, DMF
    name, cls, options, others = [
        ('CDAE', CDAE, [('hidden_factors', 50), ('corruption_level', 0.2), ('loss', 'bce')], {'loss': ['mse'], 'hidden_factors': [4]}),
        ('DMF', DMF, [('user_factors', [64, 32]), ('item_factors', [64, 32]), ('use_nce', True), ('l2_norm_vectors', True)], {'use_nce': [False], 'l2_norm_vectors': [False]}),
        ('Caser', Caser, [('L', 5), ('T', 3), ('d', 50), ('n_v', 4), ('n_h', 16), ('act_h', tf.nn.relu), ('act_mlp', tf.nn.relu), ('dropout_rate', 0.5), ('sort_column', 'timestamp')],
         {'L': [3], 'T': [1], 'd': [4], 'n_h': [2], 'dropout_rate': [0.0]})][spec['n'] // len(PARTS) % 3]
    data = model_data(rng, rng.randint(2, 4), rng.randint(26, 32), min_rows=10, values=(0, 0.0005, 1, 2, 3) if name == 'CDAE' and rng.random() < 0.3 else (1, 2, 3, 4, 5))
    for r in data.rows[:1]: r['interaction'] = 1
    ds = load(data, rng.choice(KINDS))
    mon.log(name, data.spec())
    seed = rng.randint(0, 99)
    try:
        def run(*args, **kw):
            m = cls(*args, verbose=False, seed=seed, **kw)
            m.fit(ds, epochs=2, batch_size=3, learning_rate=0.05, neg_ratio=1)
            return [scores(m, data), sorted([list(w.shape) for w in m.trainable_weights] + [list(w.shape) for x in m.trainable_models + m.trainable_layers for w in x.get_weights()])]
        left_out(rng, mon, name, run, options + [('interaction_threshold', 0.001, BY_NAME)], others, times=1)
        mon.ev('deep')
    finally: close_all(ds)


def part_fit(rng, mon, spec, early=False):
    """The training loop tells the model what the options are, and how often it calls back is seen."""
    import tensorflow as tf
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    from vlib.trainlib import make_model_class, make_plan
    data = model_data(rng)
    plan, seed, cls, salt = make_plan(rng), rng.randint(0, 99), make_model_class(), rng.randint(0, 99)
    ds = load(data, rng.choice(KINDS))
    mon.log(plan, early, data.spec())
    try:
        def run(*args, **kw):
            m = cls(plan, verbose=False, seed=seed)
            seen = []

            def back(model):
                seen.append(len(model.batches))
                return {'M': rng_of(salt, len(model.batches)).random()}
            if kw.pop('called_back', False) or early: kw['epoch_callback_fn'] = back
            if early: kw['early_stopping_rule'] = MaxValidationValueRule('M')
            if kw.get('optimizer') == 'own': kw['optimizer'] = tf.keras.optimizers.SGD(0.0625)
            if kw.get('optimizer') is None: kw.pop('optimizer', None)
            here = sorted(os.listdir('.'))
            before = content(ds)
            m.fit(ds, *args, **kw)
            mon.eq(sorted(os.listdir('.')), here, 'files after a training')
            shared = m.interaction_dataset is ds
            if not shared: close_all(m.interaction_dataset)
            return [m.events, m.batches, [w.tolist() for w in m.current()], seen, shared]
        options = [('epochs', 50), ('batch_size', 32), ('learning_rate', 0.001), ('neg_ratio', 5), ('reg_rate', 0.001), ('copy_dataset', False), ('epoch_callback_freq', 5, BY_NAME)]
        if early: options += [('early_stopping_freq', 5, BY_NAME)]
        else: options += [('epoch_callback_fn', None, BY_NAME), ('early_stopping_rule', None, BY_NAME), ('optimizer', None, BY_NAME)]
        others = {'epochs': [3, 7, 12], 'batch_size': [4], 'learning_rate': [0.1], 'copy_dataset': [True], 'epoch_callback_freq': [2, 3], 'early_stopping_freq': [2, 3], 'optimizer': ['own']}
        callbacks = early or rng.random() < 0.5
        left_out(rng, mon, 'fit with early stopping' if early else 'fit', lambda *a, **kw: run(*a, **(kw if early or not callbacks or kw.get('epoch_callback_fn') else
                 dict({k: v for k, v in kw.items() if k != 'epoch_callback_fn'}, called_back=True))), options, {k: v for k, v in others.items() if any(k == o[0] for o in options)})
    finally: close_all(ds)


def part_early(rng, mon, spec): part_fit(rng, mon, spec, early=True)


def part_queries(rng, mon, spec):
    data = make_data(rng, n_users=rng.randint(2, 5), n_items=rng.randint(4, 14), dups=False)
    ds = load(data, rng.choice(KINDS))
    mon.log(data.spec())
    try:
        m = fitted_stub(rng, ds)
        items, users = sorted({r['item'] for r in data.rows}, key=repr), sorted({r['user'] for r in data.rows}, key=repr)
        stranger = 'nobody known' if isinstance(users[0], str) else max(users) + 7
        unknown = 'nothing known' if isinstance(items[0], str) else max(items) + 7
        for _ in range(3):
            user = rng.choice(users)
            left_out(rng, mon, 'recommend', lambda *a, **kw: m.recommend(user, *a, **kw), [('n', len(items)), ('novelty', True), ('interaction_threshold', None)],
                     {'n': [1, 3], 'novelty': [False], 'interaction_threshold': [2, 3]})
            asked = rng.sample(items, rng.randint(1, len(items)))
            some = asked + ([unknown] if rng.random() < 0.5 else [])
            rng.shuffle(some)
            left_out(rng, mon, 'rank', lambda *a, **kw: m.rank(user, list(some), *a, **kw), [('novelty', True), ('skip_invalid_items', True), ('n', len(asked), BY_NAME)],
                     {'novelty': [False], 'skip_invalid_items': [False], 'n': [1]})
            u, i = rng.choice(users + [stranger]), rng.choice(items + [unknown])
            left_out(rng, mon, 'predict', lambda *a, **kw: m.predict(u, i, *a, **kw), [('skip_errors', False)], {'skip_errors': [True]})
    finally: close_all(ds)


# datasets

def part_dataset(rng, mon, spec):
    data = make_data(rng)
    ids = rng.random() < 0.5
    live = []
    kind = rng.choice(KINDS)
    mon.log(kind, data.spec())
    try:
        def fresh():
            ds = load(data, kind)
            live.append(ds)
            if ids: ds.assign_internal_ids()
            return ds
        one = fresh()
        cols = list(one.columns)
        users = sorted({r['user'] for r in data.rows}, key=repr)
        query = f'user == {rng.choice(users)!r}'
        rids = rng.sample(range(len(data.rows)), rng.randint(1, len(data.rows)))
        some = rng.sample(cols, rng.randint(1, len(cols)))

        def changing(call):
            def run(*args, **kw):
                ds = fresh()
                res = call(ds, *args, **kw)
                live.append(res)
                out = [content(ds), content(res), res is ds]
                ds.drop(rng_of(1).sample(range(len(data.rows)), 1), copy=False)  # whether they are the same dataset
                return out + [len(res)]
            return run
        left_out(rng, mon, 'select', changing(lambda ds, *a, **kw: ds.select(query, *a, **kw)), [('copy', True)], {'copy': [False]}, times=1)
        left_out(rng, mon, 'drop', changing(lambda ds, *a, **kw: ds.drop(rids, *a, **kw)), [('copy', True), ('keep', False)], {'copy': [False], 'keep': [True]})
        left_out(rng, mon, 'unique', changing(lambda ds, *a, **kw: ds.unique(*a, **kw)), [('columns', cols), ('copy', True)], {'copy': [False], 'columns': [some, ['user'], 'user']})
        left_out(rng, mon, 'count_unique', lambda *a, **kw: one.count_unique(*a, **kw), [('columns', cols)], {'columns': [some]}, times=1)
        reads = [('columns', cols), ('to_list', False)]
        more = {'columns': [some, 'user'], 'to_list': [True]}
        left_out(rng, mon, 'values', lambda *a, **kw: list(one.values(*a, **kw)), reads, more)
        left_out(rng, mon, 'values_list', lambda *a, **kw: one.values_list(*a, **kw), reads, more)
        left_out(rng, mon, 'select_one', lambda *a, **kw: one.select_one(query, *a, **kw), reads, more)

        def save(*args, **kw):
            path = scratch('.csv')
            try:
                fresh().save(path, *args, **kw)
                with open(path, newline='') as f: return f.read()
            finally:
                if os.path.exists(path): os.remove(path)
        left_out(rng, mon, 'save', save, [('columns', cols), ('write_header', False)], {'columns': [[c for c in cols if c not in ('rid', 'uid', 'iid')][:2]], 'write_header': [True]})
    finally: close_all(live)


def part_load(rng, mon, spec):
    import pandas as pd
    from DRecPy.Dataset import InteractionDataset
    data = make_data(rng, user_kind='int', item_kind='str', extra=[])
    live = []
    mon.log(data.spec())

    def done(ds):
        live.append(ds)
        return [content(ds), ds.in_memory, [r['rid'] for r in ds.values_list()]]
    try:
        delimiter, header = rng.choice([',', ';', '\t']), rng.random() < 0.5
        path = data.write_csv(delimiter=delimiter, header=header)
        options = [('delimiter', ','), ('has_header', False), ('in_memory', True)]
        left_out(rng, mon, 'InteractionDataset', lambda *a, **kw: done(InteractionDataset(path, list(data.columns), *a, verbose=False, **dict(kw, **{} if a or delimiter == ',' else {'delimiter': delimiter}))),
                 [(n, delimiter if n == 'delimiter' else v) for n, v in options], {'has_header': [header], 'in_memory': [False]}, times=3)
        os.remove(path)
        frame = pd.DataFrame([[r[c] for c in data.columns] for r in data.rows], columns=data.columns)
        frame = frame.rename(columns={'item': 'thing'}) if rng.random() < 0.4 else frame
        names = {'item_label': 'thing'} if 'thing' in frame else {}
        labels = [('user_label', 'user'), ('item_label', names.get('item_label', 'item')), ('interaction_label', 'interaction')]
        left_out(rng, mon, 'read_df', lambda *a, **kw: done(InteractionDataset.read_df(frame, *a, verbose=False, **dict(kw, **({} if len(a) > 1 else names)))), labels)
    finally: close_all(live)


def part_quiet(rng, mon, spec):
    """Whether something is printed, and whether a file is written, when nothing is said about it."""
    import matplotlib.pyplot as plt
    from DRecPy.Dataset import InteractionDataset
    from DRecPy.Evaluation.Metrics import RMSE
    from DRecPy.Evaluation.Processes import predictive_evaluation, ranking_evaluation, recommendation_evaluation
    from DRecPy.Evaluation.Splits import leave_k_out, matrix_split, random_split
    from DRecPy.Recommender.Baseline import UserKNN
    import logging
    data = model_data(rng, rng.randint(3, 5))
    ds = load(data, rng.choice(KINDS))
    mon.log(data.spec())
    live = [ds]
    path = data.write_csv()
    folder, home = scratch('_out'), os.getcwd()
    os.makedirs(folder)
    logging.disable(logging.NOTSET)
    try:
        quiet = make_stub()(1)
        quiet.fit(ds, epochs=0)

        def train(**kw):
            m = UserKNN(sim_metric='cosine', m=1, **kw)
            m.fit(ds)
        def read(**kw):
            live.append(InteractionDataset(path, columns=list(data.columns), in_memory=False, **kw))
            live[-1].assign_internal_ids()
        ops = {'a split': [lambda split=split, **kw: live.extend(split(ds, **kw)) for split in (leave_k_out, matrix_split)],
               'an evaluation': [lambda **kw: predictive_evaluation(quiet, **kw), lambda **kw: ranking_evaluation(quiet, **dict(kw, block=False)), lambda **kw: recommendation_evaluation(quiet, **dict(kw, block=False))],
               'a training': [train], 'a dataset': [read]}
        for what, calls in ops.items():
            call = rng.choice(calls)
            loud = {}
            for verbose in (True, 'left out', False):
                out, err = io.StringIO(), io.StringIO()
                os.chdir(folder)
                try:
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err): call(**({} if verbose == 'left out' else {'verbose': verbose}))
                finally: os.chdir(home)
                loud[verbose] = bool(out.getvalue().strip() or err.getvalue().strip())
                mon.eq(os.listdir(folder), [], f'files written by {what}')
                plt.close('all')
            mon.eq(loud['left out'], loud[True], f'whether {what} reports its progress when nothing is said about it')
            mon.ev('reports_' + what.replace(' ', '_'), int(loud[True]))
            mon.ev('calls')
    finally:
        logging.disable(logging.CRITICAL)
        plt.close('all')
        close_all(live)
        os.remove(path)
        import shutil
        shutil.rmtree(folder)
