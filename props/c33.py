"""C33: requests that can not be honoured are refused with an error, at once, and leave nothing changed or behind."""
import os
import threading
import time
import warnings
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, repr_key, rng_of, scratch
from vlib.evallib import make_stub
from vlib.models import build, model_data

PARTS = ['splits', 'splits', 'evaluation', 'evaluation', 'samplers', 'loading', 'lookups', 'stopping', 'queries', 'unfitted', 'building', 'training', 'saving']


def cases(tier, seed):
    for n in range(520 if tier == 'quick' else 5200):
        yield {'seed': seed, 'n': n, 'part': PARTS[n % len(PARTS)], 'kind': KINDS[n // len(PARTS) % 4]}


def run_case(spec, mon):
    warnings.simplefilter('ignore')
    rng = rng_of('C33', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    globals()['part_' + spec['part']](rng, mon, spec)
    mon.state((spec['part'], spec['kind'], str(mon.trace)))


def refused(rng, mon, requests, unchanged, some=None):
    """Makes some of the requests, each of which must raise, and then looks whether everything is as it was."""
    names = sorted(requests)
    for name in rng.sample(names, min(len(names), some or rng.randint(3, 7))):
        mon.log(name)
        here, threads = sorted(os.listdir('.')), set(threading.enumerate())
        try: got = requests[name]()
        except Exception as e:  # noqa: BLE001, any error is a refusal
            mon.ev('refused')
            mon.ev('refused_with_' + type(e).__name__)
        else: mon.fail(f'{name}: was not refused', got=repr(got)[:200])
        mon.eq(sorted(os.listdir('.')), here, f'{name}: files of the working directory afterwards')
        end = time.time() + 10
        while set(threading.enumerate()) - threads and time.time() < end: time.sleep(0.01)
        mon.eq(len(set(threading.enumerate()) - threads), 0, f'{name}: threads that keep running')
        if rng.random() < 0.5: unchanged(name)
        mon.ev(name.split(':')[0].replace(' ', '_'))
    unchanged('the last refusal')


def prepared(rng, mon, spec, with_ids=False, **kw):
    data = make_data(rng, n_users=rng.randint(2, 6), n_items=rng.randint(3, 9), dups=False, **kw)
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log(spec['kind'], data.spec())
    if with_ids:
        ds.assign_internal_ids()
        ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])}, {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
    return data, ds, ref


def part_splits(rng, mon, spec):
    from DRecPy.Evaluation.Splits import leave_k_out, matrix_split, random_split
    data, ds, ref = prepared(rng, mon, spec)
    q = dict(verbose=False)
    try:
        r = {f'random_split: ratio of {v}': lambda v=v: random_split(ds, test_ratio=v, **q) for v in (0, 1, -0.25, 1.5)}
        r['random_split: ratio too small for a row'] = lambda: random_split(ds, test_ratio=0.5 / len(data.rows), **q)
        r.update({f'leave_k_out: k of {v}': lambda v=v: leave_k_out(ds, k=v, **q) for v in (0, -1, 1.0, 1.5, -0.5)})
        r.update({f'leave_k_out: {v} threads': lambda v=v: leave_k_out(ds, max_concurrent_threads=v, **q) for v in (0, -2)})
        if max(sum(x['user'] == y['user'] for x in data.rows) for y in data.rows) > 1: r['leave_k_out: unknown column of timestamps'] = lambda: leave_k_out(ds, last_timestamps=True, timestamp_label='nothing', **q)
        r.update({f'matrix_split: user ratio of {v}': lambda v=v: matrix_split(ds, user_test_ratio=v, **q) for v in (0, -0.5, 1.25)})
        r.update({f'matrix_split: item ratio of {v}': lambda v=v: matrix_split(ds, item_test_ratio=v, **q) for v in (0, -0.5, 1.25)})
        r.update({f'matrix_split: {v} threads': lambda v=v: matrix_split(ds, max_concurrent_threads=v, **q) for v in (0, -2)})
        for split in (random_split, leave_k_out, matrix_split): r[f'{split.__name__}: no dataset'] = lambda split=split: split(None, **q)
        refused(rng, mon, r, lambda what: check_same(mon, ds, ref, f'dataset after {what}'))
    finally: close_all(ds)


def part_evaluation(rng, mon, spec):
    from DRecPy.Evaluation.Metrics import MSE, NDCG, Precision, RMSE
    from DRecPy.Evaluation.Processes import predictive_evaluation, ranking_evaluation, recommendation_evaluation
    data, ds, ref = prepared(rng, mon, spec)
    q = dict(verbose=False)
    try:
        m = make_stub()(rng.randint(0, 99))
        m.fit(ds, epochs=0)
        with_ids = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])}, {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        r = {}
        for process in (ranking_evaluation, recommendation_evaluation):
            n = process.__name__
            r.update({f'{n}: {a} of {v}': lambda a=a, v=v, process=process: process(m, **{a: v}, **q)
                      for a, v in [('n_test_users', 0), ('n_test_users', -3), ('k', 0), ('k', -1), ('k', [3, 0]), ('k', [-2, 5]), ('n_pos_interactions', 0), ('n_pos_interactions', -1)]})
            r[f'{n}: metrics in no list'] = lambda process=process: process(m, metrics=(NDCG(), Precision()), **q)
            r[f'{n}: one metric in no list'] = lambda process=process: process(m, metrics=NDCG(), **q)
            r[f'{n}: a metric of another kind'] = lambda process=process: process(m, metrics=[NDCG(), RMSE()], **q)
            r[f'{n}: the class of a metric'] = lambda process=process: process(m, metrics=[NDCG], **q)
        r['ranking_evaluation: n_neg_interactions of 0'] = lambda: ranking_evaluation(m, n_neg_interactions=0, **q)
        r['ranking_evaluation: n_neg_interactions of -1'] = lambda: ranking_evaluation(m, n_neg_interactions=-1, **q)
        r['ranking_evaluation: generated pairs without a number'] = lambda: ranking_evaluation(m, generate_negative_pairs=True, **q)
        r.update({f'predictive_evaluation: n_test_predictions of {v}': lambda v=v: predictive_evaluation(m, n_test_predictions=v, **q) for v in (0, -1)})
        r['predictive_evaluation: metrics in no list'] = lambda: predictive_evaluation(m, metrics=(RMSE(), MSE()), **q)
        r['predictive_evaluation: a metric of another kind'] = lambda: predictive_evaluation(m, metrics=[RMSE(), NDCG()], **q)
        r['predictive_evaluation: the class of a metric'] = lambda: predictive_evaluation(m, metrics=[RMSE], **q)
        seen = len(m.calls)

        def unchanged(what):
            mon.eq(len(m.calls), seen, f'predictions asked for before {what}')
            check_same(mon, ds, with_ids, f'dataset after {what}')
        refused(rng, mon, r, unchanged)
    finally: close_all(ds)


def part_samplers(rng, mon, spec):
    from DRecPy.Sampler import ListSampler, PointSampler
    data, ds, ref = prepared(rng, mon, spec, with_ids=True)
    plain = load(data, spec['kind'])
    rows = [dict(r) for r in data.rows]
    try:
        r = {'PointSampler: no dataset': lambda: PointSampler(None, 1), 'PointSampler: no ratio': lambda: PointSampler(ds, None), 'PointSampler: rows': lambda: PointSampler(rows, 1),
             'PointSampler: no internal ids': lambda: PointSampler(plain, 1),
             'ListSampler: no dataset': lambda: ListSampler(None, ['uid']), 'ListSampler: no internal ids': lambda: ListSampler(plain, ['user']), 'ListSampler: rows': lambda: ListSampler(rows, ['uid']),
             'ListSampler: no ratio': lambda: ListSampler(ds, ['uid'], neg_ratio=None), 'ListSampler: 0 targets': lambda: ListSampler(ds, ['uid'], n_targets=0),
             'ListSampler: -1 targets': lambda: ListSampler(ds, ['uid'], n_targets=-1), 'ListSampler: unknown negative ids': lambda: ListSampler(ds, ['uid'], negative_ids_col='nothing'),
             'ListSampler: unknown sort column': lambda: ListSampler(ds, ['uid'], sort_column='nothing'),
             'ListSampler: more records at least than at most': lambda: ListSampler(ds, ['uid'], min_positive_records=5, max_positive_records=4),
             'ListSampler: unknown group': lambda: ListSampler(ds, ['nothing']).sample_group_records(1),
             'ListSampler: sequences that are too long': lambda: ListSampler(ds, ['uid'], min_positive_records=len(rows) + 1, seed=1).sample_group_records(1),
             'generator: no internal ids': lambda: next(plain.null_interaction_pair_generator()),
             'random records: no internal ids': lambda: next(plain.select_random_generator()),
             'random records: no such records': lambda: next(ds.select_random_generator('uid == 9999')),
             'random records: unknown column': lambda: next(ds.select_random_generator('nothing == 1'))}

        def unchanged(what):
            check_same(mon, ds, ref, f'dataset after {what}')
            check_same(mon, plain, Ref.of(data), f'dataset without ids after {what}')
        refused(rng, mon, r, unchanged)
    finally: close_all([ds, plain])


def stored():
    """Names of the files of the data folder."""
    out = []
    for folder, _, names in os.walk(os.environ.get('DATA_FOLDER', '.')): out += [os.path.join(folder, n) for n in names]
    return sorted(out)


def part_loading(rng, mon, spec):
    import pandas as pd
    from DRecPy.Dataset import InteractionDataset, get_full_dataset, get_test_dataset, get_train_dataset
    data = make_data(rng, extra=[])
    path, missing = data.write_csv(), scratch('.csv')
    before = open(path, 'rb').read()
    mon.log(data.spec())
    frame = pd.DataFrame([[r[c] for c in data.columns] for r in data.rows], columns=data.columns)
    kept = frame.copy(deep=True)
    q = dict(verbose=False)
    try:
        r = {}
        for in_mem in (True, False):
            kw = dict(q, in_memory=in_mem)
            where = 'in memory' if in_mem else 'out of memory'
            r[f'load: no columns, {where}'] = lambda kw=kw: InteractionDataset(path, **kw)
            r[f'load: column uid, {where}'] = lambda kw=kw: InteractionDataset(path, columns=['user', 'item', 'interaction', 'uid'], **kw)
            r[f'load: column iid, {where}'] = lambda kw=kw: InteractionDataset(path, columns=['user', 'item', 'interaction', 'iid'], **kw)
            r[f'load: no such file, {where}'] = lambda kw=kw: InteractionDataset(missing, columns=['user', 'item', 'interaction'], **kw)
            for c in ('user', 'item', 'interaction'):
                cols = [x if x != c else 'other' for x in data.columns]
                r[f'load: no {c}, {where}'] = lambda kw=kw, cols=cols: InteractionDataset(path, columns=cols, **kw)
        r['load: no such database'] = lambda: InteractionDataset(missing.replace('.csv', '.sqlite'), **q)
        for c in ('user', 'item', 'interaction'):
            r[f'read_df: no {c}'] = lambda c=c: InteractionDataset.read_df(frame.rename(columns={c: 'other'}), **q)
        r['read_df: a label that is no column'] = lambda: InteractionDataset.read_df(frame, user_label='nothing', **q)
        for get in (get_full_dataset, get_train_dataset, get_test_dataset): r[f'{get.__name__}: unknown name'] = lambda get=get: get('no-such-dataset', **q)
        files = stored()

        def unchanged(what):
            import gc
            gc.collect()
            mon.eq(open(path, 'rb').read(), before, f'file after {what}')
            mon.check(not os.path.exists(missing) and not os.path.exists(missing.replace('.csv', '.sqlite')), f'{what} made the file')
            mon.check(frame.equals(kept), f'{what} changed the data frame')
            mon.eq([f for f in stored() if f not in files and 'tmp_files' not in f], [], f'files of the data folder after {what}')
        refused(rng, mon, r, unchanged)
    finally: os.remove(path)


def table_of(path):
    import sqlite3
    db = sqlite3.connect(path)
    try: return db.execute('SELECT * FROM interactions ORDER BY rid').fetchall()
    finally: db.close()


def part_saving(rng, mon, spec):
    """Files that can not be written, or that other datasets are using."""
    import gc
    from DRecPy.Dataset import InteractionDataset
    gc.collect()  # databases are in use as long as a dataset of theirs is
    data, ds, ref = prepared(rng, mon, spec)
    used, free = scratch('.sqlite'), scratch('.csv')
    other_data = make_data(rng, dups=False)
    source = load(other_data, 'db_csv')
    source.save(used)
    close_all(source)
    q = dict(in_memory=False, verbose=False)
    used = os.path.abspath(used)
    link = used[:-len('.sqlite')] + '_link.sqlite'
    os.symlink(used, link)
    folder, name = os.path.split(used)
    spelled = lambda: rng.choice([used, used, os.path.join(folder, '.', name), os.path.join(folder, '..', os.path.basename(folder), name), os.path.relpath(used), link])  # all the same file
    other, other_ref = InteractionDataset(spelled(), **q), Ref.of(other_data)
    before = table_of(used)
    keep = [ds, other]
    try:
        none = os.path.join(os.path.dirname(free) or '.', 'no such folder', 'file')
        r = {'saving: csv file of a folder that does not exist': lambda: ds.save(none + '.csv'), 'saving: onto a folder': lambda: ds.save(os.path.dirname(os.path.abspath(free))),
             'saving: unknown column': lambda: ds.save(free, columns=['user', 'nothing'])}
        if spec['kind'].startswith('db'):
            r['saving: database of a folder that does not exist'] = lambda: ds.save(none + '.sqlite')
            r['saving: database that another dataset is using'] = lambda: ds.save(spelled())
            query = f'rid < {rng.randint(0, len(other_data.rows))}'
            keep += [other.copy() if rng.random() < 0.5 else other.select(query) for _ in range(rng.choice([0, 0, 1, 2]))]
            if len(keep) > 2:
                r['saving: own database that copies are using'] = lambda: other.save()
                r['saving: own database by its name that copies are using'] = lambda: other.save(spelled())
                r['saving: database that a copy is using'] = lambda: keep[-1].save(spelled())
        if spec['kind'] in ('mem_df', 'db_csv'): r['saving: without a path'] = lambda: ds.save()

        def unchanged(what):
            mon.check(not os.path.exists(free), f'{what} made the file')
            mon.check(not os.path.exists(os.path.dirname(none)), f'{what} made the folder')
            mon.eq(table_of(used), before, f'rows of the database after {what}')
            check_same(mon, ds, ref, f'dataset after {what}')
            check_same(mon, other, other_ref, f'dataset of the database after {what}')
            mon.eq((os.path.islink(link), os.path.islink(used)), (True, False), f'kinds of the files after {what}')
            copy = other.copy()
            check_same(mon, copy, other_ref, f'new copy of the dataset of the database after {what}')
            close_all(copy)
        refused(rng, mon, r, unchanged)
        close_all(*keep[1:])
        if spec['kind'].startswith('db'):  # nobody uses it any more
            if rng.random() < 0.5:  # but one, which may save over it
                own, own_ref = InteractionDataset(spelled(), **q), other_ref.copy()
                keep.append(own)
                own.apply('interaction', lambda x: 7)
                for r in own_ref.rows: r['interaction'] = 7
                own.save(spelled())
                check_same(mon, own, own_ref, 'dataset saved over its own database')
                copy = own.copy()
                keep.append(copy)
                check_same(mon, copy, own_ref, 'copy of a dataset saved over its own database')
                close_all(copy, own)
                again = InteractionDataset(spelled(), **q)
                keep.append(again)
                check_same(mon, again, own_ref, 'dataset of a database that was saved over')
                close_all(again)
                mon.ev('own_database_saved')
            ds.save(spelled())
            again = InteractionDataset(used, **q)
            check_same(mon, again, ref, 'dataset saved over a database that is not in use any more')
            close_all(again)
    finally:
        close_all(*keep)
        for p in (link, used, free):
            if os.path.lexists(p): os.remove(p)


def part_lookups(rng, mon, spec):
    data, ds, ref = prepared(rng, mon, spec, with_ids=True, user_kind=rng.choice(['int', 'str']), item_kind=rng.choice(['int', 'str']))
    plain = load(data, spec['kind'])
    try:
        users, items = len({r['user'] for r in data.rows}), len({r['item'] for r in data.rows})
        r = {'user vector: unknown id': lambda: ds.select_user_interaction_vec(users + 2), 'item vector: unknown id': lambda: ds.select_item_interaction_vec(items + 2),
             'user vector: negative id': lambda: ds.select_user_interaction_vec(-1), 'item vector: negative id': lambda: ds.select_item_interaction_vec(-1),
             'user vector: no internal ids': lambda: plain.select_user_interaction_vec(0), 'item vector: no internal ids': lambda: plain.select_item_interaction_vec(0)}
        for f in ('user_to_uid', 'item_to_iid', 'uid_to_user', 'iid_to_item'): r[f'{f}: no internal ids'] = lambda f=f: getattr(plain, f)(0)
        if isinstance(data.rows[0]['user'], int): r['user_to_uid: text that is no number'] = lambda: ds.user_to_uid('nobody')
        if isinstance(data.rows[0]['item'], int): r['item_to_iid: text that is no number'] = lambda: ds.item_to_iid('nothing')
        r['max: no column'], r['min: no column'] = (lambda: ds.max()), (lambda: ds.min(None))
        r['max: unknown column'], r['min: unknown column'] = (lambda: ds.max('nothing')), (lambda: ds.min('nothing'))
        r['max: several columns'], r['min: a number'] = (lambda: ds.max(['user', 'item'])), (lambda: ds.min(1))
        r['values: unknown column'] = lambda: list(ds.values(['user', 'nothing']))
        r['values_list: unknown column'] = lambda: ds.values_list('nothing')
        r['unique: unknown column'] = lambda: ds.unique(['nothing'])
        r['count_unique: unknown column'] = lambda: ds.count_unique(['user', 'nothing'])

        def unchanged(what):
            check_same(mon, ds, ref, f'dataset after {what}')
            for r in rng.sample(ref.rows, min(3, len(ref.rows))): mon.eq(ds.user_to_uid(r['user']), r['uid'], f'id of a user after {what}')
        refused(rng, mon, r, unchanged)
    finally: close_all([ds, plain])


def part_queries(rng, mon, spec):
    data, ds, ref = prepared(rng, mon, spec, user_kind=rng.choice(['int', 'str']), item_kind=rng.choice(['int', 'str']))
    try:
        m = make_stub()(rng.randint(0, 99))
        m.fit(ds, epochs=0)
        users, items = sorted({r['user'] for r in data.rows}, key=repr), sorted({r['item'] for r in data.rows}, key=repr)
        nobody = 'nobody known' if isinstance(users[0], str) else max(users) + 7
        nothing = 'nothing known' if isinstance(items[0], str) else max(items) + 7
        u, i = rng.choice(users), rng.choice(items)
        before = [(x, y, m.truth(x, y)) for x in users[:3] for y in items[:4]]
        r = {'predict: unknown user': lambda: m.predict(nobody, i), 'predict: unknown item': lambda: m.predict(u, nothing), 'predict: nothing': lambda: m.predict(None, None),
             'recommend: unknown user': lambda: m.recommend(nobody), 'rank: unknown user': lambda: m.rank(nobody, [i]),
             'rank: unknown item that is not skipped': lambda: m.rank(u, [i, nothing], skip_invalid_items=False), 'rank: more items than there are': lambda: m.rank(u, [i], n=2),
             'rank: more items than known ones': lambda: m.rank(u, [i, nothing], n=2)}

        def unchanged(what):
            for x, y, v in before: mon.eq(m.predict(x, y, skip_errors=True), v, f'prediction after {what}')
        refused(rng, mon, r, unchanged)
        mon.eq(m.predict(nobody, i, skip_errors=True), None, 'prediction for an unknown user when errors are skipped')
        mon.eq(m.predict(u, nothing, skip_errors=True), None, 'prediction for an unknown item when errors are skipped')
    finally: close_all(ds)


def part_unfitted(rng, mon, spec):
    name = rng.choice(['UserKNN', 'ItemKNN', 'CDAE', 'DMF', 'Caser', 'Stub'])
    m = build(name, seed=1)
    refused(rng, mon, {f'{name} that is not fitted: predict': lambda: m.predict(1, 1), f'{name} that is not fitted: rank': lambda: m.rank(1, [1, 2]), f'{name} that is not fitted: recommend': lambda: m.recommend(1),
                       f'{name} that is not fitted: predict, errors skipped': lambda: m.predict(1, 1, skip_errors=True)},
            lambda what: mon.check(not m.fitted, f'fitted after {what}'), some=4)


def part_building(rng, mon, spec):
    import tensorflow as tf
    from DRecPy.Recommender import CDAE, DMF
    from DRecPy.Recommender.Baseline import ItemKNN, UserKNN
    q = dict(verbose=False)
    r = {'CDAE: unknown loss': lambda: CDAE(loss='hinge', **q), 'DMF: no user factors': lambda: DMF(user_factors=[], **q), 'DMF: no item factors': lambda: DMF(item_factors=[], **q),
         'DMF: user factors in no list': lambda: DMF(user_factors=32, **q), 'DMF: item factors in no list': lambda: DMF(item_factors=(64, 32), **q),
         'DMF: factors of different sizes': lambda: DMF(user_factors=[16, 8], item_factors=[16, 4], **q)}
    for cls in (UserKNN, ItemKNN):
        r[f'{cls.__name__}: unknown similarity'] = lambda cls=cls: cls(sim_metric='euclid', **q)
        r[f'{cls.__name__}: unknown aggregation'] = lambda cls=cls: cls(aggregation='median', **q)
    m = build('Stub', seed=1)
    r['registration: nothing'] = lambda: m._register_trainable(None)
    r['registration: a number'] = lambda: m._register_trainable(3.5)
    r['registration: an array'] = lambda: m._register_trainable(tf.constant([1.0]).numpy())
    r['registration: one of several'] = lambda: m._register_trainables([None])
    refused(rng, mon, r, lambda what: mon.eq([len(m.trainable_weights), len(m.trainable_layers), len(m.trainable_models)], [0, 0, 0], f'registered variables after {what}'))


def part_stopping(rng, mon, spec):
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC
    rule = MaxValidationValueRule('M')
    r = {'rule: no metrics': lambda: type('Rule', (EarlyStoppingRuleABC,), {'_compute_best_epoch': lambda *a, **k: 0, 'stop_training': lambda *a, **k: False})([]),
         'rule: metrics of None': lambda: type('Rule', (EarlyStoppingRuleABC,), {'_compute_best_epoch': lambda *a, **k: 0, 'stop_training': lambda *a, **k: False})(None),
         'rule: results that are no dict': lambda: rule.compute([1.0], [0.5], [1]), 'rule: no results': lambda: rule.compute([1.0], {}, [1]),
         'rule: values in no list': lambda: rule.compute([1.0], {'M': 0.5}, [1]), 'rule: other values in no list': lambda: rule.compute([1.0], {'M': [0.5], 'N': 0.5}, [1]),
         'rule: no values': lambda: rule.compute([1.0], {'M': []}, []), 'rule: other metrics': lambda: rule.compute([1.0], {'N': [0.5]}, [1]),
         'rule: a metric at another place': lambda: MaxValidationValueRule('M@5').compute([1.0], {'M@1': [0.5]}, [1])}
    values = [rng.randint(0, 3) for _ in range(rng.randint(1, 6))]
    epochs = list(range(2, 2 + len(values)))
    refused(rng, mon, r, lambda what: mon.eq(rule.compute([1.0] * 8, {'M': list(values)}, list(epochs)), epochs[values.index(max(values))], f'epoch after {what}'))


def part_training(rng, mon, spec):
    """Trainings that can not go on: the model that was fitted before gives the answers it gave, or none."""
    from vlib.trainlib import make_model_class, make_plan
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    data = model_data(rng)
    ds = load(data, spec['kind'])
    mon.log(spec['kind'], data.spec())
    try:
        def fresh(): return make_model_class()(make_plan(rng), verbose=False, seed=1)
        m = fresh()
        rule = MaxValidationValueRule('M')
        kw = dict(epochs=6, batch_size=2, epoch_callback_freq=2, early_stopping_rule=rule, early_stopping_freq=2)
        m.fit(ds, epochs=1, batch_size=2)
        answers = [(x['user'], y['item'], m.predict(x['user'], y['item'])) for x in data.rows[:3] for y in data.rows[:3]]
        ref = Ref.of(data).with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])}, {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        r = {f'training: a callback that returns {v!r}': lambda v=v: fresh().fit(ds, epoch_callback_fn=lambda model: v, **kw) for v in ([1, 2], 0.5, None, 'M')}
        r['training: no dataset'] = lambda: fresh().fit(None, epochs=1)
        r['training: rows instead of a dataset'] = lambda: fresh().fit([dict(x) for x in data.rows], epochs=1)
        r['training: a sampler that fails'] = lambda: failing(fresh()).fit(ds, epochs=3, batch_size=2)

        def failing(model):
            model._sample_batch = lambda *a, **k: 1 / 0
            return model

        def unchanged(what):
            check_same(mon, ds, ref, f'training data after {what}')
            for u, i, v in answers: mon.eq(m.predict(u, i), v, f'prediction of another model after {what}')
        refused(rng, mon, r, unchanged)
        mon.ev('trainings')
    finally: close_all(ds)
