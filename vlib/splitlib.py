"""Shared parts of the checks of the dataset splits."""
from collections import Counter, defaultdict
from .data import Ref, check_same, force_db_optimisation, load, make_data, rng_of, KINDS


def gen_split(rng, kind, mon, n_users=None, chrono=None, ids=None):
    mode = force_db_optimisation(rng)
    extra = ['timestamp'] if chrono is not None else None
    data = make_data(rng, n_users=n_users or rng.randint(1, 8), n_items=rng.randint(2, 12), n_rows=rng.randint(2, 60), extra=extra)
    if chrono:
        data.rows.sort(key=lambda r: r['timestamp'])
    ds, ref = load(data, kind), Ref.of(data)
    if ids or ids is None and rng.random() < 0.3:
        ds.assign_internal_ids()
        ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                           {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
    if rng.random() < 0.3 and len(ref.rows) > 3:
        rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) // 2))
        ds, ref = ds.drop(rids), ref.drop(rids)
    mon.log('dataset', kind, mode, data.spec())
    return ds, ref


def by_user(ref):
    out = defaultdict(list)
    for r in ref.rows: out[r['user']].append(r)
    return out


def rids(ds):
    return sorted(r['rid'] for r in ds.values_list(['rid']))


def random_args(rng, name):
    """Random valid arguments of each split."""
    threads = rng.choice([1, 1, 2, 3, 4, 8])
    if name == 'leave_k_out':
        k = rng.choice([1, 1, 2, 3, 5, 0.2, 0.34, 0.5, 0.75, 0.99])
        return dict(k=k, min_user_interactions=rng.choice([0, 0, 0, 2, 3, 5]), seed=rng.randint(0, 1000), max_concurrent_threads=threads)
    if name == 'matrix_split':
        return dict(user_test_ratio=rng.choice([0.2, 0.35, 0.5, 0.8, 1, 1.0]), item_test_ratio=rng.choice([0.2, 0.35, 0.5, 0.8, 1.0]),
                    min_user_interactions=rng.choice([0, 0, 0, 2, 3]), seed=rng.randint(0, 1000), max_concurrent_threads=threads)
    return dict(test_ratio=rng.choice([0.1, 0.25, 0.4, 0.5, 0.75, 0.9]), seed=rng.randint(0, 1000))


def too_few(name, args, ref):
    return name == 'random_split' and int(len(ref.rows) * args['test_ratio']) == 0


def split(name):
    import DRecPy.Evaluation.Splits as S
    return getattr(S, name)
