"""C01: both dataset backends behave like a plain list of rows over any history of operations."""
from vlib.data import KINDS, Ref, check_same, close_all, load, make_data, qtext, reset_db_optimisation, rng_of
from vlib.hist import check_maps, run_history

WEIGHTS = dict(select=6, unique=3, drop=4, copy=2, apply=3, ids=2, noids=1, values=4, aggr=4, one=3, map=1, vec=1, gen=1, forget=1, save=0.3)
LARGE = dict(select=6, unique=2, drop=3, copy=1, apply=1, ids=1, noids=0.5, values=2, aggr=2, one=1, map=0.3, vec=0.3, gen=0.5, forget=1, save=0.1)


def cases(tier, seed):
    for n in range(12 if tier == 'quick' else 160):
        yield {'seed': seed, 'n': n, 'kind': ['db_csv', 'db_sqlite', 'db_csv', 'mem_csv'][n % 4], 'what': 'large'}
    for n in range(12 if tier == 'quick' else 80):
        yield {'seed': seed, 'n': n, 'kind': ['db_csv', 'db_sqlite', 'mem_df', 'db_csv'][n % 4], 'what': 'long'}
    for n in range(1800 if tier == 'quick' else 20000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}


def run_case(spec, mon):
    if spec.get('what') == 'large': return run_large(spec, mon)
    if spec.get('what') == 'long': return run_long(spec, mon)
    rng = rng_of('C01', spec['seed'], spec['n'])
    h = run_history(rng, mon, spec['kind'], rng.randint(8, 30), WEIGHTS)
    mon.ev('history_' + spec['kind'])
    mon.ev('mode_' + h.mode)
    mon.sample({'kind': spec['kind'], 'history': mon.trace[:12]})


def run_large(spec, mon):
    """Tables above the number of rows from which out of memory datasets reorganise themselves, with all defaults."""
    rng = rng_of('C01 large', spec['seed'], spec['n'])
    reset_db_optimisation()
    n_users, n_items = rng.randint(60, 300), rng.randint(60, 300)
    rows = min(rng.randint(5200, 11000), n_users * n_items)
    data = make_data(rng, n_users=n_users, n_items=n_items, n_rows=rows)
    run_history(rng, mon, spec['kind'], rng.randint(5, 10), LARGE, data=data, mode='default', max_live=3)
    mon.ev('history_large')
    mon.ev('large_rows', rows)


def run_long(spec, mon):
    """Hundreds of filters one after another, as in a loop that leaves out one user, item or record at a time."""
    rng = rng_of('C01 long', spec['seed'], spec['n'])
    reset_db_optimisation()
    data = make_data(rng, n_users=rng.randint(8, 12), n_items=rng.randint(8, 12), n_rows=rng.randint(50, 80))
    ds, ref = load(data, spec['kind']), Ref.of(data)
    opened = [ds]
    with_ids = rng.random() < 0.5
    try:
        if with_ids:
            ds.assign_internal_ids()
            ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])}, {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        n = rng.randint(1001, 1200) if rng.random() < 0.7 else rng.randint(150, 500)
        copying, drops = rng.choice([0, 0, 0.1, 1]), rng.choice([0, 0.1, 1])
        mon.log(spec['kind'], n, copying, drops, data.spec())
        more = rng.choice([0, 0, 8])
        leave = {rng.randint(0, n): None for _ in range(len(ref.rows) - 3)}  # when a record is left out
        rids = rng.sample([r['rid'] for r in ref.rows], len(ref.rows))
        for k in range(n):
            rid = rids.pop() if k in leave else -1 - k
            copy = rng.random() < copying
            if rng.random() < drops: new, ref = ds.drop([rid], copy=copy), ref.drop([rid])
            else:
                conds = [('rid', '!=', rid)] + [('rid', '!=', -1 - rng.randrange(n)) for _ in range(more)]
                new, ref = ds.select(qtext(conds), copy=copy), ref.filt(conds)
            if copy:
                if len(opened) > 3: close_all(opened.pop(1))
                opened.append(new)
                ds = new
            if k % 97 == 0 and rng.random() < 0.5: check_same(mon, ds, ref, f'dataset after {k + 1} filters')
        check_same(mon, ds, ref, f'dataset after {n} filters')
        if copying == 1 and not with_ids: check_same(mon, opened[0], Ref.of(data), f'first dataset, after {n} filters')
        if with_ids: check_maps(mon, ds, ref, f'dataset after {n} filters')
        mon.ev('long_histories'); mon.ev('filters', n)
        mon.state((spec['kind'], n, copying, drops, ref.tup()))
    finally: close_all(*reversed(opened))
