"""C04: internal ids are a bijection between raw and consecutive ids, and it survives derivations."""
from vlib.data import Data, KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, make_ids, pyval, rng_of
from vlib.hist import check_maps, rand_conds
from vlib.data import qtext


def cases(tier, seed):
    for n in range(1200 if tier == 'quick' else 6000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}
    for n, users in enumerate([127, 128, 129, 300, 2000] + ([32767, 32769, 70000] if tier == 'thorough' else [])):
        for kind in ('mem_csv', 'db_csv'):
            yield {'seed': seed, 'n': n, 'kind': kind, 'big': users}


def assign(ds, ref, mon, what):
    ds.assign_internal_ids()
    umap, imap = {}, {}
    recs = ds.values_list()
    mon.eq(len(recs), len(ref.rows), f'{what}: number of rows after assigning internal ids')
    for r in recs:
        for m, k, v in ((umap, r['user'], r['uid']), (imap, r['item'], r['iid'])):
            mon.check(type(v) is int or pyval(v) == int(v), f'{what}: internal id is not an integer', id=v)
            mon.check(m.setdefault(k, v) == v, f'{what}: {k!r} was given two internal ids', ids=[m[k], v])
    for m, raw, name in ((umap, 'user', 'uid'), (imap, 'item', 'iid')):
        mon.check(sorted(m.values()) == list(range(len({r[raw] for r in ref.rows}))), f'{what}: {name}s are not consecutive from 0, one for each {raw}',
                  mapping=m)
    return ref.with_ids(umap, imap)


def unknown(mon, ds, ref, data, what):
    users, items = {r['user'] for r in data.rows}, {r['item'] for r in data.rows}
    u = next(iter(users)); i = next(iter(items))
    nu = (u + ' unknown') if isinstance(u, str) else max(users) + 7
    ni = (i + ' unknown') if isinstance(i, str) else max(items) + 7
    mon.eq(ds.user_to_uid(nu), None, f'{what}: internal id of an unknown user {nu!r}')
    mon.eq(ds.item_to_iid(ni), None, f'{what}: internal id of an unknown item {ni!r}')
    mon.eq(ds.uid_to_user(len(users) + 3), None, f'{what}: user of an unknown internal id')
    mon.eq(ds.iid_to_item(len(items) + 3), None, f'{what}: item of an unknown internal id')
    mon.ev('unknown_lookups', 4)
    import numpy as np
    for r in ref.rows[:3]:  # numbers can also be given as text, and as the numbers of numpy
        for f, v, want in ((ds.user_to_uid, r['user'], r['uid']), (ds.item_to_iid, r['item'], r['iid'])):
            if isinstance(v, int):
                mon.eq(pyval(f(str(v))), want, f'{what}: {f.__name__}({str(v)!r})')
                mon.eq(pyval(f(np.int64(v))), want, f'{what}: {f.__name__} of the numpy integer {v}')
                mon.ev('other_forms')


def run_big(spec, mon):
    rng = rng_of('C04big', spec['seed'], spec['n'])
    n = spec['big']
    users, items = make_ids(rng, rng.choice(['int', 'str']), n), make_ids(rng, 'int', max(2, n - 1))
    rows = [{'user': u, 'item': items[k % len(items)], 'interaction': 1 + k % 5} for k, u in enumerate(users)]
    rng.shuffle(rows)
    data = Data(rows, ['user', 'item', 'interaction'])
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log('load', spec['kind'], 'users', n)
    try:
        ref = assign(ds, ref, mon, f'{n} users')
        for r in rng.sample(ref.rows, min(len(ref.rows), 200)):
            mon.eq(pyval(ds.user_to_uid(r['user'])), r['uid'], f'user_to_uid({r["user"]!r})')
            mon.eq(pyval(ds.uid_to_user(r['uid'])), r['user'], f'uid_to_user({r["uid"]!r})')
            mon.eq(pyval(ds.item_to_iid(r['item'])), r['iid'], f'item_to_iid({r["item"]!r})')
            mon.eq(pyval(ds.iid_to_item(r['iid'])), r['item'], f'iid_to_item({r["iid"]!r})')
            mon.eq(len(ds.select(f'uid == {r["uid"]}')), 1, f'rows of uid {r["uid"]}')
        mon.ev('big')
        mon.state(('big', spec['kind'], n))
    finally:
        close_all(ds)


def run_case(spec, mon):
    if 'big' in spec: return run_big(spec, mon)
    rng = rng_of('C04', spec['seed'], spec['n'])
    mode = force_db_optimisation(rng)
    data = make_data(rng, n_users=rng.randint(1, 14), n_items=rng.randint(1, 14))
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log('load', spec['kind'], mode, data.spec())
    live = [ds]
    try:
        for f in ('user_to_uid', 'item_to_iid', 'uid_to_user', 'iid_to_item'):
            try:
                getattr(ds, f)(0)
            except Exception: mon.ev('rejected_without_ids')
            else: mon.fail(f'{f} answered although no internal ids are assigned')
        ref = assign(ds, ref, mon, 'first assignment')
        check_same(mon, ds, ref, 'after the first assignment')
        check_maps(mon, ds, ref, 'first assignment')
        unknown(mon, ds, ref, data, 'first assignment')
        for step in range(rng.randint(2, 5)):
            op = rng.choice(['select', 'drop', 'copy', 'reassign', 'remove', 'inplace', 'unique'])
            mon.log(op)
            if op in ('select', 'inplace'):
                conds = rand_conds(rng, ref, 1)
                if conds is None or not ref.filt(conds).rows: continue
                old, (ds, ref) = ds, (ds.select(qtext(conds), copy=op == 'select'), ref.filt(conds))
                if op == 'inplace' and old is not ds:  # the dataset itself must have changed too
                    check_maps(mon, old, ref, 'a dataset selected in place')
                    check_same(mon, old, ref, 'a dataset selected in place')
                    live.append(old)
            elif op == 'drop':
                rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) - 1))
                ds, ref = ds.drop(rids), ref.drop(rids)
            elif op == 'unique':
                ds, ref = ds.unique(list(ref.columns)), ref.unique(list(ref.columns))
            elif op == 'copy': ds = ds.copy()
            elif op == 'reassign': ref = assign(ds, ref, mon, 'reassignment')
            elif op == 'remove':
                ds.remove_internal_ids()
                ref = ref.without_ids()
                check_same(mon, ds, ref, 'after removing internal ids')
                mon.ev('removed')
                ref = assign(ds, ref, mon, 'assignment after removal')
            live.append(ds)
            check_maps(mon, ds, ref, f'after {op}')
            mon.eq(sorted(ds.columns), sorted(ref.columns), f'columns after {op}')
            mon.ev('after_' + op)
            mon.state((spec['kind'], op, sorted((r['uid'], r['iid']) for r in ref.rows)))
        mon.sample({'kind': spec['kind'], 'ops': mon.trace[1:]})
    finally:
        close_all(*live)
