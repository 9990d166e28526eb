"""C06: what is saved is what was there, it loads back the same, and stored files only change when saved to."""
import csv
import os
import sqlite3
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, qtext, repr_key, rng_of, scratch
from vlib.hist import NUM_FNS, STR_FNS, rand_conds

INTERNAL = ('rid', 'uid', 'iid')


def cases(tier, seed):
    for n in range(1280 if tier == 'quick' else 6000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}
    for n in range(200 if tier == 'quick' else 1000):
        yield {'seed': seed, 'n': n, 'what': 'own'}


def saved_cols(ref):
    return [c for c in ref.columns if c not in INTERNAL]


def rows_of(ref, cols):
    return sorted((tuple(r[c] for c in cols) for r in ref.rows), key=repr_key)


def read_sqlite(path):
    """Reads the stored rows without the code under test."""
    conn = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
    try:
        cols = [v[1] for v in conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in INTERNAL]
        rows = conn.execute(f'SELECT {",".join(cols)} FROM interactions').fetchall()
        n = conn.execute('SELECT COUNT(*), COUNT(DISTINCT rid) FROM interactions').fetchone()
    finally:
        conn.close()
    return cols, rows, n


def same_sqlite(mon, path, cols, want, what):
    mon.check(os.path.isfile(path), f'{what}: the file is missing')
    got_cols, rows, n = read_sqlite(path)
    mon.eq(sorted(got_cols), sorted(cols), f'{what}: columns of the file')
    mon.eq(n[0], n[1], f'{what}: repeated record ids')
    idx = [got_cols.index(c) for c in cols]
    mon.eq(sorted((tuple(r[i] for i in idx) for r in rows), key=repr_key), want, f'{what}: rows of the file')
    mon.ev('sqlite_read')


def parse_like(v, kind):
    if kind is not int: return kind(v)
    try: return int(v)
    except ValueError: return float(v)


def same_csv(mon, path, cols, ref, header, what):
    with open(path, encoding='utf8', newline='') as f:
        recs = list(csv.reader(f))
    if header:
        mon.eq(recs[0], cols, f'{what}: header')
        recs = recs[1:]
    got = []
    types = {c: type(ref.rows[0][c]) for c in cols} if ref.rows else {}
    for r in recs:
        mon.eq(len(r), len(cols), f'{what}: number of fields', record=r)
        got.append(tuple(parse_like(v, types[c]) if types[c] is not str else v for v, c in zip(r, cols)))
    mon.eq(sorted(got, key=repr_key), rows_of(ref, cols), f'{what}: rows of the file')
    mon.ev('csv_read')


def loadable_back(ref, cols):
    """Text that looks like a number on the first row is read back as a number: such columns are not compared."""
    for c in cols:
        for r in ref.rows:
            if isinstance(r[c], str):
                try:
                    float(r[c])
                    return False
                except ValueError: pass
    return True


def run_own(spec, mon):
    """Saving without naming a file: onto the file that the data came from, also from the datasets derived from it."""
    from DRecPy.Dataset import InteractionDataset
    rng = rng_of('C06own', spec['seed'], spec['n'])
    data = make_data(rng)
    path = data.write_csv()
    source = open(path, 'rb').read()
    made = [path]
    live = []
    try:
        for kind in ('mem_csv', rng.choice(['mem_df', 'db_csv'])):
            if kind == 'mem_csv': ds = InteractionDataset(path, columns=list(data.columns), verbose=False)
            else: ds = load(data, kind)
            ref = Ref.of(data)
            live.append(ds)
            here = sorted(os.listdir('.'))
            for _ in range(rng.randint(0, 3)):
                op = rng.choice(['copy', 'select', 'drop', 'unique', 'ids'])
                if op == 'copy': ds = ds.copy()
                elif op == 'select':
                    conds = rand_conds(rng, ref, 1)
                    if conds is None or not ref.filt(conds).rows: continue
                    ds, ref = ds.select(qtext(conds)), ref.filt(conds)
                elif op == 'drop':
                    rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) - 1))
                    ds, ref = ds.drop(rids), ref.drop(rids)
                elif op == 'unique': ds, ref = ds.unique(list(ref.columns)), ref.unique(list(ref.columns))
                else:
                    ds.assign_internal_ids()
                    ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                                       {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
                live.append(ds)
            if kind == 'mem_csv':
                mon.eq(open(path, 'rb').read(), source, 'the file changed although nothing was saved')
                header = rng.random() < 0.5
                ds.save(write_header=header)
                same_csv(mon, path, [c for c in ds.columns if c not in INTERNAL], ref, header, 'save without a path')
                mon.ev('saved_onto_own_csv')
            else:
                before = open(path, 'rb').read()
                try: ds.save()
                except Exception: mon.ev('save_without_path_rejected')
                else: mon.fail('save() without a path did not fail for a dataset that has no file', kind=kind)
                mon.eq(open(path, 'rb').read(), before, 'another dataset was saved onto the file')
            mon.eq(sorted(os.listdir('.')), here, 'files of the working directory')
            check_same(mon, ds, ref, 'dataset after saving without a path')
        mon.state(('own', ref.tup()))
    finally:
        close_all(*live)
        for p in made:
            if os.path.exists(p): os.remove(p)


def spelled(rng, path):
    """The same path, sometimes relative to the home folder or the current one."""
    return rng.choice([path] * 4 + [os.path.join('~', os.path.relpath(path, os.path.expanduser('~'))), os.path.relpath(path)])


def run_case(spec, mon):
    if spec.get('what') == 'own': return run_own(spec, mon)
    from DRecPy.Dataset import InteractionDataset
    rng = rng_of('C06', spec['seed'], spec['n'])
    mode = force_db_optimisation(rng)
    data = make_data(rng)
    opts = {'chunksize': rng.choice([1, 2, 3, 7])} if spec['kind'].startswith('db') and rng.random() < 0.4 else {}
    ds, ref = load(data, spec['kind'], **(opts if spec['kind'] == 'db_csv' else {})), Ref.of(data)
    base_path = getattr(ds, '_verif_path', None)
    base_ref = ref
    mon.log('load', spec['kind'], mode, data.spec())
    live, files, own = [ds], [], False
    try:
        for _ in range(rng.randint(2, 6)):
            op = rng.choice(['select', 'drop', 'ids', 'apply', 'save_csv', 'save_csv', 'save_cols', 'save_sqlite', 'save_sqlite', 'overwrite'])
            mon.log(op)
            if op == 'select':
                conds = rand_conds(rng, ref, 1)
                if conds is None or not ref.filt(conds).rows: continue
                ds, ref = ds.select(qtext(conds), copy=rng.random() < 0.7), ref.filt(conds)
                live.append(ds)
            elif op == 'drop':
                rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) - 1))
                ds, ref = ds.drop(rids, copy=rng.random() < 0.7), ref.drop(rids)
                live.append(ds)
            elif op == 'ids':
                ds.assign_internal_ids()
                ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                                   {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
            elif op == 'apply':
                c = rng.choice([c for c in ref.columns if c not in INTERNAL + ('user', 'item')])
                name, fn = rng.choice(STR_FNS if isinstance(ref.rows[0][c], str) else [f for f in NUM_FNS if f[0] != 'v%g'])
                ds.apply(c, fn)
                ref = ref.apply(c, fn)
            elif op in ('save_csv', 'save_cols', 'overwrite'):
                p = scratch('.csv')
                files.append(p)
                if op == 'overwrite':
                    with open(p, 'w') as f: f.write('something longer than the saved data, ' * 300)
                cols = saved_cols(ref)
                header = rng.random() < 0.5
                if op == 'save_cols':
                    want_cols = rng.sample(cols, rng.randint(1, len(cols)))
                    arg = want_cols + rng.sample(['rid'], rng.randint(0, 1))
                    before = list(arg)
                    ds.save(spelled(rng, p), columns=arg, write_header=header)
                    mon.eq(arg, before, 'save() modified the list of columns of the caller')
                    same_csv(mon, p, want_cols, ref, header, 'save of some columns')
                    continue
                ds.save(spelled(rng, p), write_header=header)
                order = [c for c in ds.columns if c not in INTERNAL]
                same_csv(mon, p, order, ref, header, op)
                if loadable_back(ref, order):
                    for in_mem in (True, False):
                        back = InteractionDataset(spelled(rng, p), columns=order, has_header=header, in_memory=in_mem, verbose=False)
                        want = Ref([{c: r[c] for c in order} for r in ref.rows], order)
                        mon.eq(sorted((tuple(r[c] for c in order) for r in back.values_list(order)), key=repr_key),
                               rows_of(want, order), f'csv loaded back (in memory: {in_mem})')
                        mon.eq(sorted(r['rid'] for r in back.values_list()), list(range(len(ref.rows))), 'record ids of the loaded dataset')
                        close_all(back)
                        mon.ev('round_trip')
            elif op == 'save_sqlite':
                if spec['kind'].startswith('mem'): continue
                own = base_path is not None and rng.random() < 0.2 and len(live) == 1
                p = base_path if own else scratch('.sqlite')
                if not own: files.append(p)
                ds.save(spelled(rng, p)) if not own or rng.random() < 0.5 else ds.save()
                cols = saved_cols(ref)
                same_sqlite(mon, p, cols, rows_of(ref, cols), op)
                if own:
                    got = sorted((tuple(r[c] for c in cols) for r in ds.values_list(cols)), key=repr_key)
                    mon.eq(got, rows_of(ref, cols), 'dataset after saving onto its own file')
                    mon.ev('saved_onto_itself')
                    base_ref = ref
                    break
                back = InteractionDataset(spelled(rng, p), verbose=False)
                mon.eq(sorted(back.columns), sorted(cols + ['rid']), 'columns of the loaded sqlite file')
                mon.eq(sorted((tuple(r[c] for c in cols) for r in back.values_list(cols)), key=repr_key), rows_of(ref, cols), 'sqlite loaded back')
                mon.ev('round_trip')
                # nothing done with the loaded dataset reaches the file
                victim = back
                for _ in range(rng.randint(1, 4)):
                    what = rng.choice(['select', 'drop', 'apply', 'ids', 'read', 'unique'])
                    bref = [r['rid'] for r in victim.values_list(['rid'])]
                    if not bref: break
                    if what == 'select': victim = victim.select(f'rid >= {rng.choice(bref)}', copy=rng.random() < 0.5)
                    elif what == 'drop': victim = victim.drop(rng.sample(bref, rng.randint(0, len(bref))), copy=rng.random() < 0.5)
                    elif what == 'apply' and 'interaction' in victim.columns: victim.apply('interaction', lambda x: x + 1)
                    elif what == 'ids' and {'user', 'item'} <= set(victim.columns): victim.assign_internal_ids()
                    elif what == 'unique': victim = victim.unique(['user']) if 'user' in victim.columns else victim
                    else:
                        for _ in range(5): victim.max('rid') if len(victim) else None
                    same_sqlite(mon, p, cols, rows_of(ref, cols), f'stored file after {what} on a dataset loaded from it')
                close_all(back, victim)
                del back, victim
                same_sqlite(mon, p, cols, rows_of(ref, cols), 'stored file after closing the datasets loaded from it')
                mon.ev('stored_file_unchanged')
            mon.ev('op_' + op)
            mon.state((spec['kind'], op, ref.tup()))
        if base_ref is not ref or not own: check_same(mon, ds, ref, 'dataset after being saved')
        if base_path:
            close_all(*[d for d in live if not hasattr(d, '_verif_path')])
            live[0].close()
            cols = saved_cols(base_ref)
            same_sqlite(mon, base_path, cols, rows_of(base_ref, cols), 'file the dataset was loaded from, at the end')
            mon.ev('source_file_unchanged')
        mon.sample({'kind': spec['kind'], 'ops': mon.trace[1:]})
    finally:
        close_all(*live)
        for p in files:
            if os.path.exists(p): os.remove(p)
