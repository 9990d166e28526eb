"""C10: any number of threads reading the same dataset at the same time see exactly its content."""
import sys
import threading
import time
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, pyval, qtext, repr_key, rng_of
from vlib.hist import rand_conds
from vlib.sched import Noise


def cases(tier, seed):
    for n in range(420 if tier == 'quick' else 3000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}
    for n in range(160 if tier == 'quick' else 2400):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4], 'what': 'focus'}


def setup():
    sys.setswitchinterval(1e-6)


def one_read(rng, ds, ref, mon):
    op = rng.choice(['select', 'select', 'select_one', 'values', 'values', 'aggr', 'maps', 'uvec', 'ivec', 'unique', 'len', 'copy', 'exists', 'drop', 'nested'])
    if op in ('select', 'nested', 'select_one', 'exists'):
        conds = rand_conds(rng, ref, 1)
        q = qtext(conds)
        want = ref.filt(conds)
        if op == 'select': check_same(mon, ds.select(q), want, f'select({q!r})')
        elif op == 'nested':
            c2 = rand_conds(rng, ref, 1)
            check_same(mon, ds.select(q).select(qtext(c2)), want.filt(c2), f'select({q!r}).select({qtext(c2)!r})')
        elif op == 'exists': mon.eq(bool(ds.exists(q)), bool(want.rows), f'exists({q!r})')
        else:
            rec = ds.select_one(q)
            mon.check((rec is None) == (not want.rows), f'select_one({q!r})', got=rec)
            if rec is not None: mon.check(tuple(rec[c] for c in sorted(ref.columns)) in want.tup(), f'select_one({q!r})', got=rec)
    elif op == 'values':
        cols = rng.sample(ref.columns, rng.randint(1, len(ref.columns)))
        g = ds.values(cols)
        got = []
        for r in g:
            got.append(tuple(r[c] for c in cols))
            if rng.random() < 0.05: time.sleep(0.0002)
        mon.eq(sorted(got, key=repr_key), ref.tup(cols), f'values({cols})')
    elif op == 'aggr':
        c = rng.choice(ref.columns)
        mon.eq(pyval(ds.max(c)), max(r[c] for r in ref.rows), f'max({c})')
        mon.eq(pyval(ds.min(c)), min(r[c] for r in ref.rows), f'min({c})')
        mon.eq(ds.count_unique(c), len({r[c] for r in ref.rows}), f'count_unique({c})')
    elif op == 'maps':
        r = rng.choice(ref.rows)
        mon.eq(pyval(ds.user_to_uid(r['user'])), r['uid'], 'user_to_uid')
        mon.eq(pyval(ds.iid_to_item(r['iid'])), r['item'], 'iid_to_item')
        mon.eq(pyval(ds.item_to_iid(r['item'])), r['iid'], 'item_to_iid')
        mon.eq(pyval(ds.uid_to_user(r['uid'])), r['user'], 'uid_to_user')
    elif op in ('uvec', 'ivec'):
        a, b = ('uid', 'iid') if op == 'uvec' else ('iid', 'uid')
        k = rng.choice(ref.rows)[a]
        vec = (ds.select_user_interaction_vec if op == 'uvec' else ds.select_item_interaction_vec)(k)
        want = [0.0] * (max(r[b] for r in ref.rows) + 1)
        for r in ref.rows:
            if r[a] == k: want[r[b]] += r['interaction']
        mon.eq([float(x) for x in vec.toarray().ravel()], [float(x) for x in want], f'interaction vector {op} {k}')
    elif op == 'unique':
        cols = [rng.choice(ref.columns)]
        check_same(mon, ds.unique(list(cols)), ref.unique(cols), f'unique({cols})')
    elif op == 'len': mon.eq(len(ds), len(ref.rows), 'len')
    elif op == 'copy': check_same(mon, ds.copy(), ref, 'copy()')
    elif op == 'drop':
        rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows)))
        check_same(mon, ds.drop(list(rids)), ref.drop(rids), 'drop()')
    return op


def plain(v):
    """A result of a read as a value that can be compared."""
    if hasattr(v, 'toarray'): return [float(x) for x in v.toarray().ravel()]
    if hasattr(v, 'values_list'): return [list(v.columns), len(v), v.values_list(to_list=True)]
    return pyval(v)


def make_reads(rng, ds, ref):
    """Reads of a few kinds with fixed arguments, as functions."""
    def q():
        conds = rand_conds(rng, ref, rng.choice([1, 1, 2]))
        return qtext(conds)
    kinds = {
        'select': lambda q: ds.select(q), 'select_one': lambda q: ds.select_one(q, to_list=True), 'exists': lambda q: ds.exists(q),
        'values': lambda q: sorted(map(repr, ds.values(to_list=True))), 'len': lambda q: len(ds), 'copy': lambda q: ds.copy(),
        'max': lambda q: ds.max('interaction'), 'count': lambda q: ds.count_unique('user'), 'unique': lambda q: ds.unique(['user']),
        'uvec': lambda r: ds.select_user_interaction_vec(r['uid']), 'ivec': lambda r: ds.select_item_interaction_vec(r['iid']),
        'maps': lambda r: (ds.user_to_uid(r['user']), ds.uid_to_user(r['uid']), ds.item_to_iid(r['item']), ds.iid_to_item(r['iid'])),
        'drop': lambda r: ds.drop([r['rid']]), 'random': lambda s: [next(g)['rid'] for g in [ds.select_random_generator(seed=s)] for _ in range(3)],
        'null': lambda s: [tuple(map(int, next(g))) for g in [ds.null_interaction_pair_generator(seed=s)] for _ in range(3)],
    }
    full = len({(r['uid'], r['iid']) for r in ref.rows}) >= (max(r['uid'] for r in ref.rows) + 1) * (max(r['iid'] for r in ref.rows) + 1)
    names = rng.sample([k for k in kinds if k != 'null' or not full], rng.choice([1, 2, 2, 3, 4]))
    out = []
    for name in names:
        for _ in range(rng.randint(1, 3)):
            arg = q() if name in ('select', 'select_one', 'exists') else rng.randint(0, 99) if name in ('random', 'null') else rng.choice(ref.rows)
            out.append((name, arg, kinds[name]))
    return out


def run_focus(spec, mon):
    """A few reads repeated by all threads, interleaved between the instructions of the library; their results are the ones
    obtained by a single thread on another dataset with the same content."""
    rng = rng_of('C10 focus', spec['seed'], spec['n'])
    mode = force_db_optimisation(rng)
    data = make_data(rng, n_users=rng.randint(2, 9), n_items=rng.randint(2, 10), n_rows=rng.randint(6, 40))
    opts = dict(user_vec_cache_limit=rng.choice([0, 1, 1000]), item_vec_cache_limit=rng.choice([0, 1, 1000])) if spec['kind'] == 'db_csv' else {}
    ds, ref = load(data, spec['kind'], **opts), Ref.of(data)
    ds.assign_internal_ids()
    ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])}, {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
    full = ds
    if rng.random() < 0.5:
        rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) // 3))
        ds, ref = ds.drop(rids), ref.drop(rids)
    alone = ds.copy()
    box = {'ds': alone}

    class Current:
        def __getattr__(self, name): return getattr(box['ds'], name)
        def __len__(self): return len(box['ds'])
    reads = make_reads(rng, Current(), ref)
    mon.log('load', spec['kind'], mode, data.spec(), [(n, a) for n, a, _ in reads])
    want = [plain(f(arg)) for _, arg, f in reads]
    check_same(mon, alone, ref, 'dataset read by one thread')
    box['ds'] = ds
    n_threads, errors, log = rng.choice([2, 3, 4]), [], []
    gate = threading.Barrier(n_threads)

    def reader(t):
        r = rng_of('C10', spec['seed'], spec['n'], t)
        gate.wait()
        for _ in range(25):
            k = r.randrange(len(reads))
            try: got = plain(reads[k][2](reads[k][1]))
            except Exception as e:
                import traceback
                errors.append((t, k, traceback.format_exc()[-900:]))
                return
            log.append((t, k))
            if got != want[k]: errors.append((t, k, got))
            if errors: return
    with Noise((spec['seed'], spec['n']), p=rng.choice([0.003, 0.01, 0.03]), opcodes=rng.random() < 0.5) as noise:
        threads = [threading.Thread(target=reader, args=(t,), daemon=True) for t in range(n_threads)]
        for t in threads: t.start()
        deadline = time.time() + 60
        for t in threads: t.join(max(0.1, deadline - time.time()))
    mon.check(not any(t.is_alive() for t in threads), 'concurrent readers never finished')
    if errors:
        t, k, got = errors[0]
        mon.fail(f'{reads[k][0]}({reads[k][1]!r}) is wrong when {n_threads} threads read', got=got, want=want[k], interleaving=log[-20:])
    check_same(mon, ds, ref, 'after the concurrent reads')
    mon.ev('focused_reads', len(log))
    mon.ev('noise_points', noise.points)
    mon.ev('noise_places', len(noise.places))
    mon.ev('observed_thread_switches', sum(1 for a, b in zip(log, log[1:]) if a[0] != b[0]))
    mon.state((spec['kind'], tuple(log)))
    close_all(alone, ds, full)


def run_case(spec, mon):
    if spec.get('what') == 'focus': return run_focus(spec, mon)
    rng = rng_of('C10', spec['seed'], spec['n'])
    mode = force_db_optimisation(rng)
    data = make_data(rng, n_users=rng.randint(2, 9), n_items=rng.randint(2, 10), n_rows=rng.randint(6, 40))
    opts = dict(user_vec_cache_limit=rng.choice([0, 1, 1000]), item_vec_cache_limit=rng.choice([0, 1, 1000])) if spec['kind'] == 'db_csv' else {}
    ds, ref = load(data, spec['kind'], **opts), Ref.of(data)
    mon.log('load', spec['kind'], mode, data.spec())
    ds.assign_internal_ids()
    ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                       {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
    if rng.random() < 0.5:
        rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) // 3))
        full, ds, ref = ds, ds.drop(rids), ref.drop(rids)
    n_threads = rng.choice([2, 3, 4, 6, 8])
    errors, log = [], []
    gate = threading.Barrier(n_threads)
    from vlib.mon import Monitor
    mons = [Monitor() for _ in range(n_threads)]

    def reader(t):
        r = rng_of('C10', spec['seed'], spec['n'], t)
        gate.wait()
        for k in range(14):
            try:
                if r.random() < 0.3: time.sleep(r.random() * 0.001)
                log.append((t, one_read(r, ds, ref, mons[t])))
            except Exception as e:
                import traceback
                errors.append((t, e, traceback.format_exc()))
                return
    threads = [threading.Thread(target=reader, args=(t,), daemon=True) for t in range(n_threads)]
    for t in threads: t.start()
    deadline = time.time() + 60
    for t in threads: t.join(max(0.1, deadline - time.time()))
    mon.check(not any(t.is_alive() for t in threads), 'concurrent readers never finished')
    if errors:
        t, e, tb = errors[0]
        mon.log(*log)
        mon.fail(f'a thread reading concurrently with {n_threads - 1} others saw wrong content: {type(e).__name__}: {str(e)[:200]}',
                 detail=getattr(e, 'detail', None), traceback=tb[-900:], interleaving=log[-20:])
    for m in mons: mon.checks += m.checks
    check_same(mon, ds, ref, 'after the concurrent reads')
    switches = sum(1 for a, b in zip(log, log[1:]) if a[0] != b[0])
    mon.ev('concurrent_reads', len(log))
    mon.ev('observed_thread_switches', switches)
    mon.ev('threads_%d' % n_threads)
    mon.state((spec['kind'], tuple(log)))
    mon.sample({'kind': spec['kind'], 'threads': n_threads, 'interleaving': log[:12]})
    close_all(ds)
