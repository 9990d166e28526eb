"""C05: interaction vectors always show the current interactions of the dataset they are asked to."""
import contextlib
from vlib.data import KINDS, Ref, close_all, force_db_optimisation, load, make_data, qtext, rng_of
from vlib.hist import check_vecs, rand_conds, NUM_FNS
from vlib.sched import ScarceMemory


def cases(tier, seed):
    for n in range(900 if tier == 'quick' else 8000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4], **({'scarce': 1} if n % 5 == 0 else {})}


def ids(ds, ref):
    ds.assign_internal_ids()
    return ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                        {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})


def run_case(spec, mon):
    rng = rng_of('C05', spec['seed'], spec['n'])
    with ScarceMemory(rng_of('scarce', spec['seed'], spec['n']), mon, [1, 0.5, 0.2][spec['n'] % 3]) if 'scarce' in spec else contextlib.nullcontext():
        run_ops(spec, mon, rng)


def run_ops(spec, mon, rng):
    mode = force_db_optimisation(rng)
    opts = {}
    if spec['kind'] == 'db_csv' and rng.random() < 0.6:
        opts = dict(user_vec_cache_limit=rng.choice([0, 1, 2]), item_vec_cache_limit=rng.choice([0, 1, 2]))
    data = make_data(rng)
    ds, ref = load(data, spec['kind'], **opts), Ref.of(data)
    mon.log('load', spec['kind'], mode, opts, data.spec())
    nodes = []
    try:
        ref = ids(ds, ref)
        nodes.append([ds, ref])
        check_vecs(mon, ds, ref, 'first read', rng, full=True)
        for _ in range(rng.randint(3, 8)):
            node = rng.choice(nodes)
            ds, ref = node
            op = rng.choice(['select', 'select', 'drop', 'drop_inplace', 'copy', 'apply', 'apply', 'reassign', 'select_inplace', 'read'])
            mon.log(op, 'on', nodes.index(node))
            if op in ('select', 'select_inplace'):
                conds = rand_conds(rng, ref, 1)
                if conds is None or not ref.filt(conds).rows: continue
                new = [ds.select(qtext(conds), copy=op == 'select'), ref.filt(conds)]
            elif op in ('drop', 'drop_inplace'):
                rids = rng.sample([r['rid'] for r in ref.rows], rng.randint(0, len(ref.rows) - 1))
                new = [ds.drop(rids, copy=op == 'drop'), ref.drop(rids)]
            elif op == 'copy': new = [ds.copy(), ref.copy()]
            elif op == 'apply':
                name, fn = rng.choice([f for f in NUM_FNS if f[0] != 'v%g'])
                ds.apply('interaction', fn)
                new = [ds, ref.apply('interaction', fn)]
            elif op == 'reassign': new = [ds, ids(ds, ref)]
            else: new = [ds, ref]
            if op in ('select', 'drop', 'copy'): nodes.append(new)
            else:
                if new[0] is not ds:  # the dataset itself must have changed in place, and what was returned must be that data
                    nodes.append([new[0], new[1].copy()])
                    new[0] = ds
                node[:] = new
            if len(nodes) > 4: nodes.pop(rng.randrange(len(nodes)))
            for k, (d, r) in enumerate(nodes):
                check_vecs(mon, d, r, f'dataset {k} after {op}', rng, full=rng.random() < 0.5)
            mon.ev('after_' + op)
            mon.state((spec['kind'], op, sorted((r['uid'], r['iid'], r['interaction']) for r in new[1].rows)))
        for d, r in nodes: check_vecs(mon, d, r, 'at the end', rng, full=True)
        mon.sample({'kind': spec['kind'], 'ops': mon.trace[1:]})
    finally:
        close_all(*[n[0] for n in nodes])
