"""C09: an operation that fails raises, and leaves the dataset (and its relatives) as they were."""
import os
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, pyval, qtext, rng_of, scratch
from vlib.hist import check_maps, check_vecs, rand_conds


def cases(tier, seed):
    for n in range(1280 if tier == 'quick' else 6000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}


class Boom(Exception):
    pass


def run_case(spec, mon):
    rng = rng_of('C09', spec['seed'], spec['n'])
    mode = force_db_optimisation(rng)
    data = make_data(rng)
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log('load', spec['kind'], mode, data.spec())
    keep = [ds]
    try:
        with_ids = rng.random() < 0.5
        if with_ids:
            ds.assign_internal_ids()
            ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                               {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        parent, pref = None, None
        if rng.random() < 0.5:
            conds = rand_conds(rng, ref, 1)
            if conds and ref.filt(conds).rows:
                parent, pref = ds, ref
                ds, ref = ds.select(qtext(conds)), ref.filt(conds)
                keep.append(ds)
        c = rng.choice([c for c in ref.columns if c not in ('rid', 'uid', 'iid', 'user', 'item')])
        fail_at = rng.randint(0, len(ref.rows))
        seen = []
        def failing(x):
            seen.append(x)
            if len(seen) > fail_at: raise Boom('failed on purpose')
            return x
        uidx = len({r['user'] for r in data.rows}) + 5
        some = ref.columns[0]
        num = next(iter(ref.rows))
        ops = {
            'apply: function fails': lambda: ds.apply(c, failing),
            'apply: unsupported type': lambda: ds.apply(c, lambda x: [x]),
            'apply: unknown column': lambda: ds.apply('nothing', lambda x: x),
            'apply: read-only user': lambda: ds.apply('user', lambda x: x),
            'apply: read-only item': lambda: ds.apply('item', lambda x: x),
            'apply: read-only rid': lambda: ds.apply('rid', lambda x: x),
            'select: unknown column': lambda: ds.select('nothing == 1', copy=rng.random() < 0.5),
            'select: unknown column, second condition': lambda: ds.select('rid >= 0, nothing == 1', copy=rng.random() < 0.5),
            'select: unknown operator': lambda: ds.select('rid ~ 1', copy=rng.random() < 0.5),
            'select: incomplete': lambda: ds.select('rid ==', copy=rng.random() < 0.5),
            'select: empty': lambda: ds.select('', copy=rng.random() < 0.5),
            'select_one: unknown column': lambda: ds.select_one('nothing == 1'),
            'select_one: unknown result column': lambda: ds.select_one('rid >= 0', columns=['nothing']),
            'exists: unknown column': lambda: ds.exists('nothing == 1'),
            'values: unknown column': lambda: list(ds.values(['nothing'])),
            'unique: unknown column': lambda: ds.unique(['user', 'nothing'], copy=rng.random() < 0.5),
            'count_unique: unknown column': lambda: ds.count_unique(['nothing']),
            'max: unknown column': lambda: ds.max('nothing'),
            'min: no column': lambda: ds.min(),
            'save: unknown column': lambda: ds.save(scratch('.csv'), columns=['nothing']),
            'save: unwritable': lambda: ds.save('/proc/nowhere/x.csv'),
        }
        strcol = [k for k in ref.columns if isinstance(num[k], (int, float)) and k not in ('rid', 'uid', 'iid')]
        if strcol: ops['select: text compared with a number'] = lambda: ds.select(f"{rng.choice(strcol)} == 'text'", copy=rng.random() < 0.5)
        if with_ids:
            ops['vec: unknown user'] = lambda: ds.select_user_interaction_vec(uidx)
            ops['vec: unknown item'] = lambda: ds.select_item_interaction_vec(10 ** 6)
            ops['generator: nothing to sample'] = lambda: next(ds.select_random_generator('rid < 0'))
        else:
            ops['vec without ids'] = lambda: ds.select_user_interaction_vec(0)
            ops['item vec without ids'] = lambda: ds.select_item_interaction_vec(0)
            ops['generator without ids'] = lambda: next(ds.select_random_generator())
            ops['null pairs without ids'] = lambda: next(ds.null_interaction_pair_generator())
        # these may also succeed: the given records do not exist, so there is nothing to drop
        lenient = {'drop: invalid record id': lambda: ds.drop(rng.choice([['nothing'], [-1, 'nothing'], ['no thing', 'x']]), copy=False),
                   'drop: invalid record id, copy': lambda: ds.drop(['nothing'], copy=True, keep=rng.random() < 0.5)}
        ops.update(lenient)
        for name in rng.sample(sorted(ops), 8):
            if name == 'apply: function fails' and fail_at >= len(ref.rows): continue
            seen.clear()
            mon.log(name)
            try:
                ops[name]()
            except Exception as e:
                mon.ev('failed: ' + name)
                mon.ev('failures')
            else:
                if name not in lenient: mon.fail(f'{name}: did not fail')
            check_same(mon, ds, ref, f'after the failure "{name}"')
            if parent is not None: check_same(mon, parent, pref, f'dataset it was derived from, after the failure "{name}"')
            if with_ids:
                check_maps(mon, ds, ref, f'after the failure "{name}"')
                check_vecs(mon, ds, ref, f'after the failure "{name}"', rng)
            mon.state((spec['kind'], name, fail_at, ref.tup()))
        # and it still works
        ds.apply(c, lambda x: x)
        check_same(mon, ds, ref, 'apply() after the failures')
        sub = ds.select('rid >= 0')
        check_same(mon, sub, ref, 'select() after the failures')
        keep.append(sub)
        mon.sample({'kind': spec['kind'], 'failures': mon.trace[1:]})
    finally:
        close_all(*reversed(keep))
