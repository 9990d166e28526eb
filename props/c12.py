"""C12: a split never loses, duplicates, changes or leaks a record: train and test are disjoint and made of the rows given."""
from vlib.data import KINDS, Ref, check_same, close_all, rng_of
from vlib.splitlib import by_user, gen_split, random_args, rids, split, too_few

SPLITS = ['leave_k_out', 'matrix_split', 'random_split']


def cases(tier, seed):
    for n in range(1440 if tier == 'quick' else 7000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4], 'split': SPLITS[n // 4 % 3]}


def run_case(spec, mon):
    rng = rng_of('C12', spec['seed'], spec['n'])
    name = spec['split']
    chrono = rng.choice([True, False]) if name == 'leave_k_out' and rng.random() < 0.4 else None
    ds, ref = gen_split(rng, spec['kind'], mon, chrono=chrono)
    out = []
    try:
        args = random_args(rng, name)
        if chrono is not None: args['last_timestamps'] = True
        mon.log(name, args)
        if too_few(name, args, ref):
            try: split(name)(ds, verbose=False, **args)
            except AssertionError: mon.ev('nothing_to_split')
            else: mon.fail('a split without any test row did not fail')
            return
        verbose = rng.random() < 0.03
        train, test = split(name)(ds, verbose=verbose, **args)
        out = [train, test]
        tr, te = rids(train), rids(test)
        all_rids = sorted(r['rid'] for r in ref.rows)
        mon.check(len(set(tr)) == len(tr) and len(set(te)) == len(te), 'a record is repeated in a split')
        mon.check(not set(tr) & set(te), 'a record is both in the train and in the test set', common=sorted(set(tr) & set(te)))
        dropped = set(all_rids) - set(tr) - set(te)
        mn = args.get('min_user_interactions', 0)
        small = {r['rid'] for u, rows in by_user(ref).items() if len(rows) < mn for r in rows}
        mon.eq(sorted(dropped), sorted(small), 'records in neither set are not the ones of users with too few interactions')
        check_same(mon, train, ref.drop(tr, keep=True), 'train set')
        check_same(mon, test, ref.drop(te, keep=True), 'test set')
        check_same(mon, ds, ref, 'the dataset that was split')
        mon.eq(train.has_internal_ids, ds.has_internal_ids, 'internal ids of the train set')
        if name != 'random_split':
            users_train = {r['user'] for r in ref.drop(tr, keep=True).rows}
            mon.check({r['user'] for r in ref.drop(te, keep=True).rows} <= users_train, 'a user is in the test set but not in the train set')
        # both sets are independent from each other and from the dataset
        if len(train) and 'interaction' in train.columns:
            train.apply('interaction', lambda x: x + 1000)
            check_same(mon, test, ref.drop(te, keep=True), 'test set after changing the train set')
            check_same(mon, ds, ref, 'the dataset that was split, after changing the train set')
            mon.ev('independence_checked')
        mon.ev('split_' + name)
        mon.ev('records_accounted', len(all_rids))
        mon.state((name, args, spec['kind'], te, all_rids))
        mon.sample({'split': name, 'args': args, 'rows': len(all_rids), 'test': te})
    finally:
        close_all(*out, ds)
