"""C13: leave k out takes exactly the promised number of records of each user, at random or the most recent ones."""
from heapq import heappush, heapreplace
from vlib.data import KINDS, close_all, rng_of
from vlib.splitlib import by_user, gen_split, random_args, rids, split


def cases(tier, seed):
    for n in range(1600 if tier == 'quick' else 8000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4], 'order': [None, True, False][n // 4 % 3]}
    for n in range(6 if tier == 'quick' else 40):
        yield {'seed': seed, 'n': n, 'kind': ['mem_df', 'db_csv'][n % 2], 'what': 'spread'}


def recorded_defect(rows, k):
    """The timestamps kept by the known defect on users whose rows are not in chronological order."""
    heap = []
    for r in sorted(rows, key=lambda r: r['rid']):
        (heappush if len(heap) < k else heapreplace)(heap, (r['timestamp'], r['rid']))
    return sorted(t for t, _ in heap)


def spread(spec, mon):
    """Over many seeds, every record of a user is sampled at some point: the choice is random, not fixed."""
    rng = rng_of('C13s', spec['seed'], spec['n'])
    ds, ref = gen_split(rng, spec['kind'], mon, n_users=3)
    try:
        users = {u: rows for u, rows in by_user(ref).items() if 2 <= len(rows) <= 6}
        seen = {u: set() for u in users}
        for s in range(60):
            _, test = split('leave_k_out')(ds, k=1, seed=1000 + 37 * s, verbose=False, max_concurrent_threads=2)
            for r in test.values_list(['user', 'rid']):
                if r['user'] in seen: seen[r['user']].add(r['rid'])
            close_all(test)
        for u, rows in users.items():
            mon.check(len(seen[u]) >= 2, f'the record of user {u!r} that is left out never depends on the seed', seen=seen[u], rows=len(rows))
            mon.ev('spread_checked')
        mon.state(('spread', spec['n'], sorted(map(len, seen.values()))))
    finally:
        close_all(ds)


def run_case(spec, mon):
    if spec.get('what') == 'spread': return spread(spec, mon)
    rng = rng_of('C13', spec['seed'], spec['n'])
    order = spec['order']
    ds, ref = gen_split(rng, spec['kind'], mon, chrono=order)
    out = []
    try:
        args = random_args(rng, 'leave_k_out')
        label = 'timestamp'
        if order is not None: args['last_timestamps'] = True
        mon.log('leave_k_out', args)
        train, test = split('leave_k_out')(ds, verbose=False, **args)
        out = [train, test]
        te, tr = set(rids(test)), set(rids(train))
        k, mn = args['k'], args['min_user_interactions']
        for u, rows in by_user(ref).items():
            mine = [r for r in rows if r['rid'] in te]
            kept = [r for r in rows if r['rid'] in tr]
            n = len(rows)
            want_k = int(n * k) if isinstance(k, float) else k
            if n < mn:
                mon.check(not mine and not kept, f'user {u!r} has fewer than {mn} interactions and was not removed', n=n)
                mon.ev('user_removed')
                continue
            expected = want_k if n > want_k else 0
            mon.eq(len(mine), expected, f'number of test records of user {u!r} with {n} interactions and k={k}')
            mon.eq(len(kept), n - expected, f'number of train records of user {u!r} with {n} interactions and k={k}')
            mon.ev('users_checked')
            if expected and order is not None:
                got = sorted(r['timestamp'] for r in mine)
                want = sorted(r['timestamp'] for r in rows)[-expected:]
                in_order = [r['timestamp'] for r in sorted(rows, key=lambda r: r['rid'])]
                if got != want and in_order != sorted(in_order) and got == recorded_defect(rows, expected):
                    mon.known_finding('leave_k_out_unsorted', f'user {u!r} with timestamps {in_order} and k={expected}: took {got} instead of {want}')
                    mon.ev('known_finding_unsorted_rows')
                else:
                    mon.eq(got, want, f'timestamps of the records left out of user {u!r}', all=in_order)
                    mon.ev('latest_checked')
        mon.state((args, spec['kind'], order, sorted(te)))
        mon.sample({'args': args, 'rows per user': [len(r) for r in by_user(ref).values()], 'test': sorted(te)})
    finally:
        close_all(*out, ds)
