"""C14: matrix and random splits move exactly the share of users, items and rows they were asked to."""
import math
from collections import Counter
from vlib.data import KINDS, close_all, rng_of
from vlib.splitlib import by_user, gen_split, random_args, rids, split, too_few


def cases(tier, seed):
    for n in range(1600 if tier == 'quick' else 8000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4], 'split': ['matrix_split', 'random_split'][n // 4 % 2]}
    for n in range(6 if tier == 'quick' else 30):
        yield {'seed': seed, 'n': n, 'kind': 'mem_df', 'what': 'spread', 'split': ['matrix_split', 'random_split'][n % 2]}


def explain(mon, users, items, test_users, test_items, n_u, n_i, minimum):
    """There must be a choice of n_i items and n_u users that leads to the observed test set. A sampled user is only left
    whole if it has few interactions, or if all, or none, of its items were sampled."""
    own = {u: {r['item'] for r in rs} for u, rs in users.items()}
    out = {i for u in test_users for i in own[u]} - test_items  # items that were not sampled
    idle = [u for u in users if u not in test_users and len(users[u]) >= minimum]
    # users that cannot have been sampled, as some of their items were and some were not
    mixed = [u for u in idle if own[u] & test_items and own[u] & out]
    mon.check(len(mixed) <= len(users) - n_u, 'users that were sampled were not split', users=mixed, sampled=n_u)
    if n_u < len(users): return
    # with every user sampled, the items of each idle user were either all sampled or all not sampled
    group = {i: i for i in items}

    def root(i):
        while group[i] != i: i = group[i]
        return i
    for u in idle:
        first, *others = own[u]
        for i in others: group[root(i)] = root(first)
    parts = {}
    for i in items: parts.setdefault(root(i), set()).add(i)
    sizes, base = {0}, 0
    for part in parts.values():
        mon.check(not (part & test_items and part & out), 'users that were sampled were not split', items=part, moved=part & test_items)
        if part & test_items: base += len(part)
        elif not part & out: sizes |= {n + len(part) for n in sizes}
    mon.check(n_i - base in sizes, f'no choice of {n_i} items explains the test set', moved=test_items)
    mon.ev('all_users_sampled')


def run_case(spec, mon):
    rng = rng_of('C14', spec['seed'], spec['n'], spec.get('what'))
    name = spec['split']
    ds, ref = gen_split(rng, spec['kind'], mon)
    out = []
    try:
        if spec.get('what') == 'spread':
            seen = set()
            for s in range(25):
                tr, te = split(name)(ds, verbose=False, seed=s * 31, **({'test_ratio': 0.5} if name == 'random_split' else dict(user_test_ratio=0.6, item_test_ratio=0.6)))
                seen.add(tuple(rids(te)))
                close_all(tr, te)
            possible = len(ref.rows) >= 8 and len(by_user(ref)) >= 4
            if possible:
                mon.check(len(seen) > 1, 'the split never depends on the seed')
                mon.ev('spread_checked')
            mon.state(('spread', name, sorted(seen)))
            return
        args = random_args(rng, name)
        mon.log(name, args)
        if too_few(name, args, ref): return
        train, test = split(name)(ds, verbose=False, **args)
        out = [train, test]
        te, tr = set(rids(test)), set(rids(train))
        if name == 'random_split':
            mon.eq(len(te), math.floor(len(ref.rows) * args['test_ratio']), f'number of test rows out of {len(ref.rows)} with ratio {args["test_ratio"]}')
            mon.eq(len(tr), len(ref.rows) - len(te), 'number of train rows')
            mon.ev('random_checked')
        else:
            users = by_user(ref)
            items = {r['item'] for r in ref.rows}
            n_u, n_i = math.floor(len(users) * args['user_test_ratio']), math.floor(len(items) * args['item_test_ratio'])
            test_users = {r['user'] for r in ref.rows if r['rid'] in te}
            test_items = {r['item'] for r in ref.rows if r['rid'] in te}
            mon.check(len(test_users) <= n_u, f'more users in the test set than {args["user_test_ratio"]} of {len(users)}', users=test_users)
            mon.check(len(test_items) <= n_i, f'more items in the test set than {args["item_test_ratio"]} of {len(items)}', items=test_items)
            for u in test_users:
                # the rows of a test user are split by item: never one row of an item on each side
                for r in users[u]:
                    if r['item'] in test_items: mon.check(r['rid'] in te, f'user {u!r} is a test user and {r["item"]!r} a test item, and its record is not in the test set')
                    else: mon.check(r['rid'] in tr, f'a record of {u!r} was lost', record=r)
            if n_u == len(users) and n_i == len(items):
                mon.check(not te, 'every record of every user is selected, so none can be moved to the test set')
                mon.ev('all_selected')
            explain(mon, users, items, test_users, test_items, n_u, n_i, args['min_user_interactions'])
            if n_i == len(items) : mon.check(not te, 'all the items were sampled: every sampled user would lose all of its records')
            mon.ev('matrix_checked')
            mon.ev('test_rows', len(te))
        mon.state((name, args, spec['kind'], sorted(te)))
        mon.sample({'split': name, 'args': args, 'test': sorted(te)})
    finally:
        close_all(*out, ds)
