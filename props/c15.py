"""C15: splits follow their seed alone: not the schedule, the number of threads or the kind of dataset; and never hang or hide a failure."""
import sys
from vlib.data import KINDS, Ref, close_all, force_db_optimisation, load, make_data, rng_of
from vlib.sched import FaultInjected, Perturbed, noisy
from vlib.splitlib import random_args, rids, split, too_few

SPLITS = ['leave_k_out', 'matrix_split', 'random_split']


def setup():
    sys.setswitchinterval(1e-5)


def cases(tier, seed):
    for n in range(330 if tier == 'quick' else 2500):
        yield {'seed': seed, 'n': n, 'split': SPLITS[n % 3]}


def run_case(spec, mon):
    rng = rng_of('C15', spec['seed'], spec['n'])
    name = spec['split']
    data = make_data(rng, n_users=rng.randint(2, 8), n_items=rng.randint(2, 10), n_rows=rng.randint(6, 45), extra=['timestamp'])
    mon.log('data', data.spec())
    ref = Ref.of(data)
    args, nrng = random_args(rng, name), rng_of('noise', spec['seed'], spec['n'])
    if name == 'leave_k_out' and rng.random() < 0.3: args['last_timestamps'] = True
    if too_few(name, args, ref): return
    mon.log(name, args)
    results, schedules = {}, set()
    live = []
    try:
        for kind in (KINDS if rng.random() < 0.5 else [rng.choice(KINDS)]):
            force_db_optimisation(rng)
            ds = load(data, kind)
            live.append(ds)
            for threads in rng.sample([1, 2, 3, 4, 8], 3):
                a = dict(args)
                if name != 'random_split': a['max_concurrent_threads'] = threads
                log = []
                p = Perturbed(ds, rng.random(), log=log) if name != 'random_split' and rng.random() < 0.8 else ds
                with noisy(nrng, mon): tr, te = split(name)(p, verbose=False, **a)
                results[(kind, threads)] = (rids(tr), rids(te))
                order = tuple(str(c[2]) for c in log if c[1] == 'select')
                schedules.add(order)
                close_all(tr, te)
                mon.ev('runs')
        first = next(iter(results.values()))
        for key, res in results.items():
            mon.eq(res, first, f'{name} with the same seed gives another split with {key} (kind, threads)', args=args)
        mon.ev('distinct_schedules', len(schedules))
        # a failure while a user is being processed reaches the caller
        if name != 'random_split':
            ds = live[0]
            user = rng.choice(sorted({repr(r['user']) for r in data.rows}))
            before = rids(ds)
            try:
                split(name)(Perturbed(ds, 1, fail_on=[user]), verbose=rng.random() < 0.1, **args)
            except FaultInjected: mon.ev('failure_reported')
            else: mon.fail(f'{name} hid the failure of user {user} and returned a split')
            # and one while the rows of users are read, wherever that happens
            plan = {'users': rng.sample(sorted({repr(r['user']) for r in data.rows}), rng.randint(1, 2) if len({r['user'] for r in data.rows}) > 1 else 1), 'after': rng.randint(0, 2), 'hits': 0}
            try:
                tr, te = split(name)(Perturbed(ds, 1, fail_reads=plan), verbose=False, **args)
            except FaultInjected: mon.ev('failed_read_reported')
            else:
                mon.check(plan['hits'] == 0, f'{name} hid the failure to read the rows of {plan["users"]} and returned a split')
                mon.eq((rids(tr), rids(te)), first, 'split without failures')
                close_all(tr, te)
            mon.eq(rids(ds), before, 'rows of the dataset after a failed split')
            tr, te = split(name)(ds, verbose=False, **args)
            mon.eq((rids(tr), rids(te)), first, 'split after a failed one')
            close_all(tr, te)
        mon.state((name, sorted(schedules)))
        mon.sample({'split': name, 'args': args, 'a schedule': list(schedules)[0][:8] if schedules else None})
    finally:
        close_all(*live)
