"""C03: changing, releasing or closing a dataset never changes any other dataset derived from it or that it was derived from."""
import gc
from vlib.data import KINDS, rng_of
from vlib.hist import run_history

WEIGHTS = dict(select=3, unique=2, drop=3, copy=4, apply=6, ids=4, noids=2, vec=1, map=1, gen=2, forget=3, aggr=2, one=1)


def cases(tier, seed):
    for n in range(1200 if tier == 'quick' else 10000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}


def run_case(spec, mon):
    rng = rng_of('C03', spec['seed'], spec['n'])
    h = run_history(rng, mon, spec['kind'], rng.randint(8, 22), WEIGHTS, max_live=7, check_all=1.0)
    mon.ev('history_' + spec['kind'])
    mon.sample({'kind': spec['kind'], 'history': mon.trace[:12]})
