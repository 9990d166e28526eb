"""C27: what takes a seed gives the same results in every process, whatever the backend, threads and global random state."""
import json
import os
import random
import subprocess
import sys
from vlib.data import KINDS, rng_of, scratch
from vlib.reprolib import ANY_BACKEND, PARTS, produce

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.setswitchinterval(1e-5)


def cases(tier, seed):
    for n in range(12 if tier == 'quick' else 90):
        yield {'seed': seed, 'n': n, 'what': 'process'}
    for n in range(180 if tier == 'quick' else 3600):
        yield {'seed': seed, 'n': n, 'what': 'here'}


def run_case(spec, mon):
    rng = rng_of('C27', spec['seed'], spec['n'], spec['what'])
    if spec['what'] == 'process': return other_process(rng, spec, mon)
    import numpy as np
    import tensorflow as tf
    part = PARTS[spec['n'] % len(PARTS)]
    n, kind = rng.randint(0, 10 ** 9), rng.choice(KINDS)
    first = produce(part, spec['seed'], n, kind)
    def disturb():
        random.seed(rng.randint(0, 999)), np.random.seed(rng.randint(0, 999)), tf.random.set_seed(rng.randint(0, 999))
    state = random.getstate()
    for other in sorted({kind, rng.choice(KINDS if part in ANY_BACKEND else [k for k in KINDS if k[:2] == kind[:2]])}):
        mon.log(part, n, kind, other)
        got = produce(part, spec['seed'], n, other, perturb=disturb, extra_threads=rng.randint(0, 5))
        compare(mon, got, first, f'with the same seed on {other} and {kind}, with another global random state')
        mon.ev('repeated_' + part)
    mon.state((part, str(first)))


def compare(mon, got, want, what):
    mon.eq(sorted(got), sorted(want), 'results')
    for k in want:
        mon.check(same(got[k], want[k]), f'{k}: different results {what}', got=got[k], want=want[k])


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a is not None and b is not None and not isinstance(a, str) and not isinstance(b, str) and abs(a - b) <= 2e-4 * max(1, abs(a))
    if isinstance(a, dict): return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def other_process(rng, spec, mon):
    """The same calls in a process of its own, where strings have other hashes."""
    jobs = [(part, spec['seed'], rng.randint(0, 10 ** 9), rng.choice(KINDS)) for part in PARTS * 2]
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10 ** 6)), PYTHONPATH=os.environ['PYTHONPATH'] + os.pathsep + HERE)
    env['DATA_FOLDER'] = scratch('_data')  # two processes must not share it
    os.makedirs(env['DATA_FOLDER'])
    p = subprocess.Popen([sys.executable, '-B', '-m', 'vlib.reprolib', json.dumps(jobs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        here = [produce(*j) for j in jobs]
        out, err = p.communicate(timeout=90)
    finally:
        if p.poll() is None: p.kill()
    if p.returncode != 0: mon.fail('the other process failed', stderr=err.decode('utf8', 'replace')[-1200:])
    for job, want, got in zip(jobs, here, json.loads(out)):
        mon.log(job)
        compare(mon, got, want, f'in another process (hash seed {env["PYTHONHASHSEED"]})')
        mon.ev('other_process')
        mon.state((job, str(want)))
