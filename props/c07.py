"""C07: temporary files disappear with the datasets that use them, or on the next start after a crash; user files never do."""
import gc
import hashlib
import os
import shutil
import signal
import subprocess
import sys
import time
from vlib.data import Ref, check_same, close_all, force_db_optimisation, load, make_data, qtext, rng_of, scratch
from vlib.hist import History
from vlib.mon import Monitor

REPO = os.environ.get('VERIF_REPO', '/repo')
WEIGHTS = dict(select=4, unique=2, drop=3, copy=3, apply=3, ids=2, values=1, gen=2, forget=5, aggr=2, one=1, save=1)


def cases(tier, seed):
    for n in range(12 if tier == 'quick' else 160):
        yield {'seed': seed, 'n': n, 'what': 'crash'}
    for n in range(250 if tier == 'quick' else 4000):
        yield {'seed': seed, 'n': n, 'what': 'release'}


def setup():
    import DRecPy.Dataset  # noqa: the processes that crash are forked from here


def listing(folder):
    out = {}
    for root, _, names in os.walk(folder):
        for name in names:
            p = os.path.join(root, name)
            try:
                with open(p, 'rb') as f: out[os.path.relpath(p, folder)] = hashlib.sha1(f.read()).hexdigest()
            except FileNotFoundError: pass
    return out


def dbs(folder):
    return sorted(p for p in listing(folder) if '.sqlite' in p)


def user_files(rng, folder):
    """Files that belong to the user or to other stored datasets, with hostile names."""
    names = ['mine.sqlite', 'interactions_mine.sqlite', 'notes.txt', 'x.tmp', 'backup.tmp.sqlite', os.path.join('ml-100k', 'u.data')]
    for n in names:
        p = os.path.join(folder, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f: f.write(f'{n} {rng.random()}')
    return listing(folder)


def release_case(spec, mon):
    rng = rng_of('C07r', spec['seed'], spec['n'])
    folder = scratch('_data')
    os.makedirs(folder)
    old = os.environ['DATA_FOLDER']
    os.environ['DATA_FOLDER'] = folder
    h = None
    try:
        mine = user_files(rng, folder)
        hs = []
        for _ in range(rng.randint(1, 3)):
            h = History(rng, mon, rng.choice(['db_csv', 'db_csv', 'db_sqlite']), WEIGHTS)
            hs.append(h)
            h.group = hs
            mon.check(len(dbs(folder)) >= 1, 'no database file in use')
        for _ in range(rng.randint(3, 18)):
            h = rng.choice(hs)
            if h.nodes: h.step()
        for h in hs:
            h.verify_all('the history')
        # a file that cannot be loaded leaves nothing behind either
        if rng.random() < 0.6:
            from DRecPy.Dataset import InteractionDataset
            p = scratch('.csv')
            rows = [f'{n},{n},{n % 5}' for n in range(rng.randint(2, 8))]
            rows[rng.randrange(1, len(rows))] = 'a,b,broken'
            with open(p, 'w') as f: f.write('\n'.join(rows) + '\n')
            try:
                InteractionDataset(p, columns=['user', 'item', 'interaction'], in_memory=False, verbose=False, chunksize=rng.choice([1, 2, 100]))
            except Exception: mon.ev('failed_load')
            os.remove(p)
        order = [n for h in hs for n in h.nodes]
        rng.shuffle(order)
        style = rng.choice(['close', 'del', 'mixed', 'twice'])
        mon.log('release', style, len(order))
        gens = [n.gens for n in order]
        paths = [p for h in hs for p in h.paths if p]
        for h in hs: h.nodes = []
        while order:
            n = order.pop()
            n.gens = []
            if style in ('close', 'twice') or style == 'mixed' and rng.random() < 0.5:
                n.ds.close()
                if style == 'twice': n.ds.close()
            n.ds = None
        n = None
        gens = None
        gc.collect()
        now = listing(folder)
        left = sorted(set(now) - set(mine))
        mon.check(not [p for p in left if '.sqlite' in p], 'temporary database files are left after every dataset was released', left=left, style=style)
        mon.eq({k: v for k, v in now.items() if k in mine}, mine, 'files of the user were changed')
        if os.path.exists(os.path.join(folder, 'tmp_files.txt')):
            mon.eq(open(os.path.join(folder, 'tmp_files.txt')).read().strip(), '', 'released files are still registered as temporary')
        for p in paths:
            mon.check(os.path.isfile(p), 'the file a dataset was loaded from was deleted', path=p)
        mon.ev('all_released')
        mon.ev('style_' + style)
        mon.state(('release', style, mon.trace[0], mon.trace[-1]))
        mon.sample({'what': 'release', 'history': mon.trace[:8]})
    finally:
        os.environ['DATA_FOLDER'] = old
        for h in [h] if h else []:
            close_all(*[n.ds for n in h.nodes])
        shutil.rmtree(folder, ignore_errors=True)


def crashing_child(spec, k, folder, at, total_file):
    """Runs a history and dies, without any cleanup, at the n-th step the library takes."""
    os.environ['DATA_FOLDER'] = folder
    rng = rng_of('C07c', spec['seed'], spec['n'], k)
    count = 0
    def prof(frame, event, arg):
        nonlocal count
        if event in ('call', 'c_call', 'c_return') and REPO in frame.f_code.co_filename:
            count += 1
            if at is not None and count >= at: os.kill(os.getpid(), signal.SIGKILL)
    try:
        h = None
        sys.setprofile(prof)
        h = History(rng, Monitor(), 'db_csv', WEIGHTS)
        for _ in range(8): h.step() if h.nodes else None
        h.nodes = []
        gc.collect()
        with open(total_file, 'w') as f: f.write(str(count))
        os.kill(os.getpid(), signal.SIGKILL)
    finally:
        os._exit(9)


RESTART = '''
import os, sys
sys.path.insert(0, %r)
import DRecPy.Dataset
folder = os.environ['DATA_FOLDER']
print('AFTER', sorted(os.listdir(folder)))
'''


def crash_case(spec, mon):
    rng = rng_of('C07', spec['seed'], spec['n'])
    folder = scratch('_data')
    os.makedirs(folder)
    try:
        mine = user_files(rng, folder)
        seen = 0
        for k in range(8):
            total_file = scratch('.total')
            # first without a crash point, to learn how many steps there are, then at a random one
            for at in (None, 'pick'):
                if at == 'pick':
                    try: total = int(open(total_file).read())
                    except (OSError, ValueError): break
                    os.remove(total_file)
                    at = rng.randint(1, max(1, total))
                target = folder if at is not None else scratch('_probe')
                os.makedirs(target, exist_ok=True)
                pid = os.fork()
                if pid == 0: crashing_child(spec, k, target, at, total_file)
                deadline = time.time() + 60
                while True:
                    done, status = os.waitpid(pid, os.WNOHANG)
                    if done: break
                    if time.time() > deadline:
                        os.kill(pid, 9); os.waitpid(pid, 0); status = None; break
                    time.sleep(0.003)
                if target != folder: shutil.rmtree(target, ignore_errors=True)
                elif status is not None and os.WIFSIGNALED(status):
                    mon.ev('crashes')
                    mon.log(f'child {k} killed at step {at} of {total}')
                    seen += 1
        left_before = [p for p in dbs(folder) if p not in mine]
        mon.ev('temp_files_left_by_crashes', len(left_before))
        mon.eq({a: b for a, b in listing(folder).items() if a in mine}, mine, 'files of the user were changed by the run that crashed')
        env = dict(os.environ, DATA_FOLDER=folder)
        r = subprocess.run([sys.executable, '-B', '-c', RESTART % REPO], env=env, capture_output=True, text=True, timeout=120)
        mon.check(r.returncode == 0, 'the library does not start after a crash', stderr=r.stderr[-800:])
        now = listing(folder)
        left = [p for p in now if '.sqlite' in p and p not in mine]
        mon.check(not left, 'temporary databases of a crashed run are still there after the next start', left=left, before=left_before)
        mon.eq({a: b for a, b in now.items() if a in mine}, mine, 'the cleanup after a crash changed files of the user')
        mon.ev('restarts')
        mon.state(('crash', spec['n'], len(left_before), mon.trace[-1] if mon.trace else ''))
        mon.sample({'what': 'crash', 'crash points': mon.trace, 'left before restart': left_before})
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run_case(spec, mon):
    (crash_case if spec['what'] == 'crash' else release_case)(spec, mon)
