"""Runs the check of one property: shards its cases over worker processes, collects what the monitors observed,
writes the evidence file and decides: exit 0 held, exit 1 violated (VIOLATION line), exit 2 inconclusive."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable
sys.path.insert(0, HERE)
from vlib.registry import PROPS  # noqa: E402

BASE_ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'CUDA_VISIBLE_DEVICES': '',
    'TF_CPP_MIN_LOG_LEVEL': '3', 'TF_ENABLE_ONEDNN_OPTS': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'TF_NUM_INTRAOP_THREADS': '1', 'TF_NUM_INTEROP_THREADS': '1',
}


class Worker:
    def __init__(self, root, name, cfg):
        self.dir = os.path.join(root, name)
        os.makedirs(os.path.join(self.dir, 'data'))
        os.makedirs(os.path.join(self.dir, 'home'))
        os.makedirs(os.path.join(self.dir, 'work'))
        self.cfg = dict(cfg, out=self.dir)
        env = dict(os.environ, **BASE_ENV)
        env.update(DATA_FOLDER=os.path.join(self.dir, 'data'), HOME=os.path.join(self.dir, 'home'),
                   TMPDIR=os.path.join(self.dir, 'work'), PYTHONPATH=REPO, VERIF_WORK=os.path.join(self.dir, 'work'),
                   VERIF_REPO=REPO)
        if os.path.isdir('/opt/venv/mplconfig'):
            env['MPLCONFIGDIR'] = os.path.join(self.dir, 'home', 'mpl')
        self.err = open(os.path.join(self.dir, 'stderr'), 'wb')
        self.p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'vlib', 'worker.py'), json.dumps(self.cfg)],
                                  cwd=os.path.join(self.dir, 'work'), env=env, stdout=subprocess.DEVNULL,
                                  stderr=self.err, stdin=subprocess.DEVNULL, start_new_session=True)
        self.started = time.time()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()

    def heartbeat(self):
        try:
            with open(os.path.join(self.dir, 'heartbeat')) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def result(self):
        try:
            with open(os.path.join(self.dir, 'result.json')) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def stderr_tail(self):
        try:
            with open(os.path.join(self.dir, 'stderr'), 'rb') as f:
                return f.read()[-1500:].decode('utf8', 'replace')
        except OSError:
            return ''


def wait_all(workers, hang_s, deadline):
    """Waits for the workers. Returns a list of (worker, heartbeat, reason) of the ones that hung or died."""
    bad, live = [], list(workers)
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w.p.poll()
            if rc is not None:
                live.remove(w)
                res = w.result()
                if rc != 0 or res is None or not res.get('finished'):
                    bad.append((w, w.heartbeat(), f'died with status {rc}'))
                continue
            hb = w.heartbeat()
            since = hb['t'] if hb else w.started
            if time.time() - since > (hang_s if hb else max(hang_s, 180)):
                w.kill()
                live.remove(w)
                bad.append((w, hb, 'hung'))
            elif time.time() > deadline:
                w.kill()
                live.remove(w)
                bad.append((w, None, 'deadline'))
    return bad


def load_known():
    known = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('known: '):
                parts = dict(p.split('=', 1) for p in line[7:].split(' ')[:2])
                known[(parts['property'], parts['key'])] = line[7:].split(' ', 2)[2]
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=None)
    args = ap.parse_args()
    t0 = time.time()
    pid = args.property
    meta = PROPS[pid]
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    hang_s = meta.get('hang_s', 100)
    nworkers = args.workers or meta.get('workers', 6)
    budget = 150 if tier == 'quick' else meta.get('thorough_budget', 600)
    cfg = {'verif': HERE, 'repo': REPO, 'module': meta['module'], 'tier': tier, 'seed': args.seed,
           'nshards': nworkers, 'budget': budget}
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        cfg['specs'] = [rep['spec']] * 3
        cfg['tier'] = rep.get('tier', tier)
        nworkers = 1

    root = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    ev_dir = os.path.join(HERE, 'evidence')
    rp_dir = os.path.join(ev_dir, 'replays')
    os.makedirs(rp_dir, exist_ok=True)
    violations, errors = [], []
    try:
        deadline = t0 + budget + 2 * hang_s + 120
        workers = [Worker(root, f'w{i}', dict(cfg, shard=i)) for i in range(nworkers)]
        try:
            bad = wait_all(workers, hang_s, deadline)
            # a case that hung or killed its process is run again, alone, before it is believed
            retry = []
            for n, (w, hb, reason) in enumerate(bad):
                if hb is None:
                    errors.append(f'worker {reason} before any case: {w.stderr_tail()[-700:]}')
                elif n < 2:
                    r = Worker(root, f'r{n}', dict(cfg, specs=[hb['spec']], shard=0))
                    retry.append((r, hb, reason))
                    workers.append(r)
            bad2 = wait_all([r for r, _, _ in retry], hang_s, time.time() + hang_s + 180)
            confirmed = {id(w): reason for w, h, reason in bad2 if h is not None and reason != 'deadline'}
            for r, hb, reason in retry:
                if id(r) in confirmed:
                    violations.append({'spec': hb['spec'], 'msg': f'the operation never completed: the process {confirmed[id(r)]} '
                                                                  f'(usual duration below one second, limit {hang_s} s), twice',
                                       'detail': {'stderr': r.stderr_tail()[-600:]}, 'trace': []})
                else:
                    errors.append(f'a worker {reason} on a case that completes when run again')
        finally:
            for w in workers:
                if w.p.poll() is None:
                    w.kill()
        tot = {'done': 0, 'nontrivial': 0, 'checks': 0, 'total': 0}
        events, states, samples, known_seen, complete = {}, set(), [], {}, True
        for w in workers:
            res = w.result()
            if res is None:
                continue
            for k in tot:
                tot[k] += res.get(k, 0)
            for k, v in res['events'].items():
                events[k] = events.get(k, 0) + v
            states.update(res['states'])
            samples += res['samples']
            known_seen.update(res['known'])
            violations += res['violations']
            errors += res['errors']
            complete = complete and res['complete']
    finally:
        shutil.rmtree(root, ignore_errors=True)

    known = load_known()
    for key, detail in sorted(known_seen.items()):
        if (pid, key) in known:
            print(f'KNOWN-FINDING: property={pid} {known[(pid, key)]} [{detail}]')
        else:
            violations.append({'spec': None, 'msg': f'{key}: {detail}', 'detail': None, 'trace': []})

    inconclusive = []
    if not violations and not args.replay:
        for kind, minimum in meta.get('required', {}).items():
            if events.get(kind, 0) < minimum:
                inconclusive.append(f'monitor event "{kind}" was observed {events.get(kind, 0)} times (at least {minimum} needed)')
        if tot['done'] < 0.5 * tot['total'] and tier == 'quick' or tot['done'] == 0:
            inconclusive.append(f'only {tot["done"]} of {tot["total"]} cases were run')
        if errors and tot['done'] < 0.9 * tot['total'] and tier == 'quick':
            inconclusive += errors[:5]

    evidence = {
        'property': pid, 'tier': tier, 'seed': args.seed, 'level': meta['level'],
        'coverage': {
            'evaluations': tot['done'] + len(violations), 'distinct_nontrivial': min(tot['nontrivial'], tot['done']) if not args.replay else 0,
            'rule': meta['rule'], 'samples': samples[:4], 'distinct_states_observed': len(states),
            'oracle_checks': tot['checks'], 'events': dict(sorted(events.items())),
            'cases_planned': tot['total'], 'all_planned_cases_run': complete, 'known_findings_seen': known_seen,
            'harness_errors': errors[:10],
        },
        'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    ev_path = os.path.join(ev_dir, f'{pid}.json')
    with open(ev_path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(ev_path + '.tmp', ev_path)

    print(f'{pid} tier={tier} seed={args.seed}: {tot["done"]}/{tot["total"]} cases, {tot["checks"]} oracle checks, '
          f'{len(states)} distinct states, events {evidence["coverage"]["events"]}, {evidence["wall_s"]} s')
    for e in errors[:5]:
        print('note:', e)
    if violations:
        for n, v in enumerate(violations[:5]):
            path = os.path.join(rp_dir, f'{pid}-{n}.json')
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid, tier=tier, seed=args.seed), f, indent=1, default=str)
            print(f'  {v["msg"]}')
            if v.get('detail'):
                print('   ', json.dumps(v['detail'], default=str)[:1200])
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if inconclusive:
        for m in inconclusive:
            print('INCONCLUSIVE:', m)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
