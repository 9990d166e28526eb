"""Runs a shard of the cases of a property against the real code and records what the monitor observed."""
import importlib
import io
import json
import os
import sys
import time
import traceback


def main():
    cfg = json.loads(sys.argv[1])
    sys.path.insert(0, cfg['verif'])
    out_dir = cfg['out']
    hb_path = os.path.join(out_dir, 'heartbeat')
    res_path = os.path.join(out_dir, 'result.json')

    from vlib.mon import Monitor, Violation, Inconclusive
    mod = importlib.import_module('props.' + cfg['module'])
    import warnings
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    if hasattr(mod, 'setup'):
        mod.setup()

    mon = Monitor()
    result = {'done': 0, 'nontrivial': 0, 'violations': [], 'errors': [], 'complete': False}
    start = time.time()

    if cfg.get('specs') is not None:
        specs = list(enumerate(cfg['specs']))
    else:
        specs = [(i, s) for i, s in enumerate(mod.cases(cfg['tier'], cfg['seed'])) if i % cfg['nshards'] == cfg['shard']]
    result['total'] = len(specs)
    result['case_errors'] = 0

    def write():
        result.update(events=mon.events, states=sorted(mon.states), samples=mon.samples, known=mon.known,
                      checks=mon.checks)
        tmp = res_path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(result, f, default=str)
        os.replace(tmp, res_path)

    last_write = time.time()
    for n, (i, spec) in enumerate(specs):
        if time.time() - start > cfg['budget'] and cfg.get('specs') is None:
            break
        with open(hb_path + '.tmp', 'w') as f:
            json.dump({'n': n, 'i': i, 'spec': spec, 't': time.time()}, f, default=str)
        os.replace(hb_path + '.tmp', hb_path)
        mon.begin()
        try:
            sys.stdout, so = io.StringIO(), sys.stdout
            try:
                mod.run_case(spec, mon)
            finally:
                sys.stdout = so
            result['done'] += 1
            if mon.case_states > 0:
                result['nontrivial'] += 1
        except Violation as v:
            result['violations'].append({'spec': spec, 'msg': v.msg, 'detail': v.detail, 'trace': mon.trace[-60:]})
        except Inconclusive as e:
            result['errors'].append(f'case {i}: inconclusive: {e}')
        except (MemoryError, KeyboardInterrupt) as e:
            result['errors'].append(f'case {i}: {type(e).__name__}: {e}')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            frames = [f'{os.path.relpath(fr.filename, "/")}:{fr.lineno} {fr.name}' for fr in tb]
            in_repo = any(fr.filename.startswith(cfg['repo'] + '/') for fr in tb)
            env_problem = isinstance(e, OSError) and e.errno in (28, 12, 24, 23, 122)  # disk, memory, descriptors
            if env_problem:
                result['errors'].append(f'case {i}: {type(e).__name__}: {e}')
            else:
                what = 'an operation that must succeed raised' if in_repo else 'malformed result'
                result['violations'].append({'spec': spec, 'msg': f'{what} {type(e).__name__}: {str(e)[:300]}',
                                             'detail': {'frames': frames[-12:]}, 'trace': mon.trace[-60:]})
        if len(result['violations']) >= 3:
            break
        if time.time() - last_write > 2:
            write()
            last_write = time.time()
    else:
        result['complete'] = True
    if hasattr(mod, 'teardown'):
        mod.teardown()
    result['finished'] = True
    write()
    sys.stdout.flush()
    os._exit(0)  # no interpreter shutdown: leaked threads or connections must not block


main()
