"""C28: a model that is saved and loaded answers as before, here or in another process, and independently of the original."""
import json
import os
import subprocess
import sys
import numpy as np
from vlib.data import KINDS, close_all, load, rng_of, scratch
from vlib.models import build, model_data, small_args
from vlib.reprolib import model_answers, num

MODELS = ['CDAE', 'DMF', 'Caser', 'UserKNN', 'ItemKNN']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, seed):
    for n in range(6 if tier == 'quick' else 48):
        yield {'seed': seed, 'n': n, 'what': 'process'}
    for n in range(110 if tier == 'quick' else 2400):
        yield {'seed': seed, 'n': n, 'what': 'here', 'kind': ['mem_csv', 'mem_df', 'mem_csv', 'mem_df', 'db_csv', 'db_sqlite'][n // 5 % 6], 'model': MODELS[n % 5]}


def answers(model, users, items):
    """Everything the model says, as plain values."""
    return json.loads(json.dumps([model_answers(model, users, items), [[num(model.predict(u, i, skip_errors=True)) for i in items] for u in users]]))


def facts(model):
    """What the model shows to its users: all of its plain public attributes, its data and the weights of its epochs."""
    out = {a: v for a, v in vars(model).items() if not a.startswith('_') and isinstance(v, (bool, int, float, str, type(None)))}
    out['columns'] = list(model.interaction_dataset.columns)
    out['rows'] = [repr(r) for r in model.interaction_dataset.values_list(out['columns'], to_list=True)]
    out['epochs'] = [arrays(e) for e in model.epoch_weights]
    return out


def arrays(x):
    if isinstance(x, dict): return [arrays(x[k]) for k in sorted(x)]
    if isinstance(x, (list, tuple)): return [arrays(y) for y in x]
    return np.array(x).tolist()


def close(mon, a, b, what):
    """Equal up to the noise of floats."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b): close(mon, x, y, what)
    elif isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
        mon.check(abs(a - b) <= 1e-4 * max(1, abs(a)), what, got=a, want=b)
    else: mon.eq(a, b, what)


def fitted(rng, name, kind, mon):
    data = model_data(rng)
    ds = load(data, kind)
    kw = small_args(rng, name)
    model = build(name, seed=rng.randint(0, 10 ** 6), **kw)
    mon.log(name, kind, kw, data.spec())
    try: model.fit(ds, epochs=rng.randint(0, 2), batch_size=3, neg_ratio=1, learning_rate=0.01)
    except Exception as e:
        if not (name == 'Caser' and 'consecutive tries' in str(e)): raise
        model = None
    return data, ds, model, kw


def sides(data):
    return sorted({r['user'] for r in data.rows}), sorted({r['item'] for r in data.rows})


def run_case(spec, mon):
    rng = rng_of('C28', spec['seed'], spec['n'], spec['what'])
    if spec['what'] == 'process': return other_process(rng, mon)
    from DRecPy.Recommender.recommender_abc import RecommenderABC
    name, kind, path = spec['model'], spec['kind'], scratch('.model')
    if rng.random() < 0.15:  # saved before being fitted
        data = model_data(rng)
        ds, kw, s = load(data, kind), small_args(rng, name), rng.randint(0, 10 ** 6)
        try:
            build(name, seed=s, **kw).save(path)
            model = RecommenderABC.load(path)
            for ask in (lambda: model.predict(data.rows[0]['user'], data.rows[0]['item']), lambda: model.recommend(data.rows[0]['user'])):
                try: ask()
                except Exception: pass
                else: mon.fail('a model that was saved before being fitted answers after being loaded')
            try: model.fit(ds, epochs=1, batch_size=3, neg_ratio=1)
            except Exception as e:
                if name == 'Caser' and 'consecutive tries' in str(e): return
                raise
            got = answers(model, *sides(data))
            if name.endswith('KNN'):
                other = build(name, seed=s, **kw)
                other.fit(ds)
                close(mon, got, answers(other, *sides(data)), 'answers of a model fitted after being loaded')
            mon.ev('loaded_unfitted')
        finally: close_all([ds])
        return
    data, ds, model, kw = fitted(rng, name, kind, mon)
    used = [ds]
    try:
        if model is None: return
        users, items = sides(data)
        before, known = answers(model, users, items), facts(model)
        try: model.save(path)
        except TypeError as e:
            if kind.startswith('db') and 'sqlite3.Connection' in str(e):
                mon.known_finding('save_model_of_database', f'{name}: {e}')
                close(mon, answers(model, users, items), before, 'answers of a model that could not be saved')
                return
            raise
        mon.eq(facts(model), known, 'a model after being saved')
        close(mon, answers(model, users, items), before, 'answers of a model after being saved')
        loaded = RecommenderABC.load(path)
        mon.check(type(loaded) is type(model), 'type of the loaded model', got=type(loaded))
        mon.eq(facts(loaded), known, 'attributes of the loaded model')
        mon.ev('epochs_compared', len(known['epochs']))
        close(mon, answers(loaded, users, items), before, 'answers of the loaded model')
        # the loaded model and the original are independent
        data2 = model_data(rng)
        ds2 = load(data2, rng.choice(KINDS))
        used.append(ds2)
        again, other = (model, loaded) if rng.random() < 0.5 else (loaded, model)
        try:
            again.fit(ds2, epochs=2, batch_size=3, neg_ratio=1, learning_rate=0.05)
            mon.check(again.n_rows == len(data2.rows), 'rows of a model that was fitted again')
            answers(again, *sides(data2))
        except Exception as e:
            if not (name == 'Caser' and 'consecutive tries' in str(e)): raise
        close(mon, answers(other, users, items), before, 'answers of a model after its ' + ('copy' if other is model else 'original') + ' was fitted on other data')
        for side in (lambda: other.predict('nobody', items[0]), lambda: other.predict(users[0], 'nothing')):
            try: side()
            except Exception: pass
            else: mon.fail('unknown ids are accepted after loading')
        if rng.random() < 0.5:  # the file is complete: it does not need the dataset
            close_all([ds])
            close(mon, answers(RecommenderABC.load(path), users, items), before, 'answers of a model loaded after its dataset was closed')
        if rng.random() < 0.3:  # saved over a former file, loaded and saved once more
            other.save(path)
            RecommenderABC.load(path).save(path)
            close(mon, answers(RecommenderABC.load(path), users, items), before, 'answers of a model saved twice')
        mon.ev('loaded_' + name)
        mon.ev('loaded')
        mon.state((name, str(before)))
    finally:
        close_all(used)
        if os.path.exists(path): os.remove(path)


def other_process(rng, mon):
    jobs, want, files = [], [], scratch('_saved')
    os.makedirs(files)
    for n in range(10):
        name = MODELS[n % 5]
        data, ds, model, kw = fitted(rng, name, rng.choice(['mem_csv', 'mem_df']), mon)
        try:
            if model is None: continue
            want.append(answers(model, *sides(data)))  # a model that was never trained nor used may have no weights yet
            path = os.path.join(files, f'{n}.model')
            model.save(path)
            jobs.append((path, *sides(data)))
        finally: close_all([ds])
    with open(os.path.join(files, 'jobs'), 'w') as f: json.dump(jobs, f)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10 ** 6)), DATA_FOLDER=os.path.join(files, 'data'), PYTHONPATH=os.environ['PYTHONPATH'] + os.pathsep + HERE)
    os.makedirs(env['DATA_FOLDER'])
    p = subprocess.run([sys.executable, '-B', '-m', 'vlib.sub_load', os.path.join(files, 'jobs')], env=env, capture_output=True, timeout=90)
    if p.returncode != 0: mon.fail('the saved models can not be used in another process', stderr=p.stderr.decode('utf8', 'replace')[-1200:])
    for job, a, b in zip(jobs, json.loads(p.stdout), want):
        close(mon, a, b, 'answers of a model loaded in another process')
        mon.ev('loaded_elsewhere')
        mon.state(str(b))
