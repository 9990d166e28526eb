"""C31: progress reports, log files and graphs show the true values, and nothing is reported when it was not asked for."""
import contextlib
import io
import logging
import os
import re
import shutil
import sys
import time
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, rng_of, scratch
from vlib.evallib import load_pair, make_stub, train_test
from vlib.models import DEEP, build, model_data, small_args
from vlib.trainlib import make_model_class, make_plan, replay
from props.c26 import best_of

PARTS = ['graph', 'fit', 'fit', 'logs', 'evaluation', 'quiet', 'loud', 'quiet']
COUNTED = {'Max. interaction value': 'max', 'Min. interaction value': 'min', 'Interaction threshold value': 'threshold',
           'Number of unique users': 'users', 'Number of unique items': 'items', 'Number of training points': 'points'}


def cases(tier, seed):
    for n in range(320 if tier == 'quick' else 4000):
        yield {'seed': seed, 'n': n, 'part': PARTS[n % len(PARTS)]}


def setup():
    import matplotlib.pyplot  # noqa: F401, before the output is observed
    logging.getLogger().addHandler(logging.NullHandler())


def run_case(spec, mon):
    rng = rng_of('C31', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    import matplotlib.pyplot as plt
    plt.close('all')
    logging.disable(logging.NOTSET)
    try: {'graph': graph, 'fit': fit, 'logs': logs, 'evaluation': evaluation, 'quiet': quiet, 'loud': loud}[spec['part']](rng, mon, spec)
    finally:
        logging.disable(logging.CRITICAL)
        plt.close('all')
        for logger in list(logging.root.manager.loggerDict.values()):  # the logs of this case
            for h in list(getattr(logger, 'handlers', [])):
                if isinstance(h, logging.FileHandler):
                    h.close()
                    logger.removeHandler(h)


@contextlib.contextmanager
def observed():
    """The text written to the standard streams."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err): yield out, err


@contextlib.contextmanager
def folder(*names):
    """A scratch folder with the given subfolders, which is the current one meanwhile."""
    before, path = os.getcwd(), scratch('_logs')
    for name in names or ['']: os.makedirs(os.path.join(path, name))
    os.chdir(path)
    try: yield path
    finally:
        os.chdir(before)
        shutil.rmtree(path)


def dashed(line): return line.get_linestyle() in ('--', 'dashed')


def verticals(axes):
    """Positions of the vertical lines of the axes."""
    return [line.get_xdata()[0] for line in axes.get_lines() if dashed(line) and len(line.get_xdata()) == 2 and line.get_xdata()[0] == line.get_xdata()[1]]


def the_figure(mon, name, what):
    import matplotlib.pyplot as plt
    mon.eq(len(plt.get_fignums()), 1, f'number of graphs shown by {what}')
    fig = plt.figure(plt.get_fignums()[0])
    texts = [fig._suptitle.get_text() if fig._suptitle else ''] + [a.get_title() for a in fig.axes]
    mon.check(name is None or any(name in t for t in texts), f'the graph of {what} does not name the model', title=texts, name=name)
    return fig


def loss_graph(mon, name, losses, results, epochs, stop, what, tol=0):
    """Compares the graph of a training with what it must show."""
    fig = the_figure(mon, name, what)
    curves = [[(list(map(float, l.get_xdata())), list(map(float, l.get_ydata())), str(l.get_label())) for l in a.get_lines()
               if not (dashed(l) and len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1])] for a in fig.axes]
    near = lambda got, want: len(got) == len(want) and all(abs(g - w) <= tol * max(1, abs(w)) + 1e-12 for g, w in zip(got, want))
    mon.check(any(near(ys, losses) for _, ys, _ in curves[0]), f'the losses are not in the graph of {what}', curves=curves[0], losses=losses)
    for m, values in results.items():
        got = [(xs, ys) for axis in curves for xs, ys, label in axis if label == m]
        mon.eq(len(got), 1, f'number of curves of {m} in the graph of {what}', curves=curves)
        mon.eq(got[0], ([float(e) for e in epochs], [float(v) for v in values]), f'curve of {m} in the graph of {what}')
        mon.ev('metric_curves')
    mon.eq(sum(len(a) for a in curves), 1 + len(results), f'number of curves in the graph of {what}', curves=curves)
    for a in fig.axes: mon.eq(verticals(a), [] if stop is None else [stop], f'early stopping in the graph of {what}')
    mon.ev('loss_graphs')


# ------------------------------------------------------------------ graphs of the loss tracker

def graph(rng, mon, spec):
    import matplotlib.pyplot as plt
    from DRecPy.Evaluation import LossTracker
    for _ in range(5):
        plt.close('all')
        tracker, losses, results, called = LossTracker(), [], {}, []
        metrics = rng.sample(['P@5', 'R', 'N@10', 'loss', 'Early'], rng.choice([0, 0, 1, 2, 3]))
        n, freq = rng.randint(0, 12), rng.randint(1, 4)
        start = rng.random() < 0.5
        missing = rng.choice(metrics) if len(metrics) > 1 and rng.random() < 0.3 else None
        skipped = False
        for e in range(0 if start else 1, n + 1):
            if e:
                losses.append(rng.uniform(-1, 5))
                tracker.add_epoch_loss(losses[-1])
                mon.close(tracker.get_epoch_avg_loss(), sum(losses) / len(losses), 'average of the losses', tol=1e-6)
            if e % freq == 0 and metrics:
                if e: called.append(e)
                else: called = [0]
                for m in metrics:
                    if m == missing and len(called) > 1 and not skipped:
                        skipped = True
                        continue
                    results.setdefault(m, []).append(rng.choice([rng.uniform(0, 1), rng.randint(0, 4)]))
                    tracker.add_epoch_callback_result(m, results[m][-1], e)
            if rng.random() < 0.05:
                tracker.reset_epoch_losses()
                losses = []
                mon.eq(tracker.get_epoch_avg_loss(), 0, 'average of the losses after they were forgotten')
        name, stop = rng.choice([None, 'Some model']), rng.choice([None, 0, 3, n])
        mon.log('losses', losses, 'results', results, 'epochs', called, name, stop, 'incomplete' if skipped else '')
        mon.eq(({k: list(v) for k, v in tracker.epoch_callback_results.items()}, list(tracker.called_epochs), list(tracker.epoch_losses)),
               (results, called, losses), 'values kept by the tracker')
        # a metric without a value for some epoch
        with observed():
            try: tracker.display_graph(*([name] if rng.random() < 0.5 else []), **({} if rng.random() < 0.5 and stop is None else {'stopping_epoch': stop})) if name is None \
                else tracker.display_graph(model_name=name, stopping_epoch=stop)
            except Exception as e:
                if not skipped: raise
                mon.check(missing in str(e), 'the failure does not name the metric', error=str(e), metric=missing)
                mon.ev('refused')
                continue
        mon.check(not skipped, 'a graph was shown for a metric without values for all epochs', results=results, epochs=called)
        loss_graph(mon, name, losses, results, called, stop, 'a tracker')
        mon.state((str(losses), str(results), stop))


# ------------------------------------------------------------------ log file and graph of a training

def number(text):
    try: return float(text)
    except ValueError: return None


def initial_values(mon, text, want, what):
    """The values reported before the training."""
    for label, key in COUNTED.items():
        found = re.findall(re.escape(label) + r':\s*(\S+)', text)
        mon.check(len(found) > 0, f'{what} does not tell: {label}', text=text[-800:])
        for got in found: mon.close(number(got), want[key], f'{label}, in {what}')
    found = re.findall(r'Sparsity level\D*([-\d.e]+)\s*%', text)
    mon.check(len(found) > 0, f'{what} does not tell the sparsity', text=text[-800:])
    sparsity = 100 * (1 - want['points'] / (want['users'] * want['items']))
    for got in found: mon.check(number(got) is not None and abs(number(got) - sparsity) < 6e-5 + 1e-9, f'sparsity in {what}', got=got, want=sparsity)
    mon.ev('initial_values')


def fit(rng, mon, spec):
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    data = model_data(rng, n_users=rng.randint(2, 5), n_items=rng.randint(6, 9), values=rng.choice([(1, 2, 3, 4, 5), (0, 1), (-2, 0.5, 3), (2, 3)]))
    plan, thr = make_plan(rng), rng.choice([0.001, 1, 2.5, 3])
    epochs, freq, es_freq = rng.randint(1, 9), rng.choice([None, 1, 2, 3]), rng.choice([None, 1, 2, 3])
    metric, stop_at = rng.choice(['A', 'A@5', 'B', None]), rng.choice([None, None, rng.randint(1, epochs)])
    shape = rng.choice(['random', 'few', 'up', 'down'])
    with_callback = rng.random() < 0.85
    values = {}
    def value(e):
        if e not in values: values[e] = {'random': rng.uniform(-1, 1), 'few': rng.choice([0.1, 0.2, 0.3]), 'up': e, 'down': -e}[shape]
        return {'A@5': values[e], 'B': -values[e]}
    if metric:
        class Rule(MaxValidationValueRule):
            def stop_training(self, current_epoch, best_computed_epoch, target_epoch, **k): return stop_at is not None and current_epoch >= stop_at
        rule = Rule(metric)
    else: rule = None
    args = dict(epochs=epochs, batch_size=rng.randint(1, 4), learning_rate=0.05, early_stopping_rule=rule)
    if with_callback: args['epoch_callback_fn'] = lambda m: value(len(m.batches))
    if freq: args['epoch_callback_freq'] = freq
    if es_freq: args['early_stopping_freq'] = es_freq
    kind = rng.choice(KINDS)
    mon.log(kind, plan, epochs, freq, es_freq, metric, stop_at, shape, 'callback' if with_callback else '', data.spec())
    ds = load(data, kind)
    try:
        with folder() as path, observed() as (out, err):
            model = make_model_class()(plan, verbose=True, log_file=True, seed=rng.randint(0, 99), interaction_threshold=thr)
            model.fit(ds, **args)
            files = os.listdir(path)
            mon.eq(len(files), 1, 'number of files written by the training', files=files)
            mon.check(re.search(r'Trained\.log$', files[0]) is not None, 'the log file does not name the recommender', file=files[0])
            with open(os.path.join(path, files[0]), encoding='utf8') as f: text = f.read()
        console = err.getvalue() + out.getvalue()
        inter = [r['interaction'] for r in data.rows]
        want = dict(max=max(inter), min=0 if min(inter) == 1 else min(inter), threshold=thr, users=len({r['user'] for r in data.rows}),
                    items=len({r['item'] for r in data.rows}), points=len(data.rows))
        initial_values(mon, text, want, 'the log file')
        initial_values(mon, console, want, 'the console')
        check_epochs(mon, model, plan, text, console, args, freq or 5, es_freq or 5, with_callback, metric, stop_at, value, epochs)
        mon.state((str(plan), str(data.rows), spec['n']))
    finally:
        close_all([ds])


def check_epochs(mon, model, plan, text, console, args, freq, es_freq, with_callback, metric, stop_at, value, epochs):
    history, best, done, shown, bests = [(0, value(0))] if with_callback else [], None, 0, {}, {}
    for e in range(1, epochs + 1):
        done = e
        if with_callback and e % freq == 0: history.append((e, value(e)))
        if metric and e % es_freq == 0:
            b = best_of(metric, history)
            if b is not None:
                best = b
                if stop_at is not None and e >= stop_at: break
        shown[e], bests[e] = history[-1][1] if history else {}, best
    else:
        if metric and done % es_freq:
            b = best_of(metric, history)
            if b is not None: best = b
    mon.eq(len(model.batches), done, 'number of epochs of the training')
    weights, losses = replay(plan, model.batches, *(('sgd', plan['own_optimizer']) if plan['own_optimizer'] else ('adam', 0.05)), 0.001)
    lines = [(int(m.group(1)), m.group(2), line) for line in text.splitlines() for m in [re.search(r'Epoch (\d+) Loss: (\S+)', line)] if m]
    seen = [e for e, _, _ in lines]
    unique = [e for n, e in enumerate(seen) if n == 0 or seen[n - 1] != e]
    mon.check(unique in (list(shown), list(shown) + [done]), 'epochs in the log file', got=seen, want=list(shown))
    for n, (e, loss, line) in enumerate(lines):
        if weights[e - 1].sure and abs(losses[e - 1]) < 1e3:
            mon.check(number(loss) is not None and abs(number(loss) - losses[e - 1]) <= 6e-5 + 2e-3 * max(1, abs(losses[e - 1])), f'loss of epoch {e} in the log file', line=line, want=losses[e - 1])
        found = dict(re.findall(r'\| ([AB](?:@5)?): (\S+)', line))
        mon.eq({m: number(v) for m, v in found.items()}, {m: float(v) for m, v in (shown.get(e) or (history[-1][1] if history else {})).items()}, f'metrics of epoch {e} in the log file', line=line)
        found = re.findall(r'best epoch: (\S+)', line)
        allowed = [bests.get(e)] + ([best] if e == done else [])
        mon.check(all(number(b) in [x for x in allowed if x is not None] for b in found), f'best epoch in the log file at epoch {e}', line=line, want=allowed)
        mon.check(bests.get(e) is None or len(found) > 0, f'the best epoch is not in the log file at epoch {e}', line=line, want=allowed)
        mon.ev('epoch_lines')
    logged = {e: loss for e, loss, _ in lines}
    for e, loss in re.findall(r'Epoch (\d+) Loss: ([^\s:|]+)', console):
        mon.eq(loss, logged.get(int(e), loss), f'loss of epoch {e}, on the console')
        mon.ev('console_epochs')
    found = [int(x) for x in re.findall(r'[Rr]everting network weights to epoch (\d+)', text)]
    mon.eq(found, [] if best is None or best == epochs else [best], 'epochs the weights were reverted to, in the log file')
    results = {m: [float(v[m]) for _, v in history] for m in (history[0][1] if history else {})}
    if all(w.sure for w in weights) and all(abs(l) < 1e3 for l in losses):
        loss_graph(mon, type(model).__name__, losses, results, [e for e, _ in history], best if best != epochs else None, 'a training', tol=2e-3)
    mon.ev('trainings')


# ------------------------------------------------------------------ each log file is of one model

def logs(rng, mon, spec):
    names = rng.sample(['a', 'b', 'c'], rng.randint(2, 3))
    models, datasets, said = {}, {}, {n: [] for n in names}
    same = rng.random() < 0.7
    classes = rng.choices(['ItemKNN', 'UserKNN', 'CDAE', 'DMF'], k=1 if same else len(names))
    try:
        with folder(*names) as path, observed():
            for n, name in enumerate(names):
                os.chdir(os.path.join(path, name))
                data = model_data(rng, n_users=3 + n, n_items=7 + 2 * n)
                datasets[name] = (load(data, rng.choice(KINDS)), data)
                cls = classes[n % len(classes)]
                from DRecPy import Recommender
                from DRecPy.Recommender import Baseline
                kw = small_args(rng, cls)
                models[name] = (getattr(Recommender, cls, None) or getattr(Baseline, cls))(verbose=True, log_file=True, seed=rng.randint(0, 9), interaction_threshold=n + 0.25, **kw)
            os.chdir(path)
            for name in rng.choices(names, k=rng.randint(2, 5)):
                mon.log('fit', name, type(models[name]).__name__)
                models[name].fit(datasets[name][0], **({} if 'KNN' in type(models[name]).__name__ else {'epochs': rng.randint(1, 3)}))
                said[name].append(datasets[name][1])
            for n, name in enumerate(names):
                files = os.listdir(os.path.join(path, name))
                mon.check(len(files) == 1 and type(models[name]).__name__ in files[0], 'files of the logs of a model', files=files)
                with open(os.path.join(path, name, files[0]), encoding='utf8') as f: text = f.read()
                mon.check(len(said[name]) > 0 or not text, 'the log file of a model that was not trained is not empty', text=text[:600])
                if said[name]:
                    rows = said[name][0].rows
                    initial_values(mon, text, dict(max=max(r['interaction'] for r in rows), min=min(r['interaction'] for r in rows) if min(r['interaction'] for r in rows) != 1 else 0,
                                                   threshold=n + 0.25, users=len({r['user'] for r in rows}), items=len({r['item'] for r in rows}), points=len(rows)), f'the log file of {name}')
                    mon.eq(len(re.findall('Number of training points', text)), len(said[name]), f'number of trainings in the log file of {name}')
                mon.ev('log_files')
            left = [f for f in os.listdir(path) if f not in names]
            mon.eq(left, [], 'files written elsewhere')
        mon.state((spec['n'], str([type(m).__name__ for m in models.values()])))
    finally:
        close_all([d for d, _ in datasets.values()])


# ------------------------------------------------------------------ graphs of the evaluations

def evaluation(rng, mon, spec):
    from DRecPy.Evaluation import Metrics as M
    from DRecPy.Evaluation.Processes import predictive_evaluation, ranking_evaluation, recommendation_evaluation
    import matplotlib.pyplot as plt
    train, test = train_test(rng)
    ds_tr, ds_te, kinds = load_pair(rng, train, test)
    mon.log('train', kinds[0], train.spec(), 'test', kinds[1], test.spec())
    sleep = time.sleep
    try:
        model = make_stub()(rng.random(), interaction_threshold=2)
        model.fit(ds_tr)
        time.sleep = lambda s: sleep(min(s, 0.01))
        for fn in (ranking_evaluation, recommendation_evaluation):
            plt.close('all')
            ks = rng.choice([[1, 2, 3], [5, 2], [10, 1, 4], [3], [7]])
            metrics = rng.sample([M.Precision(), M.Recall(), M.HitRatio(), M.NDCG(), M.FScore(beta=2), M.AveragePrecision()], rng.randint(1, 4))
            verbose, seed = rng.random() < 0.75, rng.randint(0, 99)
            kw = dict(metrics=metrics, k=ks, seed=seed, max_concurrent_threads=rng.choice([1, 3]))
            mon.log(fn.__name__, [m.name for m in metrics], ks, 'verbose' if verbose else '')
            reference = fn(model, ds_te, verbose=False, **kw)
            mon.eq(plt.get_fignums(), [], 'graphs shown by an evaluation that must be quiet')
            with observed(): results = fn(model, ds_te, **kw, block=False, **({'verbose': verbose} if not verbose or rng.random() < 0.5 else {}))
            mon.eq(set(results), set(reference), 'metrics of an evaluation that reports its progress')
            for m in results: mon.check(abs(results[m] - reference[m]) < 1.1e-4, f'{m} of an evaluation that reports its progress', got=results[m], want=reference[m])  # sums in any order
            if not verbose or len(ks) == 1:
                mon.eq(plt.get_fignums(), [], f'graphs shown by {fn.__name__}', verbose=verbose, k=ks)
                continue
            fig = the_figure(mon, type(model).__name__, fn.__name__)
            curves = {str(l.get_label()): (list(map(float, l.get_xdata())), list(map(float, l.get_ydata()))) for a in fig.axes for l in a.get_lines()}
            mon.eq(curves, {m.name: ([float(k) for k in sorted(ks)], [float(results[f'{m.name}@{k}']) for k in sorted(ks)]) for m in metrics}, f'curves of the graph of {fn.__name__}')
            mon.ev('evaluation_graphs')
        plt.close('all')
        kw = dict(metrics=[M.RMSE(), M.MAE()] if hasattr(M, 'MAE') else [M.RMSE(), M.MSE()], skip_errors=True)
        got = []
        for verbose in (False, True):
            with observed():
                try: got.append(predictive_evaluation(model, ds_te, verbose=verbose, **kw))
                except (ZeroDivisionError, ValueError) as e: got.append(repr(e))
        mon.eq(got[1], got[0], 'results of a predictive evaluation that reports its progress')
        mon.eq(plt.get_fignums(), [], 'graphs shown by a predictive evaluation')
        mon.state((spec['n'], str(got)))
    finally:
        time.sleep = sleep
        close_all([ds_tr, ds_te])


# ------------------------------------------------------------------ nothing without being asked

def quiet(rng, mon, spec):
    import pandas as pd
    from DRecPy.Dataset import InteractionDataset
    from DRecPy.Evaluation.Splits import leave_k_out, matrix_split, random_split
    from DRecPy.Evaluation.Processes import predictive_evaluation, ranking_evaluation, recommendation_evaluation
    import matplotlib.pyplot as plt
    deep = spec['n'] % 16 == 7
    data = model_data(rng, n_users=rng.randint(2, 5))
    kind, name = rng.choice(KINDS), rng.choice(DEEP if deep else ['ItemKNN', 'UserKNN'])
    mon.log(kind, name, data.spec())
    opened = []
    with folder() as path:
        with observed() as (out, err):
            def said(what):
                mon.eq((out.getvalue(), err.getvalue()), ('', ''), f'output of {what}, which must be quiet')
                mon.eq(plt.get_fignums(), [], f'graphs of {what}, which must be quiet')
                mon.ev('quiet_operations')
            try:
                ds = load(data, kind)
                opened.append(ds)
                said(f'loading {kind}')
                if rng.random() < 0.5: ds.assign_internal_ids(); said('assign_internal_ids')
                if rng.random() < 0.4: ds.apply('interaction', lambda x: x + 1); said('apply')
                if rng.random() < 0.4:
                    other = ds.copy()
                    opened.append(other)
                    other.assign_internal_ids(); other.apply('interaction', lambda x: x)
                    said('a copy')
                if rng.random() < 0.5:
                    other = ds.select('interaction >= 1')
                    opened.append(other)
                    len(other); other.assign_internal_ids(); list(other.values())
                    said('a selection')
                if rng.random() < 0.4 and 'uid' not in ds.columns:
                    target = os.path.join(path, 'saved.sqlite' if kind.startswith('db') else 'saved.csv')
                    ds.save(target)
                    other = InteractionDataset(target, verbose=False, **({} if kind.startswith('db') else {'columns': list(ds.columns)}))
                    opened.append(other)
                    other.assign_internal_ids()
                    said('save and load')
                split = rng.choice([leave_k_out, matrix_split, random_split])
                kw = {leave_k_out: dict(k=1), matrix_split: dict(), random_split: dict()}[split]
                train, test = split(ds, seed=rng.randint(0, 9), verbose=False, **kw)
                opened.extend([train, test])
                said(split.__name__)
                args = small_args(rng, name)
                model = build(name, seed=3, **args)
                try: model.fit(ds, **({'epochs': rng.randint(1, 4), 'batch_size': 3} if deep else {}), copy_dataset=rng.random() < 0.3)
                except Exception as e:
                    if name == 'Caser' and 'consecutive tries' in str(e): return
                    raise
                said(f'fit of {name}')
                user, items = data.rows[0]['user'], sorted({r['item'] for r in data.rows}, key=repr)
                model.predict(user, items[0], skip_errors=True)
                model.rank(user, items[:4]); model.recommend(user, n=2)
                said(f'predictions of {name}')
                predictive_evaluation(model, ds, verbose=False, skip_errors=True, count_none_predictions=True)
                ranking_evaluation(model, ds, verbose=False, k=[1, 3], interaction_threshold=1)
                recommendation_evaluation(model, ds, verbose=False, k=[1, 3], interaction_threshold=1, novelty=False)
                said('the evaluations')
                mon.eq([f for f in os.listdir(path) if f.endswith('.log')], [], 'log files that were not asked for')
            finally:
                close_all(opened)
    mon.state((spec['n'], kind, name))


# ------------------------------------------------------------------ reporting progress changes nothing

def loud(rng, mon, spec):
    from DRecPy.Dataset import InteractionDataset
    data = make_data(rng)
    in_memory, ref = rng.random() < 0.4, Ref.of(data)
    path = data.write_csv()
    opened = []
    try:
        with observed() as (out, err):
            loaded = {v: InteractionDataset(path, columns=list(data.columns), in_memory=in_memory, **({} if v and rng.random() < 0.5 else {'verbose': v})) for v in (True, False)}
            ds, same = loaded[True], loaded[False]
            opened.extend([ds, same])
            for step in rng.sample(['ids', 'apply', 'copy', 'apply', 'ids'], rng.randint(1, 4)):
                mon.log('memory' if in_memory else 'database', step)
                if step == 'ids':
                    for d in (ds, same): d.assign_internal_ids()
                elif step == 'apply':
                    by = rng.randint(1, 3)
                    for d in (ds, same): d.apply('interaction', lambda x: x * by + 1)
                    for r in ref.rows: r['interaction'] = r['interaction'] * by + 1
                else:
                    ds, same = ds.copy(), same.copy()
                    opened.extend([ds, same])
            if 'uid' in ds.columns: ref.columns = ref.columns + ['uid', 'iid']
            for r in ref.rows: r.update({'uid': ds.user_to_uid(r['user']), 'iid': ds.item_to_iid(r['item'])} if 'uid' in ds.columns else {})
            check_same(mon, ds, ref, 'the dataset that reports its progress')
            mon.eq(len(ds), len(same), 'number of rows')
            mon.eq(list(ds.columns), list(same.columns), 'columns')
            for a, b in zip(ds.values(to_list=True), same.values(to_list=True)): mon.eq(a, b, 'row of the dataset that reports its progress')
            ds.assign_internal_ids(); same.assign_internal_ids()
            for r in ref.rows:
                mon.eq((ds.user_to_uid(r['user']), ds.item_to_iid(r['item'])), (same.user_to_uid(r['user']), same.item_to_iid(r['item'])), 'ids of the dataset that reports its progress')
        mon.ev('loud_datasets')
        mon.state((spec['n'], str(ref.rows)))
    finally:
        close_all(opened)
        os.remove(path)
