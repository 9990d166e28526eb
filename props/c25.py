"""C25: the training loop performs exactly the requested training, and reports it."""
import math
import random
import numpy as np
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, rng_of
from vlib.models import DEEP, build, model_data, small_args
from vlib.trainlib import make_model_class, make_plan, replay, same_weights, stored, tracker


def cases(tier, seed):
    for n in range(450 if tier == 'quick' else 3000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4], 'model': DEEP[n // 5 % 3] if n % 5 == 4 else 'Trained'}


def fit_args(rng, tf):
    kw = dict(epochs=rng.choice([0, 1, 2, 3, 5, 8, 13]), batch_size=rng.randint(1, 6), neg_ratio=rng.choice([0, 1, 3]))
    if rng.random() < 0.7: kw['learning_rate'] = rng.choice([0.5, 0.0625, 0.01])
    if rng.random() < 0.7: kw['reg_rate'] = rng.choice([0.0, 0.01, 0.5])
    if rng.random() < 0.5: kw['extra_argument'] = rng.randint(0, 99)
    if rng.random() < 0.7:
        kw['epoch_callback_fn'] = True
        if rng.random() < 0.8: kw['epoch_callback_freq'] = rng.choice([1, 1, 2, 3, 7])
    if rng.random() < 0.3: kw['optimizer'] = rng.choice([0.25, 0.03125])
    return kw


def run_case(spec, mon):
    import matplotlib.pyplot as plt
    import tensorflow as tf
    rng = rng_of('C25', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    values = rng.choice([(1, 2, 3, 4, 5), (1, 2, 3, 4, 5), (0.5, 1, 1.5, 2, 4.5), (0, 1), (0, 2, 5), (-2, -1, 0, 1, 2), (2, 3, 4), (0.75, 3.25), (1,)])
    data = model_data(rng, values=values if spec['model'] == 'Trained' else (1, 2, 3, 4, 5))
    ds = load(data, spec['kind'])
    try:
        if spec['model'] != 'Trained': return run_deep(rng, spec, mon, data, ds)
        plan, verbose = make_plan(rng), rng.random() < 0.4
        cls = make_model_class()
        model = cls(plan, verbose=verbose, seed=rng.randint(0, 99))
        mon.log(spec['kind'], plan, 'verbose' if verbose else '', data.spec())
        for run in range(rng.choice([1, 1, 2])):
            one_fit(rng, mon, tf, model, plan, verbose, data, ds, run)
        mon.state((str(plan), spec['n']))
    finally:
        plt.close('all')
        close_all([ds])


def one_fit(rng, mon, tf, model, plan, verbose, data, ds, run):
    kw = fit_args(rng, tf)
    mon.log('fit', kw)
    calls, args = [], dict(kw)
    if 'epoch_callback_fn' in kw:
        wrong = rng.random() < 0.1
        def callback(m):
            n = len(model.batches)
            calls.append((n, m is model, m.fitted, m.current() if n else None))
            if n: m.predict(data.rows[0]['user'], data.rows[0]['item'])
            if wrong: return [('A', 1)]
            return {'A@5': n / 2, 'B': -n}
        args['epoch_callback_fn'] = callback
    else: wrong = False
    if 'optimizer' in kw: args['optimizer'] = tf.keras.optimizers.SGD(kw['optimizer'])
    copied = rng.random() < 0.3
    model.events, model.batches = [], []
    epochs, freq = kw['epochs'], kw.get('epoch_callback_freq', 5)
    want_calls = ([0] if verbose else []) + [e for e in range(1, epochs + 1) if verbose and e % freq == 0] if 'epoch_callback_fn' in kw else []
    try:
        model.fit(ds, copy_dataset=copied, **args)
    except AssertionError:
        mon.check(wrong and want_calls, 'fit failed', args=kw)
        mon.ev('wrong_callbacks')
        return
    mon.check(not (wrong and want_calls), 'a callback that does not return a dict was accepted')

    # the steps of the training, in order
    reg_rate, extra, bs = kw.get('reg_rate', 0.001), kw.get('extra_argument'), kw['batch_size']
    count = {k: sum(p[0] == k for p in plan['parts']) for k in ('model', 'layer', 'var')}
    want = [('pre_fit', kw.get('learning_rate', 0.001), kw['neg_ratio'], reg_rate, extra)]
    for _ in range(epochs):
        want += [('sample', bs, extra), ('predict', bs, extra), ('loss', bs, extra),
                 ('reg_loss', reg_rate, bs, count['model'], count['layer'], count['var']), ('update', len(plan['parts']))]
    without = lambda events: [e for e in events if e[0] != 'reg_loss' and (model.hooked_update or e[0] != 'update')]
    mon.eq(without(model.events), without(want), 'steps of the training')
    regs = [e for e in model.events if e[0] == 'reg_loss']
    mon.eq(regs, [e for e in want if e[0] == 'reg_loss'], 'regularization losses')
    rounds = ' '.join(e[0] for e in model.events).split('update')
    if model.hooked_update: mon.check(all(r.count('reg_loss') == 1 for r in rounds[:-1]) and 'reg_loss' not in rounds[-1], 'the regularization loss is not computed before every update')
    mon.eq([c[0] for c in calls], want_calls, 'epochs at which the epoch callback was called')
    mon.check(all(c[1] and c[2] for c in calls), 'the callback did not receive the fitted model')
    mon.ev('epochs', epochs)
    mon.ev('callbacks', len(calls))

    # the weights
    if 'optimizer' in kw: opt = ('sgd', kw['optimizer'])
    elif plan['own_optimizer']: opt = ('sgd', plan['own_optimizer'])
    else: opt = ('adam', kw.get('learning_rate', 0.001))
    weights, losses = replay(plan, model.batches, *opt, reg_rate)
    if all(np.isfinite(w).all() and abs(w).max() < 1e3 for ws in weights for w in ws):
        if epochs: same_weights(mon, plan, model.current(), weights[-1], f'the model trained with {opt}')
        mon.eq(len(model.epoch_weights), epochs + 1 if epochs else 0, 'number of epochs whose weights are stored')
        for e, entry in enumerate(model.epoch_weights):
            same_weights(mon, plan, stored(plan, entry), weights[e], f'epoch {e} of {epochs}, as stored')
        for n, _, _, seen in calls:
            if n: same_weights(mon, plan, seen, weights[n], f'epoch {n} of {epochs}, as seen by the callback')
        if verbose and tracker(model) is not None:
            got = tracker(model).epoch_losses
            mon.eq(len(got), epochs, 'number of losses')
            for a, b, w in zip(got, losses, weights):
                if w.sure: mon.close(a, b, 'loss of an epoch', tol=2e-3)
            if epochs and weights[-1].sure: mon.close(tracker(model).get_epoch_avg_loss(), np.mean(losses), 'average loss', tol=2e-3)
        mon.ev('replayed')
    if verbose and tracker(model) is not None:
        mon.eq(tracker(model).called_epochs, want_calls, 'epochs of the tracked callback results')
        mon.ev('tracked')
        mon.eq(tracker(model).epoch_callback_results, {'A@5': [n / 2 for n in want_calls], 'B': [-n for n in want_calls]} if want_calls else {},
               'tracked callback results')
    # what is known about the data
    inter = [r['interaction'] for r in data.rows]
    mon.eq(model.max_interaction, max(inter), 'maximum interaction')
    mon.eq(model.min_interaction, 0 if min(inter) == 1 else min(inter), 'minimum interaction')
    mon.eq((model.n_users, model.n_items, model.n_rows), (len({r['user'] for r in data.rows}), len({r['item'] for r in data.rows}), len(inter)), 'users, items and rows')
    mon.check((model.interaction_dataset is ds) == (not copied), 'dataset used by the model')
    if copied: close_all([model.interaction_dataset])
    mon.ev('refitted' if run else 'fitted')


def run_deep(rng, spec, mon, data, ds):
    """The recommenders of the library, trained by the same loop."""
    name = spec['model']
    kw = small_args(rng, name)
    model = build(name, seed=rng.randint(0, 10 ** 6), **kw)
    epochs, calls = rng.randint(0, 4), []
    users = list({r['user'] for r in data.rows})
    mon.log(spec['kind'], name, kw, epochs, data.spec())
    steps = []
    hooked = hasattr(model, '_update_weights')
    inner_sample, inner_update = model._sample_batch, getattr(model, '_update_weights', None)
    def sample(batch_size, **k):
        steps.append(('sample', batch_size))
        return inner_sample(batch_size, **k)
    def update(gradients, trainable_weights):
        weights = trainable_weights
        before = [np.array(w) for w in weights]
        mon.check(len(gradients) == len(weights) > 0, 'gradients and weights')
        inner_update(gradients, weights)
        steps.append(('update', sum(float(abs(np.array(w) - b).max()) > 0 for w, b in zip(weights, before))))
        for g, w, b in zip(gradients, weights, before):
            if g is not None and float(np.max(np.abs(np.array(tf_dense(g))))) > 1e-4:
                mon.check(float(abs(np.array(w) - b).max()) > 0, f'weights of {name} with a gradient did not change', shape=w.shape)
            mon.check(np.isfinite(np.array(w)).all(), f'weights of {name} are not finite')
    model._sample_batch = sample
    if hooked: model._update_weights = update
    for run in range(rng.choice([1, 2])):
        steps.clear()
        bs = rng.randint(2, 6)
        try: model.fit(ds, epochs=epochs, batch_size=bs, neg_ratio=rng.randint(1, 2), learning_rate=0.01)
        except Exception as e:
            if name == 'Caser' and 'consecutive tries' in str(e): return  # too few positive records for its sequences
            raise
        mon.eq([s[:2] if s[0] == 'sample' else s[0] for s in steps], ([('sample', bs), 'update'] if hooked else [('sample', bs)]) * epochs, f'steps of the training of {name}')
        mon.check(all(s[1] > 0 for s in steps if s[0] == 'update'), f'an epoch of {name} changed no weight')
        mon.eq(len(model.epoch_weights), epochs + 1 if epochs else 0, f'number of epochs of {name} whose weights are stored')
        now = [np.array(w) for w in model.trainable_weights], [l.get_weights() for l in model.trainable_layers], [m.get_weights() for m in model.trainable_models]
        if epochs:
            last = model.epoch_weights[-1]
            for a, b in zip(flat(now), flat((last['trainable_weights'], last['trainable_layers'], last['trainable_models']))):
                mon.check(np.array_equal(a, b), f'the weights stored for the last epoch are not those of {name}')
            first = model.epoch_weights[0]
            same = all(np.array_equal(a, b) for a, b in zip(flat(now), flat((first['trainable_weights'], first['trainable_layers'], first['trainable_models']))))
            mon.check(not same, f'the weights stored for the first epoch are those of the last one, {name}')
        model.rank(users[0], [r['item'] for r in data.rows])
        mon.ev('deep_fitted')
    mon.state((name, str(kw), spec['n']))


def flat(x):
    out = []
    for a in x:
        if isinstance(a, (list, tuple)): out += flat(a)
        else: out.append(np.array(a))
    return out


def tf_dense(g):
    import tensorflow as tf
    return tf.convert_to_tensor(g)
