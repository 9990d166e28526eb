"""C26: early stopping computes its rule on the right epochs and leaves the model with the exact weights of the best epoch."""
import math
from vlib.data import close_all, load, rng_of
from vlib.models import model_data
from vlib.trainlib import make_model_class, make_plan, replay, same_weights, stored, tracker


def cases(tier, seed):
    for n in range(520 if tier == 'quick' else 5000):
        yield {'seed': seed, 'n': n, 'part': ['fit', 'fit', 'rule'][n % 3]}


def best_of(name, history):
    """Epoch of the first maximum of the metric, or None when the rule cannot be computed."""
    if not history: return None
    names = list(history[0][1])
    if '@' in name: key = name if name in names else None
    else: key = next((k for k in reversed(names) if k.split('@')[0] == name), None)
    if key is None: return None
    values = [(v[key], e) for e, v in history]
    top = max(v for v, _ in values)
    return next(e for v, e in values if v == top)


def run_case(spec, mon):
    rng = rng_of('C26', spec['seed'], spec['n'])
    (run_fit if spec['part'] == 'fit' else run_rule)(rng, spec, mon)


def run_rule(rng, spec, mon):
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC, InvalidEpochValidationResultsException, InvalidRequiredValidationMetricsException
    import copy
    metrics = rng.sample(['P', 'R', 'N@3', 'N@10', 'Q@2', 'AP'], rng.randint(1, 4))
    epochs = sorted(rng.sample(range(0, 60), rng.randint(1, 12)))
    few = rng.random() < 0.5
    history = [(e, {m: rng.choice([0, 0.25, 0.5, 1]) if few else rng.uniform(-5, 5) for m in metrics}) for e in epochs]
    results = {m: [v[m] for _, v in history] for m in metrics}
    losses = [rng.random() for _ in range(epochs[-1])]
    mon.log(results, epochs)
    for name in set([m for m in metrics] + [m.split('@')[0] for m in metrics] + ['missing', 'missing@1', 'P@9']):
        if '@' not in name and sum(m.split('@')[0] == name for m in metrics) > 1: continue  # ambiguous
        rule = MaxValidationValueRule(name)
        want = best_of(name, history)
        given = copy.deepcopy((losses, results, epochs))
        if want is None:
            for _ in range(2):
                try: got = rule.compute(*given)
                except InvalidEpochValidationResultsException: mon.ev('refused')
                else: mon.fail(f'a rule on {name} was computed without its metric', got=got)
        else:
            for _ in range(rng.randint(1, 2)): mon.eq(rule.compute(*given), want, f'best epoch for {name}', results=results, epochs=epochs)
            mon.ev('computed')
        mon.eq(given, (losses, results, epochs), 'the results given to the rule, afterwards')
        for e in epochs: mon.check(not rule.stop_training(e, e, 100), 'the rule of the maximum value stopped the training')
    for wrong in [{}, [], None, {'P': []}, {'P': 3}, [('P', [1])]]:
        try: got = MaxValidationValueRule('P').compute([], wrong, [1])
        except InvalidEpochValidationResultsException: mon.ev('refused')
        else: mon.fail('invalid results were accepted', results=wrong, got=got)
    class Anything(EarlyStoppingRuleABC):
        def _compute_best_epoch(self, *a, **k): return 7
        def stop_training(self, *a, **k): return True
    for wrong in [[], None]:
        try: Anything(wrong)
        except InvalidRequiredValidationMetricsException: pass
        else: mon.fail('a rule without metrics was accepted')
    need = rng.sample(metrics, rng.randint(1, len(metrics)))
    if any('@' in m for m in need): mon.eq(Anything(need).compute(losses, results, epochs), 7, 'rule that requires several metrics')
    try: Anything(need + ['zz']).compute(losses, results, epochs)
    except InvalidEpochValidationResultsException: mon.ev('refused')
    else: mon.fail('a rule was computed without one of its metrics', need=need, results=results)
    mon.state((str(history),))


def run_fit(rng, spec, mon):
    import matplotlib.pyplot as plt
    import tensorflow as tf
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC, InvalidEpochValidationResultsException
    data = model_data(rng, n_users=3, n_items=6)
    ds = load(data, 'mem_df')
    plan, verbose = make_plan(rng), rng.random() < 0.35
    epochs, freq, es_freq = rng.choice([0, 1, 2, 4, 6, 9, 12]), rng.choice([None, 1, 1, 2, 3]), rng.choice([None, 1, 2, 3, 4])
    shape, metric = rng.choice(['random', 'few', 'up', 'down', 'peak']), rng.choice(['A', 'A@5', 'B', 'B@2', 'missing'])
    values = {}
    def value(e):
        if e not in values: values[e] = {'random': rng.uniform(-1, 1), 'few': rng.choice([0.1, 0.2, 0.3]), 'up': e, 'down': -e, 'peak': -abs(e - epochs // 2)}[shape]
        return {'A@5': values[e], 'B': -values[e]}
    stop_at = rng.choice([None, None] + list(range(1, epochs + 1)))
    fail_at = rng.choice([set(), set(), set(range(0, epochs + 1, 2)), set(range(0, 99))])
    offset = rng.randint(0, 3)
    computed = []

    class Custom(EarlyStoppingRuleABC):
        def _compute_best_epoch(self, losses, results, called, **k):
            e = len(losses)
            computed.append((e, 'fails' if e in fail_at else max(0, e - offset), {k: list(v) for k, v in results.items()}, list(called), [float(l) for l in losses]))
            if e in fail_at: raise InvalidEpochValidationResultsException('not now')
            return max(0, e - offset)
        def stop_training(self, current_epoch, best_computed_epoch, target_epoch, **k):
            mon.eq((best_computed_epoch, target_epoch), (max(0, current_epoch - offset), epochs), f'best and last epoch given to the stopping decision of epoch {current_epoch}')
            return stop_at is not None and current_epoch >= stop_at
    custom = rng.random() < 0.5
    rule = Custom(['A@5']) if custom else MaxValidationValueRule(metric)
    model = make_model_class()(plan, verbose=verbose, seed=rng.randint(0, 99))
    seen = []
    def callback(m):
        seen.append(len(m.batches))
        return value(seen[-1])
    args = dict(epochs=epochs, batch_size=rng.randint(1, 4), learning_rate=rng.choice([0.25, 0.05]), early_stopping_rule=rule)
    with_callback = rng.random() < 0.9
    if with_callback: args['epoch_callback_fn'] = callback
    if freq: args['epoch_callback_freq'] = freq
    if es_freq: args['early_stopping_freq'] = es_freq
    mon.log(plan, {k: v for k, v in args.items() if 'fn' not in k and 'rule' not in k}, 'verbose' if verbose else '', 'stop', stop_at, 'fails', fail_at, 'offset', offset, metric, shape)
    try:
        for again in range(rng.choice([1, 1, 2])):
            seen.clear(); computed.clear()
            model.events, model.batches = [], []
            model.fit(ds, **args)
            verify(mon, model, plan, verbose, epochs, freq or 5, es_freq or 5, with_callback, custom, metric, value, stop_at, fail_at, offset, computed, seen, args)
            mon.ev('trained')
        mon.state((str(plan), spec['n']))
    finally:
        plt.close('all')
        close_all([ds])


def verify(mon, model, plan, verbose, epochs, freq, es_freq, with_callback, custom, metric, value, stop_at, fail_at, offset, computed, seen, args):
    # what should have happened
    history = [(0, value(0))] if verbose and with_callback else []
    best, want_computed, done = None, [], 0
    def compute(e):
        nonlocal best
        if custom:
            if not history: return False
            want_computed.append(e)
            if e in fail_at: return False
            best = max(0, e - offset)
            return True
        b = best_of(metric, history)
        if b is None: return False
        best = b
        return True
    for e in range(1, epochs + 1):
        done = e
        if with_callback and e % freq == 0: history.append((e, value(e)))
        if e % es_freq == 0 and compute(e) and custom and stop_at is not None and e >= stop_at: break
    else:
        if done % es_freq != 0: compute(done)
    mon.eq(len(model.batches), done, 'number of epochs of the training')
    mon.eq(seen, [e for e, _ in history], 'epochs at which the callback was called')
    if custom:
        mon.eq([c[0] for c in computed], want_computed, 'epochs at which the rule was computed')
        for e, _, results, called, losses in computed:
            before = [(n, v) for n, v in history if n <= e]
            mon.eq((called, results, len(losses)), ([n for n, _ in before], {'A@5': [v['A@5'] for _, v in before], 'B': [v['B'] for _, v in before]}, e), f'results given to the rule at epoch {e}')
    weights, losses = replay(plan, model.batches, *(('sgd', plan['own_optimizer']) if plan['own_optimizer'] else ('adam', args['learning_rate'])), 0.001)
    if done and all(abs(w).max() < 1e3 for ws in weights for w in ws):
        got = tracker(model)
        if got is not None:
            for n, (a, b, w) in enumerate(zip(got.epoch_losses, losses, weights)):
                if w.sure: mon.close(a, b, f'loss of epoch {n + 1}', tol=2e-3)
            mon.eq(len(got.epoch_losses), done, 'number of losses')
            mon.ev('losses_compared')
        want = done if best is None else best
        same_weights(mon, plan, model.current(), weights[want], f'the model after {done} epochs of {epochs}, the best one being {best}')
        if best is not None and best != done:
            mon.ev('reverted')
            if best == 0: mon.ev('reverted_to_start')
        if best is None: mon.ev('no_best_epoch')
        if done < epochs: mon.ev('stopped')
        mon.eq(len(model.epoch_weights), done + 1, 'number of epochs whose weights are stored')
        for e, entry in enumerate(model.epoch_weights): same_weights(mon, plan, stored(plan, entry), weights[e], f'epoch {e}, as stored')
