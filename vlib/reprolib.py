"""Everything that takes a seed, on generated data: the results must only depend on the arguments."""
import json
import sys

from .data import close_all, load, make_data, rng_of
from .evallib import make_stub, train_test
from .models import DEEP, build, model_data, small_args

MODELS = DEEP + ['UserKNN', 'ItemKNN']
PARTS = ['splits', 'samplers', 'generators', 'evaluation'] + MODELS
ANY_BACKEND = ['splits', 'evaluation', 'UserKNN', 'ItemKNN']  # the random streams of the generators are specific to each backend


def num(x):
    return round(float(x), 5) if x is not None else None


def model_answers(model, users, items):
    out = []
    for u in users:
        out.append([(num(s), i) for s, i in sorted(model.rank(u, items, novelty=False), key=lambda p: repr(p[1]))])
        out.append([num(s) for s, _ in model.recommend(u, n=3)])
    return out


def produce(part, seed, n, kind, perturb=None, extra_threads=0):
    """Results of one part for one case; only kind, perturb and extra_threads may differ between runs that must agree."""
    rng = rng_of('repro', part, seed, n)
    data = (model_data(rng) if part in MODELS else
            make_data(rng, n_users=rng.randint(3, 8), n_items=rng.randint(6, 10), n_rows=rng.randint(12, 16), dups=False, user_kind=rng.choice(['str', 'numstr', 'int', 'nastystr']), item_kind=rng.choice(['str', 'nastystr', 'int']), extra=['timestamp'], inter='stars'))
    ds = load(data, kind)
    out, used = {}, [ds]
    if perturb: perturb()
    try:
        if part == 'splits':
            from DRecPy.Evaluation.Splits import leave_k_out, matrix_split, random_split
            threads = rng.choice([1, 2, 4])
            for name, fn, kw in [('leave_k_out', leave_k_out, dict(k=rng.choice([1, 2, 0.5]), max_concurrent_threads=threads + extra_threads)),
                                 ('matrix_split', matrix_split, dict(user_test_ratio=0.6, item_test_ratio=0.6, max_concurrent_threads=threads + extra_threads)),
                                 ('random_split', random_split, dict(test_ratio=0.3))]:
                for s in (0, rng.randint(1, 10 ** 6)):
                    parts = fn(ds, seed=s, verbose=False, **kw)
                    used += parts
                    out[f'{name} {s}'] = [sorted(p.values_list('rid', to_list=True)) for p in parts]
        elif part == 'samplers':
            from DRecPy.Sampler import ListSampler, PointSampler
            ds.assign_internal_ids()
            p = PointSampler(ds, neg_ratio=1, interaction_threshold=rng.choice([None, 3]), seed=rng.randint(0, 10 ** 6))
            out['PointSampler'] = [list(t) for t in p.sample(10)]
            if perturb: perturb()
            out['PointSampler'] += [list(t) for t in p.sample(10)]
            for group, neg in [('user', 'item'), ('item', 'user')]:
                s = ListSampler(ds, group_columns=[group], neg_ratio=1, n_targets=1, negative_ids_col=neg, min_positive_records=1, max_positive_records=2, seed=rng.randint(0, 10 ** 6))
                try: out['ListSampler ' + group] = [[[r['rid'] for r in a], [r['rid'] for r in b], list(c)] for a, b, c in s.sample_group_records(6)]
                except Exception as e:
                    if 'consecutive tries' not in str(e): raise
                    out['ListSampler ' + group] = 'refused'
        elif part == 'generators':
            ds.assign_internal_ids()
            g = ds.select_random_generator('interaction > 1', seed=rng.randint(0, 10 ** 6))
            out['records'] = []
            for _ in range(15):
                if rng.random() < 0.2 and perturb: perturb()
                out['records'].append(next(g)['rid'])
            g = ds.null_interaction_pair_generator(seed=rng.randint(0, 10 ** 6))
            out['pairs'] = [list(next(g)) for _ in range(15)]
        elif part == 'evaluation':
            from DRecPy.Evaluation.Processes import predictive_evaluation, ranking_evaluation, recommendation_evaluation
            train, test = train_test(rng, outsiders=False)
            a, b = load(train, kind), load(test, kind)
            used += [a, b]
            model = make_stub()(rng.randint(0, 99))
            model.fit(a)
            threads = rng.choice([1, 2, 4]) + extra_threads
            for s in (0, rng.randint(1, 10 ** 6)):
                out[f'ranking {s}'] = ranking_evaluation(model, b, n_pos_interactions=1, n_neg_interactions=3, generate_negative_pairs=True, k=[1, 2], seed=s, interaction_threshold=1, max_concurrent_threads=threads, verbose=False)
                out[f'recommendation {s}'] = recommendation_evaluation(model, b, k=[2, 4], n_pos_interactions=1, interaction_threshold=1, max_concurrent_threads=threads, verbose=False, **({'seed': s} if s else {}))
            out['predictive'] = predictive_evaluation(model, b, verbose=False)
            out = {k: {m: num(v) for m, v in r.items()} for k, r in out.items()}
        else:
            model = build(part, seed=rng.randint(0, 10 ** 6), **small_args(rng, part))
            epochs = rng.randint(0, 3)
            if perturb and part in DEEP:
                inner = model._sample_batch
                def sample_batch(*args, **kw):
                    perturb()
                    return inner(*args, **kw)
                model._sample_batch = sample_batch  # other parts of the program use the global generators during the training
            try: model.fit(ds, epochs=epochs, batch_size=4, neg_ratio=1, learning_rate=0.01)
            except Exception as e:
                if not (part == 'Caser' and 'consecutive tries' in str(e)): raise
                return {part: 'refused'}
            out[part] = model_answers(model, sorted({r['user'] for r in data.rows}), sorted({r['item'] for r in data.rows}))
        return json.loads(json.dumps(out, default=num))
    finally:
        close_all(used)


def main():
    import logging
    import warnings
    warnings.filterwarnings('ignore')
    logging.disable(logging.CRITICAL)
    results = []
    so, sys.stdout = sys.stdout, sys.stderr
    for part, seed, n, kind in json.loads(sys.argv[1]): results.append(produce(part, seed, n, kind))
    so.write(json.dumps(results))


if __name__ == '__main__':
    main()
