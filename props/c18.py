"""C18: every metric equals its definition for any list, cut-off and relevancies, and keeps no memory between calls."""
import threading
from vlib import oracle_metrics as om
from vlib.data import rng_of
from vlib.sched import noisy


def cases(tier, seed):
    for n in range(1600 if tier == 'quick' else 12000):
        yield {'seed': seed, 'n': n}


def make_items(rng):
    kind = rng.choice(['int', 'str', 'float', 'big'])
    n = rng.randint(1, 15)
    if kind == 'int': return rng.sample(range(0, 40), n)
    if kind == 'float': return [x / 2 for x in rng.sample(range(0, 60), n)]
    if kind == 'big': return rng.sample(range(2 ** 53, 2 ** 53 + 40), n)
    return [f'i {x}' for x in rng.sample(range(0, 40), n)]


def plan(rng):
    items = make_items(rng)
    recs = rng.sample(items, rng.randint(1, len(items)))
    if rng.random() < 0.15: recs = rng.choices(recs, k=rng.randint(1, 15))  # an item can be listed twice: found once
    relevant = rng.sample(items, rng.randint(1, len(items)))
    if rng.random() < 0.2: relevant = [i for i in relevant if i not in recs] or relevant
    rel = {i: rng.choice([0, 0, 1, 2, 3, 5, 0.5, rng.randint(0, 80) / 16]) for i in items}
    if rng.random() < 0.1: rel = {i: 0 for i in items}
    best = rng.choice(items)
    k = rng.choice([None, 1, 2, 3, 5, 10, 20, len(recs), rng.randint(1, 16)])
    return recs, relevant, rel, best, k


def value(fn):
    try: return float(fn())
    except ZeroDivisionError: return 'undefined'


def run_case(spec, mon):
    from DRecPy.Evaluation import Metrics as M
    rng = rng_of('C18', spec['seed'], spec['n'])
    betas = [1, 2, 0.5, rng.choice([3, 0.25, 1.5])]
    insts = {'DCG': M.DCG(), 'DCGw': M.DCG(strong_relevancy=False), 'NDCG': M.NDCG(), 'NDCGw': M.NDCG(strong_relevancy=False),
             'HitRatio': M.HitRatio(), 'ReciprocalRank': M.ReciprocalRank(), 'Recall': M.Recall(), 'Precision': M.Precision(),
             'AveragePrecision': M.AveragePrecision(), **{f'FScore{b}': M.FScore(beta=b) for b in betas}}
    for name, m in insts.items():
        mon.check(name.startswith(m.name) and m.name.isalpha(), 'name of a metric', name=m.name, cls=name)
    jobs = []
    for _ in range(12):
        recs, relevant, rel, best, k = plan(rng)
        for name, m in insts.items():
            if name.startswith('DCG'): call, want = (lambda m=m, a=(recs, k, rel): m(a[0], k=a[1], relevancies=a[2])), lambda a=(recs, rel, k), s=name == 'DCG': om.dcg(*a, strong=s)
            elif name.startswith('NDCG'): call, want = (lambda m=m, a=(recs, k, rel): m(a[0], k=a[1], relevancies=a[2])), lambda a=(recs, rel, k), s=name == 'NDCG': om.ndcg(*a, strong=s)
            elif name == 'ReciprocalRank': call, want = (lambda m=m, a=(recs, k, best): m(a[0], k=a[1], relevant_recommendation=a[2])), lambda a=(recs, best, k): om.reciprocal_rank(*a)
            else:
                fn = {'HitRatio': om.hit_ratio, 'Recall': om.recall, 'Precision': om.precision, 'AveragePrecision': om.average_precision}.get(name)
                if fn is None: fn = (lambda r, v, k, b=m.beta: om.fscore(r, v, k, b))
                call, want = (lambda m=m, a=(recs, k, relevant): m(a[0], k=a[1], relevant_recommendations=a[2])), lambda a=(recs, relevant, k), fn=fn: fn(*a)
            snap = (list(recs), list(relevant), dict(rel))
            got, exp = value(call), value(want)
            mon.check(got == exp or (got != 'undefined' and exp != 'undefined' and abs(got - exp) <= 1e-9 * max(1, abs(exp))),
                      f'{name} differs from its definition', got=got, want=exp, recommendations=recs, relevant=relevant, relevancies=rel, best=best, k=k)
            mon.eq((recs, relevant, rel), snap, f'{name} modified its arguments')
            if got != 'undefined' and name not in ('DCG', 'DCGw') and not ('NDCG' in name and len(set(recs)) < len(recs)):
                mon.check(-1e-12 <= got <= 1 + 1e-9, f'{name} is outside [0, 1]', got=got, recommendations=recs, relevant=relevant, relevancies=rel, k=k)
            mon.ev('metric_values')
            if len(set(recs)) < len(recs): mon.ev('repeated_items')
            mon.ev(name.rstrip('.0123456789'))
            jobs.append((name, call, got))
        mon.state((recs, relevant, k, best))
    # the same instance, called again in another order and by several threads, gives the same values
    for name, call, got in rng.sample(jobs, 30): mon.eq(value(call), got, f'{name} gave another value when called again')
    if spec['n'] % 8 == 0:
        bad = []
        def work(mine):
            for name, call, got in mine:
                v = value(call)
                if v != got: bad.append((name, v, got))
        ts = [threading.Thread(target=work, args=(rng.sample(jobs, len(jobs)),)) for _ in range(4)]
        with noisy(rng_of('noise', spec['seed'], spec['n']), mon):
            for t in ts: t.start()
            for t in ts: t.join()
        mon.check(not bad, 'a metric gave another value when called from several threads', bad=bad[:3])
        mon.ev('threads')
    for _ in range(4):
        n = rng.randint(1, 30)
        t, p = [rng.randint(-80, 80) / 16 for _ in range(n)], [rng.uniform(-6, 6) for _ in range(n)]
        for m, fn in [(M.MSE(), om.mse), (M.RMSE(), om.rmse), (M.MAE(), om.mae)]:
            mon.close(m(t, p), fn(t, p), f'{m.name} differs from its definition', y_true=t, y_pred=p)
            mon.ev('regression_values')
    mon.sample({'recommendations': recs, 'relevant': relevant, 'k': k})
