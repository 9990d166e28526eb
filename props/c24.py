"""C24: similarity and aggregation functions equal their definitions on any sparse matrix."""
import warnings
from vlib import oracle_knn as ok
from vlib.data import rng_of
from vlib.sched import FailFirst


def cases(tier, seed):
    for n in range(2000 if tier == 'quick' else 12000):
        yield {'seed': seed, 'n': n}


def run_case(spec, mon):
    import numpy as np
    from scipy.sparse import coo_matrix, csr_matrix, lil_matrix
    from DRecPy.Recommender.Baseline import aggregation, similarity
    warnings.simplefilter('ignore')
    fns = {'cosine': similarity.cosine_sim, 'cosine_cf': similarity.cosine_sim_cf, 'adjusted_cosine': similarity.adjusted_cosine_sim,
           'jaccard': similarity.jaccard_sim, 'pearson': similarity.pearson_corr, 'msd': similarity.msd}
    rng = rng_of('C24', spec['seed'], spec['n'])
    n, m = rng.randint(1, 9), rng.randint(1, 9)
    vals = rng.choice([[1, 2, 3, 4, 5], [1], [-3, -2, -1, 1, 2, 3], [0.5, 1.5, 2.25, 4.0, 4.5], list(range(1, 40))])
    dens = rng.choice([0.2, 0.5, 0.8, 1.0])
    rows = [{c: rng.choice(vals) for c in rng.sample(range(m), m) if rng.random() < dens} for _ in range(n)]
    if rng.random() < 0.3 and n > 1: rows[rng.randrange(n)] = dict(rows[rng.randrange(n)])
    if not any(rows): return
    mon.log(rows)
    coords = [(i, c, v) for i, r in enumerate(rows) for c, v in r.items()]
    rng.shuffle(coords)
    base = csr_matrix(([v for _, _, v in coords], ([i for i, _, _ in coords], [c for _, c, _ in coords])), shape=(n, m))
    form = rng.choice(['csr', 'csr', 'lil', 'dense', 'coo'])
    arg = {'csr': base, 'lil': lil_matrix(base), 'dense': base.toarray(), 'coo': coo_matrix(base)}[form]
    ctx = ok.span(rows, m)
    for name, fn in fns.items():
        before = base.toarray()
        if name == 'jaccard' and rng.random() < 0.4:  # what does not fit in memory at once is computed pair by pair
            with FailFirst(csr_matrix, rng.choice(['_matmul_dispatch', 'dot']), MemoryError('on purpose')) as fault: out = fn(arg)
            if fault.hits: mon.ev('sim_jaccard_scarce_memory')
        else: out = fn(arg)
        mon.eq((arg.toarray() if hasattr(arg, 'toarray') else arg).tolist(), before.tolist(), f'{name} modified the given matrix')
        if name != 'pearson': mon.eq(tuple(out.shape), (n, n), f'shape of the {name} similarities of {n} rows')
        else: mon.check(out.shape[0] == out.shape[1] <= n, f'shape of the pearson similarities of {n} rows', got=out.shape)
        got = np.zeros((n, n))  # the Pearson matrix may leave out trailing rows without similarity (pinned by test_pearson_corr_2)
        got[:out.shape[0], :out.shape[1]] = out.todense()
        for i in range(n):
            for j in range(n):
                g, w = float(got[i, j]), ok.SIMS[name](rows[i], rows[j], ctx)
                if not rows[i] or not rows[j]: mon.check(not g > 0, f'{name} similarity with an empty row', got=g)
                else:
                    mon.check(abs(g - w) <= 1e-7 * max(1, abs(w)), f'{name} similarity differs from its definition', got=g, want=w, a=rows[i], b=rows[j], form=form)
                    if name != 'msd': mon.check(-1 - 1e-9 <= g <= 1 + 1e-9, f'{name} similarity out of range', got=g)
        mon.ev('sim_' + name)
        mon.ev('similarities', n * n)
    mon.state((rows, form))
    for _ in range(4):
        k = rng.randint(0, 8)
        xs, ss = [rng.choice(vals) for _ in range(k)], [rng.choice([0.25, 0.5, 1, rng.random() + 0.01]) for _ in range(k)]
        if rng.random() < 0.1: ss = [0] * k
        for fn, want in [(aggregation.mean, ok.mean(xs, ss)), (aggregation.weighted_mean, ok.weighted_mean(xs, ss))]:
            mon.close(fn(list(xs), list(ss)), want, f'{fn.__name__} of interactions', interactions=xs, similarities=ss)
            mon.ev('aggregations')
    mon.sample({'rows': rows[:3], 'form': form})
