"""Small instances of every recommender, and data they can all be fitted on."""
import warnings

from .data import Data, make_ids

DEEP = ['CDAE', 'DMF', 'Caser']


def model_data(rng, n_users=None, n_items=None, id_kinds=('int', 'str', 'nastystr', 'float', 'joined'), min_rows=4, values=(1, 2, 3, 4, 5)):
    """Every user has at least min_rows interactions, without repeated pairs, and distinct timestamps."""
    n_users, n_items = n_users or rng.randint(2, 6), n_items or rng.randint(6, 10)
    users, items = make_ids(rng, rng.choice(id_kinds), n_users), make_ids(rng, rng.choice(id_kinds), n_items)
    while True:  # some pair must have no interaction
        pairs = [(u, i) for u in users for i in rng.sample(items, rng.randint(min_rows, n_items - 1))]
        if len(pairs) < n_users * len({i for _, i in pairs}): break
    rng.shuffle(pairs)
    stamps = rng.sample(range(10, 10 + 4 * len(pairs)), len(pairs))
    cols = ['user', 'item', 'interaction', 'timestamp']
    return Data([dict(zip(cols, (u, i, rng.choice(values), t))) for (u, i), t in zip(pairs, stamps)], cols)


def small_args(rng, name):
    if name == 'CDAE': return dict(hidden_factors=rng.choice([3, 8]), loss=rng.choice(['bce', 'mse']), corruption_level=rng.choice([0.2, 0.5]))
    if name == 'DMF': return dict(user_factors=[8, 4], item_factors=[6, 4], use_nce=rng.random() < 0.7, l2_norm_vectors=rng.random() < 0.5)
    if name == 'Caser': return dict(L=rng.choice([2, 3]), T=1, d=4, n_v=2, n_h=2, dropout_rate=rng.choice([0.0, 0.5]))
    if name.endswith('KNN'): return dict(k=rng.choice([2, 5, 20]), m=rng.choice([0, 1, 2]), sim_metric=rng.choice(['adjusted_cosine', 'cosine', 'cosine_cf', 'jaccard', 'msd', 'pearson']),
                                         aggregation=rng.choice(['mean', 'weighted_mean']), shrinkage=rng.choice([None, 1, 100]), use_averages=rng.random() < 0.5)
    return {}


def build(name, seed=None, **kw):
    warnings.simplefilter('ignore')
    if name == 'Stub':
        from .evallib import make_stub
        return make_stub()(seed or 0, none_rate=0.15, **kw)
    from DRecPy import Recommender
    from DRecPy.Recommender import Baseline
    cls = getattr(Recommender, name, None) or getattr(Baseline, name)
    return cls(verbose=False, seed=seed, **kw)
