"""A recommender with known scores, and generated train and test data, for the evaluation processes."""
import hashlib
import math
import random
import threading
import time

from .data import Data, KINDS, Ref, load, make_data


def score_of(salt, user, item):
    h = hashlib.blake2b(repr((salt, user, item)).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') / 2 ** 64 * 6


def make_stub():
    from DRecPy.Recommender import RecommenderABC

    class Stub(RecommenderABC):
        """Scores are a fixed function of the raw ids. Records the calls of the public methods and can delay or fail."""
        def __init__(self, salt, none_rate=0.0, delay=0.0, fail_users=(), levels=False, **kw):
            super().__init__(verbose=False, **kw)
            self.levels = levels  # few different scores, among them 0 and negative ones
            self.salt, self.none_rate, self.delay, self.fail_users = salt, none_rate, delay, set(fail_users)
            self.calls, self.lock, self.drng = [], threading.Lock(), random.Random(repr(salt))

        def _pre_fit(self, *a, **kw): pass
        def _sample_batch(self, *a, **kw): pass
        def _predict_batch(self, *a, **kw): pass
        def _compute_batch_loss(self, *a, **kw): pass

        def truth(self, user, item):
            s = score_of(self.salt, user, item)
            if score_of((self.salt, 'none'), user, item) < 6 * self.none_rate: return None
            if self.levels: return round(s) - 3
            return s

        def _predict(self, uid, iid, **kw):
            user, item = self.interaction_dataset.uid_to_user(uid), self.interaction_dataset.iid_to_item(iid)
            if user in self.fail_users: raise RuntimeError(f'injected failure for {user!r}')
            if self.delay and self.drng.random() < 0.3: time.sleep(self.drng.random() * self.delay)
            return self.truth(user, item)

        def _note(self, kind, user, arg, kw):
            with self.lock: self.calls.append((kind, user, arg, dict(kw), threading.get_ident()))

        def predict(self, user_id, item_id, *a, **kw):
            self._note('predict', user_id, item_id, kw)
            return super().predict(user_id, item_id, *a, **kw)

        def rank(self, user_id, item_ids, *a, **kw):
            item_ids = list(item_ids)
            self._note('rank', user_id, item_ids, kw)
            return super().rank(user_id, item_ids, *a, **kw)

        def recommend(self, user_id, *a, **kw):
            self._note('recommend', user_id, None, kw)
            return super().recommend(user_id, *a, **kw)
    return Stub


def train_test(rng, n_users=None, n_items=None, unique_values=False, outsiders=True):
    """Train and test data without repeated pairs; the test data may have users and items unknown to the train data."""
    data = make_data(rng, n_users=n_users or rng.randint(2, 8), n_items=n_items or rng.randint(3, 14), n_rows=rng.randint(8, 70), dups=False, extra=[])
    rows = data.rows
    if unique_values:
        for n, r in enumerate(rng.sample(rows, len(rows))): r['interaction'] = (n + 1) / 16
    train, test = [], []
    for r in rows: (test if rng.random() < 0.4 else train).append(r)
    if not train or not test:
        train, test = rows[::2] or rows, rows[1::2] or rows
    if not outsiders:
        users, items = {r['user'] for r in train}, {r['item'] for r in train}
        test = [r for r in test if r['user'] in users and r['item'] in items] or train[:1]
    return Data(train, data.columns), Data(test, data.columns)


def load_pair(rng, train, test, kinds=None):
    kinds = kinds or (rng.choice(KINDS), rng.choice(KINDS))
    return load(train, kinds[0]), load(test, kinds[1]), kinds


def by(rows, col='user'):
    out = {}
    for r in rows: out.setdefault(r[col], []).append(r)
    return out


def near4(got, want):
    """A mean rounded to 4 decimals."""
    try: return abs(float(got) - want) <= 0.5e-4 + 1e-9 + 1e-9 * abs(want)
    except (TypeError, ValueError): return False
