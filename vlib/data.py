"""Generated data, loaders for every kind of dataset, and the reference model (a plain list of rows)."""
import csv
import itertools
import math
import os
import random

WORK = os.environ.get('VERIF_WORK', '/tmp')
_counter = itertools.count()

ID_KINDS = ['int', 'int', 'bigint', 'str', 'str', 'numstr', 'nastystr', 'float', 'joined']
NASTY = ["O'Brien", 'a b', 'x,y', 'user', 'item', 'interaction', 'Zoë', '日本', '-dash', 'semi;colon', 'it''s "q"', '%', '_',
         'SELECT', 'a==b', '>', 'a, b', "''", 'tab\tx', 'ß', 'AND', 'rid', '(1)', '1e5x', 'A', 'a', 'aa', 'Aa', 'é', '12_34', '1_000', '5_6.5', '٣', 'two\nlines']


def scratch(suffix=''):
    return os.path.join(WORK, f'f{os.getpid()}_{next(_counter)}{suffix}')


def make_ids(rng, kind, n):
    if kind == 'int':
        return rng.sample(range(0, max(60, 4 * n)), n)
    if kind == 'bigint':
        base = rng.choice([2 ** 53 - 5, 2 ** 60, 10 ** 12, -50])
        return rng.sample(range(base, base + 3 * n + 3), n)
    if kind == 'str':
        return [f'{rng.choice("uvwxyz")}{rng.choice("abc")}{i}' for i in range(n)]
    if kind == 'numstr':
        return [f'id{i:03d}' for i in rng.sample(range(0, 999), n)]
    if kind == 'joined':
        return [f'{a}{rng.choice(["_", "_", ".5_"])}{b}' for a, b in zip(rng.sample(range(1, max(99, 2 * n)), n), rng.choices(range(999), k=n))]
    if kind == 'nastystr':
        base = rng.sample(NASTY, min(n, len(NASTY)))
        return base + [f'n {i}' for i in range(n - len(base))]
    if kind == 'float':
        return [i / 2 + 0.25 for i in rng.sample(range(0, 8 * n + 8), n)]
    raise ValueError(kind)


class Data:
    """Generated rows. rows: list of dicts with the given columns (no rid)."""
    def __init__(self, rows, columns):
        self.rows, self.columns = rows, columns

    def spec(self):
        return {'columns': self.columns, 'rows': [[r[c] for c in self.columns] for r in self.rows]}

    def write_csv(self, path=None, delimiter=',', header=False, encoding='utf8', skip_col=None):
        path = path or scratch('.csv')
        with open(path, 'w', encoding=encoding, newline='') as f:
            if len(delimiter) == 1:
                w = csv.writer(f, delimiter=delimiter, lineterminator='\n')
                if header: w.writerow(self.columns)
                for r in self.rows: w.writerow([fmt(r[c]) for c in self.columns])
            else:
                if header: f.write(delimiter.join(self.columns) + '\n')
                for r in self.rows: f.write(delimiter.join(fmt(r[c]) for c in self.columns) + '\n')
        return path


def fmt(v):
    return repr(v) if isinstance(v, float) else str(v)


def make_data(rng, n_users=None, n_items=None, n_rows=None, user_kind=None, item_kind=None, extra=None, dups=None,
              inter=None, order=None):
    n_users = n_users or rng.randint(1, 9)
    n_items = n_items or rng.randint(1, 12)
    user_kind = user_kind or rng.choice(ID_KINDS)
    item_kind = item_kind or rng.choice(ID_KINDS)
    users, items = make_ids(rng, user_kind, n_users), make_ids(rng, item_kind, n_items)
    all_pairs = [(u, i) for u in users for i in items]
    n_rows = n_rows or rng.randint(1, min(len(all_pairs), 45))
    n_rows = max(1, min(n_rows, len(all_pairs)))
    if dups is None: dups = rng.random() < 0.35
    pairs = rng.sample(all_pairs, n_rows)
    if dups: pairs += [rng.choice(pairs) for _ in range(rng.randint(1, 6))]
    order = order or rng.choice(['random', 'user', 'item'])
    if order == 'user': pairs.sort(key=lambda p: users.index(p[0]))
    elif order == 'item': pairs.sort(key=lambda p: items.index(p[1]))
    inter = inter or rng.choice(['stars', 'stars', 'half', 'binary', 'signed', 'float'])
    def val():
        if inter == 'stars': return rng.randint(1, 5)
        if inter == 'half': return rng.randint(0, 10) / 2
        if inter == 'binary': return rng.randint(0, 1)
        if inter == 'signed': return rng.randint(-3, 3)
        return rng.randint(-16, 80) / 16
    if extra is None: extra = rng.choice([[], [], ['timestamp'], ['timestamp', 'label'], ['label'], ['weight']])
    columns = ['user', 'item', 'interaction']
    if rng.random() < 0.3: rng.shuffle(columns)
    columns = columns + list(extra)
    if extra and rng.random() < 0.2: rng.shuffle(columns)
    first, step = rng.choice([10, 10, 960, -60, 1500000000, 1500000000123]), rng.choice([1, 1, 1, 37, 90001])
    stamps = [first + step * n for n in rng.sample(range(5 * len(pairs)), len(pairs))]
    if rng.random() < 0.15: stamps = [t + rng.randint(0, 3) / 4 for t in stamps]
    heavy = rng.choice([48, 48, 2 ** 24, 2 ** 36])
    rows = []
    for n, (u, i) in enumerate(pairs):
        r = {'user': u, 'item': i, 'interaction': val()}
        for e in extra:
            if e == 'timestamp': r[e] = stamps[n] if rng.random() < 0.8 else stamps[0]
            elif e == 'label': r[e] = rng.choice(['red', 'green', 'dark blue', "o'x", 'a,b'])
            elif e == 'weight': r[e] = rng.randint(0, heavy) / 16
        rows.append({c: r[c] for c in columns})
    # the first value of a column must show its type (types are inferred from the file)
    return Data(rows, columns)


def load(data, kind, **kw):
    """kind: mem_csv, mem_df, db_csv, db_sqlite."""
    from DRecPy.Dataset import InteractionDataset
    if kind == 'mem_df':
        import pandas as pd
        return InteractionDataset.read_df(pd.DataFrame([[r[c] for c in data.columns] for r in data.rows],
                                                       columns=data.columns), verbose=False)
    delimiter = kw.pop('delimiter', ',')
    path = data.write_csv(delimiter=delimiter, header=kw.get('has_header', False))
    try:
        ds = InteractionDataset(path, columns=list(data.columns), delimiter=delimiter, verbose=False,
                                in_memory=kind.startswith('mem'), **kw)
    finally:
        os.remove(path)
    if kind == 'db_sqlite':
        sp = scratch('.sqlite')
        ds.save(sp)
        ds.close()
        ds = InteractionDataset(sp, verbose=False)
        ds._verif_path = sp
    return ds


KINDS = ['mem_csv', 'mem_df', 'db_csv', 'db_sqlite']

OPS = {'>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def qtext(conds, rng=None):
    """Text of a query from a list of (column, operator, value)."""
    parts = []
    for c, o, v in conds:
        lit = repr(v)
        if isinstance(v, str) and rng is not None and rng.random() < 0.3 and '"' not in v and '\\' not in lit:
            lit = '"' + v + '"'
        parts.append(f'{c} {o} {lit}')
    return (', ' if rng is None or rng.random() < 0.7 else ',').join(parts)


class Ref:
    """Reference model of a dataset: a list of rows, each one a dict that includes its record id."""
    def __init__(self, rows, columns, ids=None):
        self.rows, self.columns, self.ids = rows, list(columns), ids  # ids: (user->uid, item->iid) or None

    @staticmethod
    def of(data):
        return Ref([dict(r, rid=n) for n, r in enumerate(data.rows)], data.columns + ['rid'])

    def copy(self):
        return Ref([dict(r) for r in self.rows], self.columns, self.ids)

    def filt(self, conds):
        return Ref([r for r in self.rows if all(OPS[o](r[c], v) for c, o, v in conds)], self.columns, self.ids)

    def unique(self, columns):
        seen, out = set(), []
        for r in sorted(self.rows, key=lambda r: r['rid']):
            k = tuple(r[c] for c in columns)
            if k not in seen:
                seen.add(k)
                out.append(r)
        cols = list(columns) + ([] if 'rid' in columns else ['rid'])
        return Ref([{c: r[c] for c in cols} for r in out], cols, self.ids)

    def drop(self, rids, keep=False):
        rids = set(rids)
        return Ref([r for r in self.rows if (r['rid'] in rids) == keep], self.columns, self.ids)

    def apply(self, column, fn):
        return Ref([dict(r, **{column: fn(r[column])}) for r in self.rows], self.columns, self.ids)

    def with_ids(self, umap, imap):
        cols = self.columns + [c for c in ('uid', 'iid') if c not in self.columns]
        return Ref([dict(r, uid=umap[r['user']], iid=imap[r['item']]) for r in self.rows], cols, (umap, imap))

    def without_ids(self):
        cols = [c for c in self.columns if c not in ('uid', 'iid')]
        return Ref([{c: r[c] for c in cols} for r in self.rows], cols, None)

    def tup(self, columns=None):
        cols = columns or sorted(self.columns)
        return sorted((tuple(r[c] for c in cols) for r in self.rows), key=repr_key)


def repr_key(t):
    return tuple((type(x).__name__ if isinstance(x, str) else 'n', x) for x in t)


def real_tup(ds, columns=None):
    """The rows of a real dataset, as a canonical sorted list of tuples."""
    cols = columns or sorted(ds.columns)
    out = []
    for r in ds.values_list():
        out.append(tuple(r[c] for c in cols))
    return sorted(out, key=repr_key)


def check_same(mon, ds, ref, what):
    """Compares everything observable of a dataset with its reference."""
    mon.eq(sorted(ds.columns), sorted(ref.columns), f'{what}: columns differ')
    mon.eq(len(ds), len(ref.rows), f'{what}: number of rows differs')
    got, want = real_tup(ds), ref.tup()
    if got != want:
        missing = [w for w in want if w not in got][:4]
        extra = [g for g in got if g not in want][:4]
        mon.fail(f'{what}: rows differ from the reference', columns=sorted(ref.columns), missing=missing, extra=extra,
                 n_got=len(got), n_want=len(want))
    mon.checks += 1


def pyval(v):
    return v.item() if hasattr(v, 'item') else v


def force_db_optimisation(rng):
    """Makes the out of memory datasets compact their state under different (tuning only) thresholds."""
    from DRecPy.Dataset.db_dataset import DatabaseInteractionDataset as DB
    mode = rng.choice(['default', 'default', 'eager', 'eager1', 'direct', 'never'])
    vals = {'default': (0.8, 3, 5000, 4), 'eager': (1.1, 1, 0, 1), 'eager1': (1.1, 2, 1, 2), 'direct': (0.8, 3, 5000, 1),
            'never': (0.0, 10 ** 6, 10 ** 9, 10 ** 9)}[mode]
    DB._opt_ratio_threshold, DB._opt_n_query_threshold, DB._opt_n_rows_threshold, \
        DB._opt2_n_direct_interactions_threshold = vals
    return mode


def reset_db_optimisation():
    from DRecPy.Dataset.db_dataset import DatabaseInteractionDataset as DB
    DB._opt_ratio_threshold, DB._opt_n_query_threshold, DB._opt_n_rows_threshold, \
        DB._opt2_n_direct_interactions_threshold = 0.8, 3, 5000, 4


def close_all(*dss):
    for ds in dss:
        if ds is not None and hasattr(ds, 'close'):
            try:
                ds.close()
            except Exception:
                pass
        p = getattr(ds, '_verif_path', None)
        if p and os.path.exists(p):
            os.remove(p)


def rng_of(*parts):
    return random.Random(repr(parts))


def is_finite(x):
    try:
        return math.isfinite(float(x))
    except (TypeError, ValueError):
        return False
