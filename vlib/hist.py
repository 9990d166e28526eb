"""Random histories of dataset operations, executed on a real dataset and on the reference model side by side."""
import gc
import os

from .data import Ref, check_same, close_all, force_db_optimisation, load, make_data, pyval, qtext, repr_key, real_tup

READ_ONLY = ('rid', 'uid', 'iid', 'user', 'item')

NUM_FNS = [('x*2+1', lambda x: x * 2 + 1), ('0-x', lambda x: 0 - x), ('x/2', lambda x: x / 2), ('x>1', lambda x: 1 if x > 1 else 0),
           ('float(x)', lambda x: float(x)), ('v%g', lambda x: 'v%g' % x), ('x+10', lambda x: x + 10)]
STR_FNS = [('upper', lambda s: s.upper()), ('len', lambda s: len(s)), ('+x', lambda s: s + ' x'), ("+q", lambda s: s + "'")]


class Node:
    def __init__(self, ds, ref, name):
        self.ds, self.ref, self.name = ds, ref, name
        self.gens = []  # open value generators: (generator, columns, expected remaining rows by rid)


def rand_conds(rng, ref, n=None):
    conds = []
    cols = [c for c in ref.columns]
    for _ in range(n or rng.choice([1, 1, 1, 2, 2, 3])):
        c = rng.choice(cols)
        vals = [r[c] for r in ref.rows]
        if vals and rng.random() < 0.85: v = rng.choice(vals)
        elif vals and isinstance(vals[0], str): v = rng.choice(['zz', 'a', 'b b', "q'", 'x,y', 'M'])
        elif vals: v = rng.choice([rng.randint(-2, 8), vals[0] + 1])
        else: return None
        v = pyval(v)
        if c not in ('user', 'item', 'rid', 'uid', 'iid') and isinstance(v, (int, float)) and rng.random() < 0.25:
            v = rng.choice([v + 0.5, float(v), int(v)])
        ops = ['==', '!=', '>', '>=', '<', '<='] if rng.random() < 0.7 else ['==', '==', '!=']
        conds.append((c, rng.choice(ops), v))
    return conds


def rows_from(records, columns, to_list, mon, what):
    """Normalises records to tuples, checking the shape they were promised to have."""
    out = []
    for r in records:
        if to_list:
            if len(columns) == 1: out.append((r,))
            else:
                mon.check(isinstance(r, (list, tuple)) and len(r) == len(columns), f'{what}: record is not a list of {len(columns)} values', record=r)
                out.append(tuple(r))
        else:
            mon.check(isinstance(r, dict) and sorted(r) == sorted(columns), f'{what}: record does not have the requested columns', record=r, columns=columns)
            out.append(tuple(r[c] for c in columns))
    return out


class History:
    def __init__(self, rng, mon, kind, weights, max_live=5, check_all=0.15, data=None, mode=None):
        self.rng, self.mon, self.kind, self.weights, self.max_live, self.check_all = rng, mon, kind, weights, max_live, check_all
        self.mode = force_db_optimisation(rng) if mode is None else mode
        self.data = data or make_data(rng)
        opts = {}
        if kind == 'db_csv' and rng.random() < 0.4: opts['chunksize'] = rng.choice([1, 2, 3, 7])
        if kind.startswith('db') and kind != 'db_sqlite' and rng.random() < 0.3:
            opts.update(user_vec_cache_limit=rng.choice([0, 1]), item_vec_cache_limit=rng.choice([0, 1]))
        self.nodes = [Node(load(self.data, kind, **opts), Ref.of(self.data), 'd0')]
        self.paths = [getattr(self.nodes[0].ds, '_verif_path', None)]
        self.n = 1
        self.group = [self]  # histories that run in the same process at the same time
        mon.log(f'load {kind} mode={self.mode} opts={opts} rows={self.data.spec()}')

    def name(self):
        self.n += 1
        return f'd{self.n - 1}'

    def open_gens(self):
        return any(n.gens for h in self.group for n in h.nodes)

    def add(self, ds, ref, parent, op):
        node = Node(ds, ref, self.name())
        self.mon.log(f'{node.name} = {parent.name}.{op}')
        self.nodes.append(node)
        if len(self.nodes) > self.max_live:
            victim = self.rng.choice(self.nodes[:-1])
            self.drop_node(victim)
        return node

    def drop_node(self, victim):
        self.mon.log(f'forget {victim.name}')
        self.nodes.remove(victim)
        victim.gens = []
        if self.rng.random() < 0.5 and hasattr(victim.ds, 'close') and len(self.nodes) > 0:
            victim.ds.close()
            self.mon.ev('closed')
        victim.ds = None
        self.mon.ev('released')

    def verify(self, node, what):
        check_same(self.mon, node.ds, node.ref, f'{node.name} after {what}')
        self.mon.ev('full_compare')
        self.mon.state((self.kind, self.mode, sorted(node.ref.columns), node.ref.tup()))

    def verify_all(self, what):
        for n in self.nodes:
            self.verify(n, what)

    def step(self):
        rng = self.rng
        node = rng.choice(self.nodes)
        op = rng.choices(list(self.weights), list(self.weights.values()))[0]
        fn = getattr(self, 'op_' + op)
        done = fn(node)
        if done is False: return False
        self.mon.ev('op_' + op)
        if rng.random() < self.check_all: self.verify_all(op)
        return True

    # ---- derivations -------------------------------------------------------------------------------------------
    def op_select(self, node):
        conds = rand_conds(self.rng, node.ref)
        if conds is None: return False
        q = qtext(conds, self.rng)
        inplace = self.rng.random() < 0.35
        self.mon.log(f'{node.name}.select({q!r}, copy={not inplace})')
        ref = node.ref.filt(conds)
        ds = node.ds.select(q, copy=not inplace) if inplace or self.rng.random() < 0.5 else node.ds.select(q)
        self.finish(node, ds, ref, inplace, f'select({q!r})')

    def finish(self, node, ds, ref, inplace, op):
        if inplace:
            node.gens = []  # what an open generator yields after its dataset changed in place is unspecified
            node.ref = ref
            if ds is not node.ds:  # the dataset itself must have changed, and what was returned must be that data too
                self.verify(node, op + ' in place')
                self.add(ds, ref.copy(), node, op + ' in place')
            self.mon.ev('in_place')
            if self.rng.random() < 0.6: self.verify(node, op)
        else:
            new = self.add(ds, ref, node, op)
            if self.rng.random() < 0.6: self.verify(new, op)
        if self.rng.random() < 0.3 and node in self.nodes: self.verify(node, op)

    def op_unique(self, node):
        rng = self.rng
        cols = rng.sample(node.ref.columns, rng.randint(1, len(node.ref.columns)))
        if rng.random() < 0.5: cols = [rng.choice(node.ref.columns)]
        if 'uid' in node.ref.columns and (('uid' in cols) != ('iid' in cols)) and rng.random() < 0.5:
            cols = [c for c in cols if c not in ('uid', 'iid')] or ['user' if 'user' in node.ref.columns else cols[0]]
        arg = cols[0] if len(cols) == 1 and rng.random() < 0.5 else list(cols)
        before = list(arg) if isinstance(arg, list) else arg
        inplace = rng.random() < 0.2
        self.mon.log(f'{node.name}.unique({arg!r}, copy={not inplace})')
        ref = node.ref.unique(cols)
        ds = node.ds.unique(arg, copy=not inplace)
        self.mon.eq(arg, before, 'unique() modified the list of columns of the caller')
        self.finish(node, ds, ref, inplace, f'unique({arg!r})')

    def op_drop(self, node):
        rng = self.rng
        rids = [r['rid'] for r in node.ref.rows]
        picked = rng.sample(rids, rng.randint(0, len(rids)))
        if rng.random() < 0.3: picked.append(10 ** 6)
        rng.shuffle(picked)
        keep, inplace = rng.random() < 0.5, rng.random() < 0.3
        self.mon.log(f'{node.name}.drop({picked}, copy={not inplace}, keep={keep})')
        ref = node.ref.drop(picked, keep)
        ds = node.ds.drop(list(picked), copy=not inplace, keep=keep)
        self.finish(node, ds, ref, inplace, f'drop({picked}, keep={keep})')

    def op_copy(self, node):
        ds = node.ds.copy()
        self.finish(node, ds, node.ref.copy(), False, 'copy()')

    def op_apply(self, node):
        rng = self.rng
        cols = [c for c in node.ref.columns if c not in READ_ONLY]
        if not cols or not node.ref.rows or self.open_gens(): return False  # writes need the shared file
        c = rng.choice(cols)
        name, fn = rng.choice(STR_FNS if isinstance(node.ref.rows[0][c], str) else NUM_FNS)
        self.mon.log(f'{node.name}.apply({c!r}, {name})')
        node.ds.apply(c, fn)
        node.ref = node.ref.apply(c, fn)
        if rng.random() < 0.7: self.verify(node, f'apply({c}, {name})')

    def op_ids(self, node):
        if 'user' not in node.ref.columns or 'item' not in node.ref.columns or not node.ref.rows or self.open_gens(): return False
        self.mon.log(f'{node.name}.assign_internal_ids()')
        node.ds.assign_internal_ids()
        umap = {r['user']: r['uid'] for r in node.ds.values_list(['user', 'uid'])}
        imap = {r['item']: r['iid'] for r in node.ds.values_list(['item', 'iid'])}
        self.mon.check(sorted(umap.values()) == list(range(len({r['user'] for r in node.ref.rows}))),
                       'user internal ids are not consecutive and unique', umap=umap)
        self.mon.check(sorted(imap.values()) == list(range(len({r['item'] for r in node.ref.rows}))),
                       'item internal ids are not consecutive and unique', imap=imap)
        node.ref = node.ref.with_ids(umap, imap)
        self.verify(node, 'assign_internal_ids()')

    def op_noids(self, node):
        if node.ref.ids is None or 'uid' not in node.ref.columns or 'iid' not in node.ref.columns: return False
        self.mon.log(f'{node.name}.remove_internal_ids()')
        node.gens = []  # changed in place
        node.ds.remove_internal_ids()
        node.ref = node.ref.without_ids()
        self.verify(node, 'remove_internal_ids()')

    # ---- reads -------------------------------------------------------------------------------------------------
    def op_values(self, node):
        rng, ref = self.rng, node.ref
        cols = rng.sample(ref.columns, rng.randint(1, len(ref.columns))) if rng.random() < 0.7 else None
        to_list = rng.random() < 0.5
        arg = cols[0] if cols and len(cols) == 1 and rng.random() < 0.5 else cols
        self.mon.log(f'{node.name}.values({arg!r}, to_list={to_list})')
        recs = node.ds.values_list(arg, to_list=to_list) if rng.random() < 0.5 else list(node.ds.values(columns=arg, to_list=to_list))
        if cols is None and to_list: cols = list(node.ds.columns)
        cols = cols or ref.columns
        got = rows_from(recs, cols, to_list, self.mon, 'values')
        self.mon.eq(sorted(got, key=repr_key), ref.tup(cols), f'{node.name}.values({cols}) differs from the reference')

    def op_aggr(self, node):
        rng, ref, ds = self.rng, node.ref, node.ds
        c = rng.choice(ref.columns)
        self.mon.log(f'{node.name} aggregates of {c}')
        self.mon.eq(len(ds), len(ref.rows), f'{node.name}: len')
        vals = [r[c] for r in ref.rows]
        cols = rng.sample(ref.columns, rng.randint(1, min(3, len(ref.columns))))
        self.mon.eq(ds.count_unique(cols if len(cols) > 1 or rng.random() < 0.5 else cols[0]),
                    len({tuple(r[k] for k in cols) for r in ref.rows}), f'{node.name}.count_unique({cols})')
        if vals:
            self.mon.eq(pyval(ds.max(c)), max(vals), f'{node.name}.max({c!r})')
            self.mon.eq(pyval(ds.min(c)), min(vals), f'{node.name}.min({c!r})')

    def op_one(self, node):
        rng, ref = self.rng, node.ref
        conds = rand_conds(rng, ref)
        if conds is None: return False
        q = qtext(conds, rng)
        matches = ref.filt(conds).rows
        cols = rng.sample(ref.columns, rng.randint(1, len(ref.columns))) if rng.random() < 0.6 else None
        to_list = rng.random() < 0.5
        self.mon.log(f'{node.name}.select_one({q!r}, {cols}, to_list={to_list})')
        rec = node.ds.select_one(q, columns=cols, to_list=to_list)
        if cols is None: cols = list(node.ds.columns)
        if rec is None:
            self.mon.check(not matches, f'{node.name}.select_one({q!r}) found nothing although rows match', matches=matches[:3])
        else:
            got = rows_from([rec], cols, to_list, self.mon, 'select_one')[0]
            self.mon.check(got in [tuple(r[c] for c in cols) for r in matches],
                           f'{node.name}.select_one({q!r}) returned a row that does not match', got=got, matches=matches[:3])
        self.mon.eq(bool(node.ds.exists(q)), bool(matches), f'{node.name}.exists({q!r})')
        sel = node.ds.select(q)
        self.mon.eq(len(sel), len(matches), f'len of {node.name}.select({q!r})')

    def op_map(self, node):
        ref, ds = node.ref, node.ds
        if ref.ids is None or not ref.rows or not {'user', 'item', 'uid', 'iid'} <= set(ref.columns): return False
        check_maps(self.mon, ds, ref, node.name)

    def op_vec(self, node):
        ref, ds = node.ref, node.ds
        if ref.ids is None or not ref.rows or not {'user', 'item', 'uid', 'iid', 'interaction'} <= set(ref.columns): return False
        if any(isinstance(r['interaction'], str) for r in ref.rows): return False
        check_vecs(self.mon, ds, ref, node.name, self.rng)

    def op_gen(self, node):
        """Opens a generator of values, or advances or finishes one of the open ones."""
        rng = self.rng
        if not node.gens or rng.random() < 0.3:
            if len(node.gens) > 2: return False
            expected = node.ref.tup()
            g = iter(node.ds.values())
            self.mon.log(f'{node.name}: open generator')
            node.gens.append([g, sorted(node.ref.columns), expected, []])
        gen = rng.choice(node.gens)
        steps = rng.choice([1, 2, 5, None])
        k = 0
        while steps is None or k < steps:
            rec = next(gen[0], None)
            if rec is None:
                self.mon.eq(sorted(gen[3], key=repr_key), gen[2], f'{node.name}: rows of a generator differ from the rows when it was created')
                node.gens.remove(gen)
                self.mon.ev('generator_exhausted')
                break
            gen[3].append(tuple(rec[c] for c in gen[1]))
            k += 1

    def op_forget(self, node):
        if len(self.nodes) < 2: return False
        self.drop_node(node)
        if self.rng.random() < 0.3: gc.collect()

    def op_save(self, node):
        if not {'user', 'item', 'interaction'} <= set(node.ref.columns) or not node.ref.rows: return False
        from .data import scratch
        p = scratch('.csv')
        self.mon.log(f'{node.name}.save(csv)')
        node.ds.save(p)
        os.remove(p)

    def finish_history(self):
        self.verify_all('the whole history')
        for n in self.nodes: n.gens = []
        close_all(*[n.ds for n in self.nodes])
        for p in self.paths:
            if p and os.path.exists(p): os.remove(p)


def check_maps(mon, ds, ref, name):
    umap, imap = ref.ids
    for r in ref.rows:
        mon.eq(pyval(ds.user_to_uid(r['user'])), r['uid'], f'{name}.user_to_uid({r["user"]!r})')
        mon.eq(pyval(ds.item_to_iid(r['item'])), r['iid'], f'{name}.item_to_iid({r["item"]!r})')
        mon.eq(pyval(ds.uid_to_user(r['uid'])), r['user'], f'{name}.uid_to_user({r["uid"]})')
        mon.eq(pyval(ds.iid_to_item(r['iid'])), r['item'], f'{name}.iid_to_item({r["iid"]})')
    mon.ev('id_lookups', 4 * len(ref.rows))


def check_vecs(mon, ds, ref, name, rng, full=False):
    uids = sorted({r['uid'] for r in ref.rows})
    iids = sorted({r['iid'] for r in ref.rows})
    for uid in (uids if full else rng.sample(uids, min(3, len(uids)))):
        vec = ds.select_user_interaction_vec(uid)
        got = vec.toarray().ravel().tolist()
        want = [0.0] * (max(iids) + 1)
        for r in ref.rows:
            if r['uid'] == uid: want[r['iid']] += r['interaction']
        mon.check(len(got) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(got, want)),
                  f'{name}: interaction vector of user {uid}', got=got, want=want)
        if rng.random() < 0.2: vec.data[:] = -77; mon.ev('returned_vectors_overwritten')  # what the caller does with it is up to them
    for iid in (iids if full else rng.sample(iids, min(3, len(iids)))):
        vec = ds.select_item_interaction_vec(iid)
        got = vec.toarray().ravel().tolist()
        want = [0.0] * (max(uids) + 1)
        for r in ref.rows:
            if r['iid'] == iid: want[r['uid']] += r['interaction']
        mon.check(len(got) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(got, want)),
                  f'{name}: interaction vector of item {iid}', got=got, want=want)
        if rng.random() < 0.2: vec.data[:] = -77; mon.ev('returned_vectors_overwritten')
    mon.ev('vectors_compared', 2)


def run_history(rng, mon, kind, n_ops, weights, **kw):
    h = History(rng, mon, kind, weights, **kw)
    try:
        for _ in range(n_ops):
            h.step()
        h.finish_history()
    except BaseException:
        for n in h.nodes: n.gens = []
        close_all(*[n.ds for n in h.nodes])
        raise
    mon.ev('histories')
    return h
