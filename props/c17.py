"""C17: the list sampler yields ordered sequences of one group's positive records, the targets that follow, and true negative ids."""
import random
from collections import defaultdict
from vlib.data import KINDS, Ref, check_same, close_all, force_db_optimisation, load, make_data, rng_of


def cases(tier, seed):
    for n in range(440 if tier == 'quick' else 6000):
        yield {'seed': seed, 'n': n, 'kind': KINDS[n % 4]}


def run_case(spec, mon):
    from DRecPy.Sampler import ListSampler
    rng = rng_of('C17', spec['seed'], spec['n'])
    force_db_optimisation(rng)
    data = make_data(rng, n_users=rng.randint(1, 5), n_items=rng.randint(3, 14), n_rows=rng.randint(8, 60), extra=['timestamp', 'label'] if rng.random() < 0.7 else [])
    ds, ref = load(data, spec['kind']), Ref.of(data)
    mon.log('load', spec['kind'], data.spec())
    try:
        ds.assign_internal_ids()
        ref = ref.with_ids({r['user']: r['uid'] for r in ds.values_list(['user', 'uid'])},
                           {r['item']: r['iid'] for r in ds.values_list(['item', 'iid'])})
        cols = sorted(ref.columns)
        rows = {tuple(r[c] for c in cols) for r in ref.rows}
        for _ in range(3):
            group = rng.choice([['uid'], ['uid'], ['user'], ['iid'], ['item']] + ([['uid', 'label'], ['label'], ['item', 'label']] if 'label' in cols else []))
            thr = rng.choice([None, None, 1, 2, 2.5])
            sort = rng.choice([None, None] + (['timestamp'] if 'timestamp' in cols else []) + ['interaction'])
            n_targets = rng.choice([None, 1, 1, 2, 3])
            neg_col = rng.choice(['iid', 'iid', 'item', 'uid'])
            ratio = rng.choice([0, 1, 1, 2])
            mn = rng.randint(1, 4)
            mx = rng.choice([None, mn, mn + 1, mn + 3])
            s = rng.randint(0, 10 ** 6)
            args = dict(group_columns=list(group), neg_ratio=ratio, n_targets=n_targets, negative_ids_col=neg_col, interaction_threshold=thr,
                        sort_column=sort, min_positive_records=mn, max_positive_records=mx, seed=s)
            mon.log('ListSampler', args)
            groups = defaultdict(list)
            for r in ref.rows:
                groups[tuple(r[c] for c in group)] += [r] if thr is None or r['interaction'] >= thr else []
            universe = {r[neg_col] for r in ref.rows}
            need = mn + (n_targets or 0)

            def eligible(g):
                p = groups[g]
                return len(p) >= need and (n_targets is None or len(universe - {r[neg_col] for r in p}) >= ratio * n_targets)
            ok = [g for g in groups if eligible(g)]
            n = rng.randint(1, 6)
            sampler = ListSampler(ds, **args)
            try:
                out = sampler.sample_group_records(n)
            except Exception as e:
                mon.check('tries' in str(e) or not ok or len(ok) < len(groups), f'sampling failed: {type(e).__name__}: {e}', eligible=len(ok), groups=len(groups))
                mon.check(len(ok) < len(groups), 'sampling failed although every group has enough records', error=str(e))
                mon.ev('gave_up')
                continue
            mon.check(bool(ok), 'records were sampled although no group has enough of them', out=out)
            mon.eq(len(out), n, 'number of sampled groups')
            for el in out:
                if n_targets is None: seq, targets, neg = el, [], []
                else:
                    mon.check(isinstance(el, tuple) and len(el) == 3, 'a sample is not a (positives, targets, negatives) triple', sample=el)
                    seq, targets, neg = el
                everything = list(seq) + list(targets)
                for r in everything:
                    mon.check(sorted(r) == cols and tuple(r[c] for c in cols) in rows, 'a sampled record is not a row of the dataset', record=r)
                    mon.check(thr is None or r['interaction'] >= thr, 'a sampled record is below the threshold', record=r, threshold=thr)
                keys = {tuple(r[c] for c in group) for r in everything}
                mon.eq(len(keys), 1, 'a sequence mixes records of several groups', groups=keys)
                mine = sorted(groups[keys.pop()], key=lambda r: (r[sort] if sort else r['rid'], r['rid']))
                got_rids = [r['rid'] for r in everything]
                mon.check(len(set(got_rids)) == len(got_rids), 'a record is repeated in a sequence', rids=got_rids)
                mon.eq(len(targets), n_targets or 0, 'number of targets')
                mon.check(len(seq) >= mn, f'fewer than {mn} positive records', n=len(seq))
                want_len = len(mine) if mx is None else min(len(mine), mx + (n_targets or 0))
                mon.eq(len(everything), want_len, f'length of a sequence of a group with {len(mine)} positive records', max=mx, targets=n_targets)
                key = sort or 'rid'
                got_keys, all_keys = [r[key] for r in everything], [r[key] for r in mine]
                mon.check(any(all_keys[i:i + want_len] == got_keys for i in range(len(all_keys) - want_len + 1)),
                          f'a sequence is not a run of consecutive records of its group by {key}', got=got_keys, group=all_keys)
                if n_targets is not None:
                    mon.eq(len(neg), ratio * n_targets, 'number of negative ids')
                    mon.check(len(set(neg)) == len(neg), 'a negative id is repeated', neg=neg)
                    mon.check(set(neg) <= universe, 'unknown negative id', neg=neg)
                    mon.check(not set(neg) & {r[neg_col] for r in mine}, 'a negative id is positive for the group', neg=neg, positive=[r[neg_col] for r in mine])
                mon.ev('sequences')
                mon.ev('truncated' if len(mine) > want_len else 'whole')
                mon.state((spec['kind'], group, got_rids, sorted(map(str, neg))))
            random.seed(1)
            mon.eq(ListSampler(ds, **args).sample_group_records(n), out, 'the same seed gave other sequences')
            if len(ok) == len(groups) <= 3:
                more = sampler.sample_group_records(300)
                firsts = [e if n_targets is None else e[0] for e in more]
                mon.eq({tuple(f[0][c] for c in group) for f in firsts}, set(ok), 'groups reached')
                if mx is not None and rng.random() < 0.5:
                    for g in ok:
                        p = groups[g]
                        room = len(p) - (mx + (n_targets or 0))
                        if 1 <= room <= 3 and sort is None:
                            starts = {f[0]['rid'] for f in firsts if tuple(f[0][c] for c in group) == g}
                            mon.eq(len(starts), room + 1, 'starting points of the sequences of a group', starts=starts)
                            mon.ev('windows_checked')
                mon.ev('reach_checked')
            mon.sample({'args': args, 'first': [r['rid'] for r in (out[0] if n_targets is None else out[0][0])]})
        check_same(mon, ds, ref, 'dataset after sampling')
    finally:
        close_all(ds)
