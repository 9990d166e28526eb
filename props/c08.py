"""C08: a dataset file is read the same by both kinds of dataset, whatever its format options, and every row is read once."""
import os
from vlib.data import Data, Ref, check_same, close_all, fmt, make_data, make_ids, repr_key, rng_of, scratch
from vlib.sched import FailFirst


def cases(tier, seed):
    for n in range(1600 if tier == 'quick' else 8000):
        yield {'seed': seed, 'n': n}
    for n in range(300 if tier == 'quick' else 1500):
        yield {'seed': seed, 'n': n, 'what': 'frame'}


def run_frame(rng, mon):
    """A data frame whose main columns have other names, whose rows have any index, and which must not be changed."""
    import numpy as np
    import pandas as pd
    from DRecPy.Dataset import InteractionDataset
    data = make_data(rng)
    labels = {c: rng.choice([c, c[0], c + 's', c.upper(), c[-1]]) for c in ('user', 'item', 'interaction')}
    if labels['item'] == labels['interaction']: labels['item'] = 'i2'
    names = [labels.get(c, c) for c in data.columns]
    frame = pd.DataFrame([[r[c] for c in data.columns] for r in data.rows], columns=names)
    for c in data.columns:
        if c not in ('user', 'item') and rng.random() < 0.2 and all(isinstance(r[c], int) and abs(r[c]) < 2 ** 31 for r in data.rows):
            frame[labels.get(c, c)] = frame[labels.get(c, c)].astype(rng.choice(['int32', 'int64']))
    index = rng.choice(['default', 'other', 'sorted', 'text', 'repeated', 'filtered'])
    if index == 'filtered':
        frame = pd.concat([frame.iloc[:1], frame], ignore_index=True).iloc[1:]
    elif index != 'default':
        frame.index = {'other': rng.sample(range(1000), len(frame)), 'sorted': list(range(5, 5 + len(frame))), 'text': [f'r{i}' for i in range(len(frame))],
                       'repeated': [rng.randint(0, 2) for _ in frame.index]}[index]
    given = {f'{c}_label': labels[c] for c in labels if labels[c] != c or rng.random() < 0.3}
    mon.log('frame', names, index, given, data.spec())
    before = frame.copy(deep=True)
    ds = InteractionDataset.read_df(frame, verbose=False, **given)
    opened = [ds]
    try:
        ref = Ref.of(data)
        check_same(mon, ds, ref, 'the dataset of a data frame')
        mon.eq([r['rid'] for r in ds.values_list()], list(range(len(data.rows))), 'record ids, in the order of the data frame')
        r = rng.choice(ref.rows)
        mon.eq(len(ds.select(f'user == {r["user"]!r}')), sum(x['user'] == r['user'] for x in ref.rows), 'records of a user')
        if all(isinstance(x['interaction'], (int, float)) for x in ref.rows): ds.apply('interaction', lambda x: x * 2)
        ds.assign_internal_ids()
        mon.check(frame.equals(before) and list(frame.columns) == list(before.columns) and list(frame.index) == list(before.index) and list(frame.dtypes) == list(before.dtypes),
                  'the data frame of the caller was changed', columns=list(frame.columns), index=list(frame.index)[:5])
        frame.iloc[:, 0] = frame.iloc[0, 0]  # what the caller does with it afterwards
        for x in ref.rows: x['interaction'] = x['interaction'] * 2
        ds.remove_internal_ids()
        check_same(mon, ds, ref, 'the dataset after its data frame was changed')
        mon.ev('frames'); mon.ev('frame_index_' + index)
        mon.state((index, str(given), ref.tup()))
    finally:
        close_all(opened)


def run_case(spec, mon):
    import csv
    from DRecPy.Dataset import InteractionDataset
    rng = rng_of('C08', spec['seed'], spec['n'])
    if spec.get('what') == 'frame': return run_frame(rng, mon)
    data = make_data(rng, user_kind=rng.choice(['int', 'bigint', 'str', 'nastystr', 'float', 'joined']), item_kind=rng.choice(['int', 'str', 'nastystr']))
    delimiter = rng.choice([',', ',', '\t', ';', '|', '::', '::', ' '])
    header = rng.random() < 0.5
    encoding = rng.choice([None, 'utf8', 'utf8', 'latin-1', 'utf-16' if len(delimiter) == 1 else 'utf8'])
    def ok(v):
        if not isinstance(v, str): return True
        try: v.encode(encoding or 'utf8')
        except UnicodeEncodeError: return False
        if len(delimiter) > 1 and any(ch in v for ch in '"\'\t\n:\x1f'): return False  # no quoting exists for these files
        return v.strip() != '' and not (v.strip() != v)
    ren = {}
    for r in data.rows:
        for c in data.columns:
            if not ok(r[c]): r[c] = ren.setdefault(r[c], f'w{len(ren)}')
    texts = [c for c in data.columns if c not in ('user', 'item', 'interaction') and all(isinstance(r[c], str) for r in data.rows)]
    if texts and len(data.columns) > 1 and rng.random() < 0.5:  # values that are left out (the first row tells the types)
        for r in data.rows[1:]:
            for c in texts:
                if rng.random() < 0.3: r[c] = ''; mon.ev('empty_values')
    if len(delimiter) == 1 and rng.random() < 0.4:  # texts of several lines
        lines = {}
        for c in data.columns:
            for r in data.rows:
                if isinstance(r[c], str) and r[c] and rng.random() < 0.3:
                    r[c] = lines.setdefault((c, r[c]), r[c] + rng.choice(['\nline', '\n\n2', ',\r\n"x"', '\n' + r[c]])); mon.ev('texts_of_several_lines')
    skip = rng.randint(0, len(data.columns)) if rng.random() < 0.3 else None
    trailing = rng.random() < 0.8
    blank = rng.random() < 0.2 and len(data.columns) > 1
    eol = '\n' if len(delimiter) > 1 or rng.random() < 0.7 else '\r\n'
    path = scratch('.csv')
    file_cols = list(data.columns)
    if skip is not None: file_cols.insert(skip, None)
    with open(path, 'w', encoding=encoding or 'utf8', newline='') as f:
        w = csv.writer(f, delimiter=delimiter, lineterminator=eol, quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_NONNUMERIC])) if len(delimiter) == 1 else None
        def put(vals):
            if w: w.writerow(vals)
            else: f.write(delimiter.join(map(str, vals)) + eol)
        if header: put([c or 'ignored' for c in file_cols])
        for n, r in enumerate(data.rows):
            vals = [(r[c] if w else fmt(r[c])) if c is not None else f'skip{n}' for c in file_cols]
            put(vals)
            if blank and rng.random() < 0.15: f.write(eol)
    if not trailing:
        with open(path, 'rb') as f: raw = f.read()
        enc_eol = eol.encode('utf-16-le' if encoding == 'utf-16' else 'utf8')
        if raw.endswith(enc_eol):
            with open(path, 'wb') as f: f.write(raw[:-len(enc_eol)])
    before = open(path, 'rb').read()
    ref = Ref.of(data)
    mon.log('file', dict(delimiter=delimiter, header=header, encoding=encoding, skip=skip, blank=blank, eol=eol), data.spec())
    kw = {} if encoding is None else {'encoding': encoding}
    try:
        for in_mem, chunk in ((True, None), (False, None), (False, rng.choice([1, 2, 3, len(data.rows), max(1, len(data.rows) - 1)]))):
            opts = dict(kw, **({'chunksize': chunk} if chunk else {}))
            cols = list(file_cols)
            ds = InteractionDataset(path, columns=cols, delimiter=delimiter, has_header=header, in_memory=in_mem, verbose=False, **opts)
            try:
                mon.eq(cols, file_cols, 'loading modified the list of columns of the caller')
                mon.eq(ds.in_memory, in_mem, 'kind of dataset')
                check_same(mon, ds, ref, f'in_memory={in_mem} chunksize={chunk}')
                rids = [r['rid'] for r in ds.values_list()]
                mon.eq(rids, list(range(len(data.rows))), f'in_memory={in_mem} chunksize={chunk}: record ids in file order')
                mon.ev('loaded_mem' if in_mem else 'loaded_db_chunked' if chunk else 'loaded_db')
            finally:
                close_all(ds)
        if rng.random() < 0.15:  # what does not fit in memory is loaded out of memory instead
            import pandas
            with FailFirst(pandas, 'read_csv', MemoryError('on purpose')) as fault:
                ds = InteractionDataset(path, columns=list(file_cols), delimiter=delimiter, has_header=header, verbose=False, **kw)
            try:
                if fault.hits:
                    mon.ev('did_not_fit_in_memory')
                    mon.eq(ds.in_memory, False, 'kind of the dataset that did not fit in memory')
                check_same(mon, ds, ref, 'the dataset that did not fit in memory')
                mon.eq([r['rid'] for r in ds.values_list()], list(range(len(data.rows))), 'record ids of the dataset that did not fit in memory')
            finally:
                close_all(ds)
        mon.eq(open(path, 'rb').read(), before, 'loading modified the file')
        mon.ev('delimiter_' + repr(delimiter)); mon.ev(f'encoding_{encoding}'); mon.ev(f'header_{header}'); mon.ev(f'skip_{skip is not None}')
        mon.state((delimiter, header, encoding, skip, ref.tup()))
        mon.sample({'delimiter': delimiter, 'header': header, 'encoding': encoding, 'columns': file_cols, 'rows': data.spec()['rows'][:3]})
    finally:
        os.remove(path)
