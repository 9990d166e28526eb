"""C29: the integrated datasets hold exactly the published data, downloaded once, whatever fails or stops in between."""
import io
import linecache
import os
import random
import shutil
import sys
import threading
import zipfile
from collections import Counter
from vlib.data import close_all, rng_of, scratch

NAMES = ['ml-100k', 'ml-1m', 'ml-10m', 'ml-20m', 'bx']
SHAPE = {'ml-100k': ('u.data', '\t', 'ml-100k', False), 'ml-1m': ('ratings.dat', '::', 'ml-1m', False), 'ml-10m': ('ratings.dat', '::', 'ml-10M100K', False),
         'ml-20m': ('ratings.csv', ',', 'ml-20m', True), 'bx': ('BX-Book-Ratings.csv', ';', None, True)}


class Crash(BaseException):
    pass


class Crasher:
    """Stops the execution at a chosen step: a file system operation below a folder, or a line of the dataset modules."""
    def __init__(self):
        self.on, self.left, self.count, self.root, self.lines = False, None, 0, None, False
        self.thread = threading.get_ident()  # worker threads do not survive the end of the process
        sys.addaudithook(self.audit)

    def audit(self, event, args):
        if not self.on or threading.get_ident() != self.thread or event not in ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'shutil.move'): return
        path = args[0]
        if not isinstance(path, (str, bytes, os.PathLike)) or not os.fsdecode(path).startswith(self.root): return
        if event == 'open' and not (isinstance(args[1], str) and set(args[1]) & set('wax+') or args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)): return
        self.step()

    def step(self):
        self.count += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.on = False
                raise Crash()

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.endswith(('integrated_datasets.py', 'db_dataset.py', 'mem_dataset.py')) or frame.f_code.co_name == '__del__': return None
        if event == 'line' and self.on and not linecache.getline(name, frame.f_lineno).lstrip().startswith('with '):
            self.step()  # (when a with block is left, stopping at its line would skip the release of its lock)
        return self.trace

    def run(self, fn, root, left=None, lines=False):
        """Runs fn. Returns (result or None, crashed, number of steps)."""
        self.left, self.count, self.root, self.on = left, 0, root, True
        if lines: sys.settrace(self.trace)
        fired = lambda: left is not None and self.left < 0
        try:
            result = fn()
            return result, fired(), self.count
        except (Crash, Exception):  # some handlers of the library turn it into another exception
            if not fired(): raise
            return None, True, self.count
        finally:
            sys.settrace(None)
            self.on = False


CRASHER = None
SERVER = {}


def setup():
    global CRASHER
    CRASHER = Crasher()
    import requests
    from requests.adapters import HTTPAdapter

    def send(self, request, **kw):
        SERVER['requests'].append(request.url)
        problem = SERVER['problems'].pop(0) if SERVER['problems'] else None
        if problem == 'refused': raise requests.exceptions.ConnectionError('no route to host')
        body = SERVER['files'].get(request.url)
        r = requests.Response()
        r.status_code, r.url, r.request, r.reason = (404 if body is None else 200), request.url, request, 'OK'
        if problem == 'error': r.status_code, r.reason, body = 503, 'Service Unavailable', b'<html>\nService;Unavailable;0\n1;2;3\n</html>'
        if problem == 'truncated': body = body[:len(body) // 2] if body else b''
        r.headers['Content-Length'] = str(len(body or b''))
        r.raw = io.BytesIO(body or b'not found')
        return r
    HTTPAdapter.send = send


def cases(tier, seed):
    for n in range(900 if tier == 'quick' else 6000):
        yield {'seed': seed, 'n': n, 'name': NAMES[n % 5]}


def publish(rng, name):
    """Generated contents of a published dataset: the rows of each file and the bytes that are downloaded."""
    n_users, n_items = rng.randint(2, 5), rng.randint(12, 25)
    users = rng.sample(range(1, 900), n_users)
    items = rng.sample(range(1, 4000), n_items) if name != 'bx' else [f'{rng.randint(0, 99):03d}{c}{rng.randint(1000, 9999)}X' for c in rng.sample('abcdefghijklmnopqrstuvwxyzéñABC', n_items)]
    rows = []
    for n, u in enumerate(users):
        for i in rng.sample(items, rng.randint(12, n_items) if n == 0 else rng.choice([rng.randint(1, 9), 10, 11, rng.randint(10, n_items)])):
            v = {'ml-10m': lambda: rng.randint(1, 10) / 2, 'ml-20m': lambda: rng.randint(1, 10) / 2}.get(name, lambda: rng.randint(1, 5))()
            rows.append((u, i, v) + (() if name == 'bx' else (rng.randint(10 ** 8, 10 ** 9),)))
    rng.shuffle(rows)
    file, sep, folder, header = SHAPE[name]
    fmt = (lambda r: f'"{r[0]}";"{r[1]}";"{r[2]}"') if name == 'bx' else (lambda r: sep.join(map(str, r)))
    head = {'ml-20m': 'userId,movieId,rating,timestamp\n', 'bx': '"User-ID";"ISBN";"Book-Rating"\n'}.get(name, '')
    parts = {file: rows}
    if name == 'ml-100k':
        cut = rng.randint(1, len(rows) - 1)
        parts.update({'ua.base': rows[:cut], 'ua.test': rows[cut:]})
    if name == 'bx': return rows, parts, (head + ''.join(fmt(r) + '\n' for r in rows)).encode('latin1')
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for f, rs in list(parts.items()) + [('README', [])]: z.writestr(f'{folder}/{f}', head + ''.join(fmt(r) + '\n' for r in rs))
        if rng.random() < 0.5: z.writestr(f'{folder}/movies.dat', '1::Toy Story (1995)::Animation\n')
    return rows, parts, out.getvalue()


def rows_of(ds):
    cols = [c for c in ('user', 'item', 'interaction', 'timestamp') if c in ds.columns]
    return Counter(tuple(float(x) if isinstance(x, float) else x for x in r) for r in ds.values_list(cols, to_list=True))


def run_case(spec, mon):
    import DRecPy.Dataset as D
    from DRecPy.Dataset.integrated_datasets import DATASETS
    rng, name = rng_of('C29', spec['seed'], spec['n']), spec['name']
    get = {'full': D.get_full_dataset, 'train': D.get_train_dataset, 'test': D.get_test_dataset}
    rows, parts, body = publish(rng, name)
    full = Counter(rows)
    url = DATASETS[name].url
    root, former, used = scratch('_store'), os.environ['DATA_FOLDER'], []
    os.makedirs(root)
    os.environ['DATA_FOLDER'] = root
    SERVER.update(requests=[], problems=[], files={url: body})
    mon.log(name, len(rows), 'rows', len(body), 'bytes')

    def ask(what, **kw):
        ds = get[what](name, verbose=False, **kw)
        used.append(ds)
        return ds

    def check(what, ds, want=None):
        got = rows_of(ds)
        if what == 'full': want = full
        elif name == 'ml-100k': want = Counter(parts['ua.base' if what == 'train' else 'ua.test'])
        if want is not None: mon.eq(got, want, f'rows of the {what} dataset of {name}')
        mon.check(ds.columns and set(ds.columns) == {'rid', 'user', 'item', 'interaction'} | (set() if name == 'bx' else {'timestamp'}), 'columns', got=ds.columns)
        mon.eq(len(ds), sum(got.values()), 'number of rows')
        mon.ev('read_' + what)
        return got

    try:
        # something fails or stops while the datasets are downloaded, extracted or generated
        order = ['full', 'train', 'test']
        rng.shuffle(order)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            what, oom = rng.choice(order), rng.random() < 0.3
            if rng.random() < 0.35:
                SERVER['problems'] = [rng.choice(['refused', 'error', 'truncated'] if name != 'bx' else ['refused', 'error'])]
                stored = os.path.exists(os.path.join(root, name))
                mon.log('problem', SERVER['problems'], what)
                try: ds = ask(what, force_out_of_memory=oom)
                except Exception: mon.ev('failed_downloads')
                else:
                    mon.check(stored, 'a dataset was returned although its download failed', problem=SERVER['problems'], rows=rows_of(ds))
                    if what == 'full': check(what, ds)
                SERVER['problems'] = []
            else:
                lines = rng.random() < 0.5
                copy = root + '_copy'
                shutil.copytree(root, copy)  # a first run in full to know how many steps there are
                os.environ['DATA_FOLDER'] = copy
                try: _, _, steps = CRASHER.run(lambda: ask(what, force_out_of_memory=oom), copy, lines=lines)
                finally:
                    os.environ['DATA_FOLDER'] = root
                    close_all(used)
                    used.clear()
                    shutil.rmtree(copy)
                at = rng.randint(0, max(0, steps - 1))
                mon.log('stopped', what, 'at', at, 'of', steps, 'lines' if lines else 'files')
                ds, crashed, _ = CRASHER.run(lambda: ask(what, force_out_of_memory=oom), root, left=at, lines=lines)
                if crashed: mon.ev('stopped_lines' if lines else 'stopped_files')
                else: check(what, ds)
        # from now on nothing fails
        SERVER['requests'] = []
        stored = os.path.exists(os.path.join(root, name))
        seen = {}
        for n in range(rng.randint(3, 6)):
            what, oom = order[n % 3] if n < 3 else rng.choice(order), rng.random() < 0.3
            if rng.random() < 0.5: random.seed(rng.randint(0, 99))
            mon.log('get', what, 'out of memory' if oom else '')
            ds = ask(what, force_out_of_memory=oom)
            got = check(what, ds)
            if what in seen: mon.eq(got, seen[what], f'rows of the {what} dataset of {name} when asked again')
            seen[what] = got
            kind = type(ds).__name__
            mon.eq(kind, 'DatabaseInteractionDataset' if oom else 'MemoryInteractionDataset', 'type of the dataset')
            if len(ds) and rng.random() < 0.3: (ds.assign_internal_ids if rng.random() < 0.5 else lambda: ds.apply('interaction', lambda x: x * 100))()  # must not change the stored data
            if rng.random() < 0.3:
                close_all([ds])
                used.remove(ds)
        mon.check(len(SERVER['requests']) == (0 if stored else 1) and set(SERVER['requests']) <= {url}, f'number of downloads of {name}, {"already" if stored else "not"} stored', got=SERVER['requests'])
        if name != 'ml-100k':
            train, test = seen['train'], seen['test']
            count = Counter(r[0] for r in rows)
            mon.eq(train + test, Counter(r for r in rows if count[r[0]] >= 10), 'rows of the train and test datasets together')
            for u, k in Counter(r[0] for r in test.elements()).items():
                mon.check(k <= 10, 'test rows of a user', user=u, got=k)
            for u in count:
                if count[u] > 10: mon.eq(sum(k for r, k in test.items() if r[0] == u), 10, f'test rows of a user with {count[u]} rows')
            # the generation is deterministic
            shutil.rmtree(root)
            os.makedirs(root)
            mon.eq((rows_of(ask('test')), rows_of(ask('train'))), (test, train), 'test and train datasets generated again')
            mon.ev('generated')
        for bad in ('', 'ml', name + ' '):
            for fn in get.values():
                try: fn(bad, verbose=False)
                except FileNotFoundError: pass
                else: mon.fail('an unknown dataset was returned', name=bad)
        mon.state((name, str(rows)))
    finally:
        close_all(used)
        os.environ['DATA_FOLDER'] = former
        shutil.rmtree(root, ignore_errors=True)
