"""Schedule perturbation and fault injection around the public methods of a dataset or model."""
import contextlib
import os
import random
import sys
import threading
import time


class Perturbed:
    """Delegates to a dataset, sleeping at random around its methods so that the threads that use it interleave
    differently, and optionally failing when a chosen user is selected."""
    METHODS = ('select', 'values_list', 'values', 'select_one', 'unique', 'drop')

    def __init__(self, target, seed, max_sleep=0.002, fail_on=None, log=None, fail_reads=None):
        self.__dict__.update(_t=target, _rng=random.Random(seed), _sleep=max_sleep, _fail_on=fail_on, _log=log, _reads=fail_reads, _lk=threading.Lock())

    def __len__(self):
        return len(self._t)

    def __eq__(self, other):
        return self is other or self._t is other

    __hash__ = object.__hash__

    def __getattr__(self, name):
        attr = getattr(self._t, name)
        if name not in self.METHODS: return attr

        def call(*args, **kwds):
            with self._lk: a, b = self._rng.random(), self._rng.random()
            if a < 0.7: time.sleep(a * self._sleep)
            if self._log is not None: self._log.append((threading.get_ident(), name, args[:1]))
            if self._fail_on is not None and name == 'select' and any(f in str(args[0]) for f in self._fail_on):
                raise FaultInjected('failed on purpose')
            res = attr(*args, **kwds)
            if b < 0.7: time.sleep(b * self._sleep)
            if self._reads is not None and name == 'select' and any(f in str(args[0]) for f in self._reads['users']): return FailingRows(res, self._reads)
            return res
        return call


class FaultInjected(Exception):
    pass


class FailingRows:
    """Delegates to a dataset whose rows can not all be read: fails after some of them. Counts the failures."""
    def __init__(self, target, plan):
        self.__dict__.update(_t=target, _plan=plan)

    def __len__(self):
        return len(self._t)

    def __getattr__(self, name):
        attr = getattr(self._t, name)
        if name not in ('values', 'values_list'): return attr

        def read(*args, **kwds):
            for n, row in enumerate(attr(*args, **kwds)):
                if n >= self._plan['after']: break
                yield row
            self._plan['hits'] += 1
            raise FaultInjected('failed on purpose while reading')
        return read if name == 'values' else lambda *args, **kwds: list(read(*args, **kwds))


class Noise:
    """Context in which the threads that are started yield, or sleep, at random points between the lines and instructions
    of the library, so that they interleave where it hurts. Counts the points at which threads were perturbed."""
    def __init__(self, seed, p=0.02, opcodes=True, max_sleep=0.0008, only=None, this_thread=False):
        self.seed, self.p, self.opcodes, self.max_sleep, self.this_thread = seed, p, opcodes, max_sleep, this_thread
        self.prefix = only or os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'DRecPy') + os.sep
        self.local, self.points, self.places, self.n = threading.local(), 0, set(), 0

    def rng(self):
        r = getattr(self.local, 'rng', None)
        if r is None:
            self.n += 1
            r = self.local.rng = random.Random(repr((self.seed, self.n)))
        return r

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix): return None
        if self.opcodes: frame.f_trace_opcodes = True
        return self.step

    def step(self, frame, event, arg):
        if event in ('line', 'opcode'):
            r = self.rng().random()
            if r < self.p:
                self.points += 1
                self.places.add((frame.f_code.co_name, frame.f_lasti))
                time.sleep(0 if r < self.p * 0.6 else r / self.p * self.max_sleep)
        return self.step

    def __enter__(self):
        threading.settrace(self.trace)
        if self.this_thread: sys.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        threading.settrace(None)
        if self.this_thread: sys.settrace(None)
        return False


def noisy(rng, mon, chance=0.5):
    """Noise with random strength, or none."""
    if rng.random() >= chance: return contextlib.nullcontext()
    return Counted(mon, rng.random(), p=rng.choice([0.002, 0.01, 0.03]), opcodes=rng.random() < 0.6)


class Counted(Noise):
    def __init__(self, mon, seed, **kw):
        super().__init__(seed, **kw)
        self.mon = mon

    def __exit__(self, *exc):
        self.mon.ev('noise_points', self.points)
        return super().__exit__(*exc)


class ScarceMemory:
    """Context in which sparse matrices with more than one row and more than one column do not fit in memory: always, or now and
    then. Counts the refusals."""
    KINDS = ('csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'dok_matrix')

    def __init__(self, rng, mon, chance):
        self.rng, self.mon, self.chance, self.undo = rng, mon, chance, []

    def __enter__(self):
        import scipy.sparse as sp
        me, depth = self, threading.local()
        for name in self.KINDS:
            cls = getattr(sp, name)
            old = cls.__dict__.get('__init__')
            orig = cls.__init__

            def init(obj, *args, orig=orig, **kwds):
                outer = getattr(depth, 'n', 0)
                depth.n = outer + 1
                try: orig(obj, *args, **kwds)
                finally: depth.n = outer
                if outer == 0 and min(obj.shape) > 1 and me.rng.random() < me.chance:
                    me.mon.ev('refused_memory')
                    raise MemoryError('no memory for a matrix (on purpose)')
            cls.__init__ = init
            self.undo.append((cls, old))
        return self

    def __exit__(self, *exc):
        for cls, old in self.undo:
            if old is None: del cls.__init__
            else: cls.__init__ = old
        return False


class FailFirst:
    """Context in which the first call of a function of a module raises an exception. Counts the failures."""
    def __init__(self, mod, name, exc, after=0):
        self.mod, self.name, self.exc, self.hits, self.left = mod, name, exc, 0, after

    def __enter__(self):
        self.orig = getattr(self.mod, self.name)

        def call(*args, **kwds):
            if self.hits == 0:
                if self.left == 0:
                    self.hits += 1
                    raise self.exc
                self.left -= 1
            return self.orig(*args, **kwds)
        setattr(self.mod, self.name, call)
        return self

    def __exit__(self, *exc):
        setattr(self.mod, self.name, self.orig)
        return False
