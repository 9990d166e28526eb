"""The monitor object handed to every case: counts what was observed and raises on a violation."""
import hashlib
import json


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    pass


def short(obj, limit=1500):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= limit else s[:limit] + f'...<{len(s)} chars>'


class Monitor:
    def __init__(self):
        self.events = {}
        self.states = set()
        self.samples = []
        self.known = {}
        self.case_states = 0
        self.trace = []
        self.checks = 0

    def begin(self):
        self.case_states = 0
        self.trace = []

    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def log(self, *what):
        """Appends to the history of the current case, which is kept as the witness of a violation."""
        self.trace.append(short(' '.join(str(w) for w in what), 400))

    def state(self, key):
        """Records a distinct observed state."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
        if h not in self.states:
            self.states.add(h)
            self.case_states += 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    def fail(self, msg, **detail):
        raise Violation(msg, {k: short(v) for k, v in detail.items()})

    def check(self, ok, msg, **detail):
        self.checks += 1
        if not ok:
            self.fail(msg, **detail)

    def eq(self, got, want, msg, **detail):
        self.checks += 1
        if not (got == want):
            self.fail(msg, got=got, want=want, **detail)

    def close(self, got, want, msg, tol=1e-9, **detail):
        self.checks += 1
        if got is None or want is None:
            ok = got is want
        else:
            try:
                ok = abs(float(got) - float(want)) <= tol * max(1.0, abs(float(want)))
            except (TypeError, ValueError):
                ok = False
        if not ok:
            self.fail(msg, got=got, want=want, **detail)

    def known_finding(self, key, detail):
        self.known.setdefault(key, short(detail, 300))
