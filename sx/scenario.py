"""Scenario records and the plain replay context (no solver needed)."""
import json


class Scenario(object):
    def __init__(self, name, fn, bounds, params=None, covers=(), setup=None, seconds=None, value_cap=4096, finding=False):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.params = params or {}
        self.covers = tuple(covers)
        self.setup = setup
        self.seconds = seconds
        self.value_cap = value_cap
        self.finding = finding


def is_record(x):
    return type(x).__name__ == 'Record' and type(x).__module__.startswith('rels')


def plain(x, conv):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if is_record(x):
        return '%s.%s' % (x._relation.__name__, x.name)
    if isinstance(x, dict):
        return sorted([[conv(k), conv(w)] for k, w in x.items()], key=lambda p: json.dumps(p[0]))
    if isinstance(x, (list, tuple)):
        return [conv(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(json.dumps(conv(y)) for y in x)
    if isinstance(x, type):
        return 'class ' + x.__name__
    if isinstance(x, Exception):
        return 'error ' + type(x).__name__
    return 'object ' + type(x).__name__


class Script(object):
    """Answers of `random` for one run; `advance` moves to the next unexplored combination."""

    def __init__(self):
        self.answers = []
        self.at = 0

    def next(self, n):
        if self.at == len(self.answers):
            self.answers.append([0, n])
        entry = self.answers[self.at]
        self.at += 1
        assert entry[1] == n, 'the number of random answers changed between runs'
        return entry[0]

    def advance(self):
        self.answers = self.answers[:self.at]
        self.at = 0
        while self.answers:
            self.answers[-1][0] += 1
            if self.answers[-1][0] < self.answers[-1][1]:
                return True
            self.answers.pop()
        return False


def scripted(ctx, fn, args, kw, most=400):
    out = []
    ctx.script = Script()
    try:
        while True:
            out.append(ctx.raises(fn, *args, **kw))
            if not ctx.script.advance() or len(out) >= most:
                return out
    finally:
        ctx.script = None


def distribution(ctx, fn, args, kw, most=3000):
    """[(result, error, how many runs in one end like this)]; None when there are more runs than `most`."""
    out = []
    ctx.script = Script()
    try:
        while True:
            result, error = ctx.raises(fn, *args, **kw)
            runs = 1
            for _, n in ctx.script.answers[:ctx.script.at]:
                runs *= n
            out.append((result, error, runs))
            if not ctx.script.advance():
                return out
            if len(out) >= most:
                return None
    finally:
        ctx.script = None


class NativeMismatch(Exception):
    pass


class NativeCtx(object):
    """Plain replay of recorded inputs on unmodified code."""
    symbolic = False

    def __init__(self, inputs, fill=None):
        self.given = inputs
        self.fill = fill        # None: every input is recorded; a number: missing ones are completed
        self.observed = []
        self.failed = []
        self.covered = set()
        self.rnd = 0
        self.script = None
        self.snapshot = None

    def restart(self):
        """The module-level state of a process that has just imported the library; objects at hand stay."""
        self.snapshot.restore()

    def _get(self, name, default):
        if name not in self.given:
            if self.fill is None:
                raise NativeMismatch('no recorded value for %s' % name)
            self.given[name] = default(self._below)
        return self.given[name]

    def _below(self, n):
        """0 in the first completion, arbitrary in the others."""
        if self.fill == 0 or n < 2:
            return 0
        self.fill = (self.fill * 1664525 + 1013904223) & 0xffffffff
        return (self.fill >> 8) % n

    def int(self, name, lo=None, hi=None):
        return self._get(name, lambda below: (0 if lo is None else lo) + below(40 if lo is None or hi is None else hi - lo + 1) if lo is not None or hi is None
                         else hi - below(40))

    def bool(self, name):
        return self._get(name, lambda below: bool(below(2)))

    def record(self, name, relation, none=False, only=None):
        def default(below):
            options = [relation.records.index(x) for x in only] if only is not None else list(range(len(relation.records)))
            return (options + [None] if none else options)[below(len(options) + bool(none))]
        k = self._get(name, default)
        return None if k is None else relation.records[k]

    def char(self, name, alphabet):
        return self.string(name, 1, 1, alphabet)

    def string(self, name, lo, hi, alphabet):
        letters = sorted(set(alphabet))
        return self._get(name, lambda below: ''.join(letters[below(len(letters))] for _ in range(lo + below(hi - lo + 1))))

    def choose(self, name, options):
        i = self._get(name, lambda below: below(options if isinstance(options, int) else len(options)))
        return i if isinstance(options, int) else options[i]

    def subset(self, name, elements):
        ks = self._get(name, lambda below: [i for i in range(len(elements)) if below(2)])
        return frozenset(e for i, e in enumerate(elements) if i in ks)

    def random_index(self, n):
        if n <= 0:
            raise IndexError('Cannot choose from an empty sequence')
        if self.script is not None:
            return self.script.next(n)
        name = 'random#%d' % self.rnd
        self.rnd += 1
        return self._get(name, lambda below: below(n))

    def distribution(self, fn, *args, **kw):
        return distribution(self, fn, args, kw)

    def outcomes(self, fn, *args, **kw):
        return scripted(self, fn, args, kw)

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def Eq(self, a, b):
        if type(a) in (tuple, list) and type(b) in (tuple, list) and type(a) is not type(b):
            return False
        return bool(a == b)

    def count(self, xs):
        return sum(1 for x in xs if x)

    def same_text(self, a, b):
        return isinstance(a, str) and isinstance(b, str) and a == b

    def assume(self, c):
        if not c:
            raise NativeMismatch('assumption does not hold on the recorded inputs')

    def cover(self, label):
        self.covered.add(label)

    def check(self, c, label, **detail):
        if not c:
            self.failed.append(label)
            raise NativeStop()

    def fail(self, label):
        self.check(False, label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def json_roundtrip(self, x):
        return json.loads(json.dumps(x))

    def raises(self, fn, *args, **kw):
        try:
            return fn(*args, **kw), None
        except NativeMismatch:
            raise
        except Exception as e:
            return None, e

    def conv(self, x):
        return plain(x, self.conv)


class NativeStop(BaseException):
    pass
