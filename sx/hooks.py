"""Operations the instrumented code calls instead of the interpreter's own: calls, subscripts, membership, displays."""
import builtins
import collections
import copy
import collections.abc
import functools
import itertools
import json
import operator
import random
import re
import types

import z3

from sx import values as v
from sx import strings
from sx.engine import Engine, Unsupported, Infeasible
from sx.values import (Sym, SymBool, SymInt, SymFloat, SymIntStr, LazyStr, SymStr, SymRecord, SymSet, SymUnion, E, b_and, b_or, b_not, b_term,
                       mk_bool, mk_int, mk_str, is_str, chars_of, s_concat, eq, merge, deep_sym, mk_int_cases)

INSTRUMENTED = set()      # names of instrumented modules

# -- symbolic containers ------------------------------------------------------------------------


def is_user(x):
    """Instance of an instrumented class with its own equality (hashing it natively would run symbolic code in C)."""
    t = type(x)
    return t.__module__ in INSTRUMENTED and t.__eq__ is not object.__eq__


def needs_assoc(key):
    if isinstance(key, Sym) or is_user(key):
        return True
    if type(key) in (tuple, frozenset):
        return any(needs_assoc(k) for k in key)
    return False


def check_hashable(key):
    if isinstance(key, (list, dict, set)) or type(key).__hash__ is None:
        raise TypeError('unhashable type: %r' % type(key).__name__)
    if type(key) is tuple:
        for k in key:
            check_hashable(k)


def same_key(a, b):
    """bool/SymBool: dict-key equality (identity, or equal hash and equal value)."""
    if a is b:
        return True
    if is_user(a) or is_user(b):
        if type(a) is not type(b):
            return False
        h = eq(sx_hash(a), sx_hash(b))
        if h is False:
            return False
        if not (h is True or bool(h)):
            return False
        return eq(a, b)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            t = b_term(same_key(x, y))
            if t is False:
                return False
            acc.append(t)
        return mk_bool(b_and(*acc))
    return eq(a, b)


def lookup_cases(items, key):
    """[(guard, value)] over the entries that may match the key."""
    out = []
    for k, val in items:
        t = b_term(same_key(k, key))
        if t is False:
            continue
        out.append((t, val))
        if t is True:
            return [(True, val)]
    return out


def _record_filter(d, key):
    """Entries of a plain dict that can match a key whose parts are partly symbolic (quick reject on concrete parts)."""
    if type(key) is tuple:
        n = len(key)
        conc = [(i, k) for i, k in enumerate(key) if not isinstance(k, Sym)]
        doms = [(i, k) for i, k in enumerate(key) if isinstance(k, SymRecord)]
        for k, val in dict.items(d):
            if type(k) is not tuple or len(k) != n:
                continue
            ok = True
            for i, c in conc:
                if k[i] is not c and k[i] != c:
                    ok = False
                    break
            if ok:
                yield k, val
    else:
        for kv in dict.items(d):
            yield kv


_MISSING = object()


class XDict(dict):
    """dict that also takes symbolic keys: it turns into an association list at the first one."""
    __slots__ = ('_al',)

    def __init__(self, *args, **kw):
        dict.__init__(self)
        self._al = None
        self.update(*args, **kw)

    # storage
    def _items(self):
        return dict.items(self) if self._al is None else [(k, val) for k, val in self._al]

    def _find(self, key):
        """Entry [key, value] in assoc mode, deciding equality by forking; None if absent."""
        for e in self._al:
            t = b_term(same_key(e[0], key))
            if t is True or (t is not False and E().branch(t)):
                return e
        return None

    def _to_assoc(self):
        if self._al is None:
            al = [[k, val] for k, val in dict.items(self)]
            dict.clear(self)
            self._al = al

    def __setitem__(self, key, value):
        if self._al is None and not needs_assoc(key):
            dict.__setitem__(self, key, value)
            return
        check_hashable(key)
        self._to_assoc()
        e = self._find(key)
        if e is None:
            self._al.append([key, value])
        else:
            e[1] = value

    def _get(self, key):
        """value or _MISSING; merges values of entries that may match."""
        if self._al is None and not needs_assoc(key):
            return dict.get(self, key, _MISSING)
        check_hashable(key)
        if self._al is None:
            items = list(_record_filter(self, key))
        else:
            items = self._al
        cases = lookup_cases(items, key)
        if not cases:
            return _MISSING
        found = b_or(*[g for g, _ in cases])
        if found is not True and not E().branch(found):
            return _MISSING
        return merge(cases)

    def __getitem__(self, key):
        r = self._get(key)
        if r is _MISSING:
            missing = getattr(type(self), '__missing__', None)
            if missing is not None:
                return missing(self, key)
            raise KeyError(key)
        return r

    def get(self, key, default=None):
        r = self._get(key)
        return default if r is _MISSING else r

    def has(self, key):
        if self._al is None and not needs_assoc(key):
            return dict.__contains__(self, key)
        check_hashable(key)
        items = list(_record_filter(self, key)) if self._al is None else self._al
        return mk_bool(b_or(*[g for g, _ in lookup_cases(items, key)]))

    def __contains__(self, key):
        return bool(self.has(key))

    def __delitem__(self, key):
        if self._al is None and not needs_assoc(key):
            dict.__delitem__(self, key)
            return
        self._to_assoc()
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self._al = [x for x in self._al if x is not e]

    def pop(self, key, *default):
        if self._al is None and not needs_assoc(key):
            return dict.pop(self, key, *default)
        self._to_assoc()
        e = self._find(key)
        if e is None:
            if default:
                return default[0]
            raise KeyError(key)
        self._al = [x for x in self._al if x is not e]
        return e[1]

    def popitem(self):
        if self._al is None:
            return dict.popitem(self)
        if not self._al:
            raise KeyError('popitem(): dictionary is empty')
        return tuple(self._al.pop())

    def setdefault(self, key, default=None):
        if self._al is None and not needs_assoc(key):
            return dict.setdefault(self, key, default)
        self._to_assoc()
        e = self._find(key)
        if e is None:
            self._al.append([key, default])
            return default
        return e[1]

    def update(self, *args, **kw):
        if args:
            src = args[0]
            if isinstance(src, dict):
                for k, val in (src._items() if isinstance(src, XDict) else dict.items(src)):
                    self[k] = val
            elif hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, val in src:
                    self[k] = val
        for k, val in kw.items():
            self[k] = val

    def clear(self):
        dict.clear(self)
        self._al = None

    def copy(self):
        new = type(self)()
        if isinstance(self, XDefaultDict):
            new.default_factory = self.default_factory
        if self._al is None:
            dict.update(new, self)
        else:
            new._al = [list(e) for e in self._al]
        return new

    __copy__ = copy

    def __deepcopy__(self, memo):
        new = type(self)()
        for k, val in self._items():
            new[copy.deepcopy(k, memo)] = copy.deepcopy(val, memo)
        return new

    def __reduce_ex__(self, proto):
        raise Unsupported('pickling a dict')

    def __len__(self):
        return dict.__len__(self) if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return dict.__iter__(self) if self._al is None else iter([e[0] for e in self._al])

    def __reversed__(self):
        return reversed(list(iter(self)))

    def keys(self):
        return dict.keys(self) if self._al is None else XKeys(e[0] for e in self._al)

    def values(self):
        return dict.values(self) if self._al is None else [e[1] for e in self._al]

    def items(self):
        return dict.items(self) if self._al is None else [(e[0], e[1]) for e in self._al]

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        if len(self) != len(other):
            return False
        acc = []
        o = other if isinstance(other, XDict) else XDict(other)
        for k, val in list(self._items()):
            w = o._get(k)
            if w is _MISSING:
                return False
            acc.append(b_term(eq(val, w)))
        return mk_bool(b_and(*acc))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else mk_bool(b_not(b_term(r)))

    __hash__ = None

    def __or__(self, other):
        r = self.copy()
        r.update(other)
        return r

    def __ror__(self, other):
        r = XDict(other)
        r.update(self)
        return r

    def __ior__(self, other):
        self.update(other)
        return self

    def __repr__(self):
        return 'XDict(%r)' % (list(self._items()),)


class XKeys(list):
    """keys() of a dict in association mode."""

    def __init__(self, it):
        list.__init__(self, it)


class XDefaultDict(XDict):
    __slots__ = ('default_factory',)

    def __init__(self, default_factory=None, *args, **kw):
        self.default_factory = default_factory
        XDict.__init__(self, *args, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        r = call(self.default_factory)
        self[key] = r
        return r


class XSet(object):
    """Mutable or frozen set over symbolic or user-defined elements, kept as a list; equality is decided on insertion."""

    def __init__(self, items=(), frozen=False):
        self._l = []
        self.frozen = frozen
        for x in items:
            self._add(x)

    def has(self, x):
        check_hashable(x)
        return mk_bool(b_or(*[b_term(same_key(y, x)) for y in self._l]))

    def __contains__(self, x):
        return bool(self.has(x))

    def _add(self, x):
        check_hashable(x)
        for y in self._l:
            t = b_term(same_key(y, x))
            if t is True or (t is not False and E().branch(t)):
                return
        self._l.append(x)

    add = _add

    def discard(self, x):
        self._l = [y for y in self._l if not bool(same_key(y, x))]

    def remove(self, x):
        n = len(self._l)
        self.discard(x)
        if n == len(self._l):
            raise KeyError(x)

    def pop(self):
        if not self._l:
            raise KeyError('pop from an empty set')
        return self._l.pop()

    def clear(self):
        self._l = []

    def update(self, *others):
        for o in others:
            for x in o:
                self._add(x)

    def copy(self):
        r = XSet(frozen=self.frozen)
        r._l = list(self._l)
        return r

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def issubset(self, other):
        return all(contains(other, x) for x in self._l)

    def issuperset(self, other):
        return all(self.has(x) for x in other)

    def isdisjoint(self, other):
        return not any(contains(other, x) for x in self._l)

    def union(self, *others):
        r = self.copy()
        r.update(*others)
        return r

    def intersection(self, *others):
        r = XSet(frozen=self.frozen)
        r._l = [x for x in self._l if all(contains(o, x) for o in others)]
        return r

    def difference(self, *others):
        r = XSet(frozen=self.frozen)
        r._l = [x for x in self._l if not any(contains(o, x) for o in others)]
        return r

    def symmetric_difference(self, other):
        return self.difference(other).union(XSet(other).difference(self))

    __or__ = union
    __and__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference

    def __ior__(self, o):
        self.update(o)
        return self

    def __rsub__(self, o):
        return XSet(o).difference(self)

    def __ror__(self, o):
        return XSet(o).union(self)

    def __rand__(self, o):
        return XSet(o).intersection(self)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (XSet, set, frozenset)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(len(self._l))

    def __repr__(self):
        return 'XSet(%r)' % self._l


# -- hashing --------------------------------------------------------------------------------------

class SymHash(Sym):
    """hash() of a structure: equal iff the structures are equal (no collisions are assumed)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, other):
        if isinstance(other, SymHash):
            return eq(self.parts, other.parts)
        return False

    def __ne__(self, other):
        return mk_bool(b_not(b_term(self.__eq__(other))))

    def __hash__(self):
        raise Unsupported('native hash of a symbolic hash')

    def __xor__(self, other):
        return HashBag.join('^', self, other)

    def __add__(self, other):
        return HashBag.join('+', self, other)

    def __mul__(self, other):
        return HashBag.join('*', self, other)
    __rxor__ = __xor__
    __radd__ = __add__
    __rmul__ = __mul__


def _opaque(op):
    def binary(self, other):
        return SymHash((op, self, other))

    def reflected(self, other):
        return SymHash((op, other, self))
    return binary, reflected


for _op in ('sub', 'mod', 'and', 'or', 'lshift', 'rshift', 'floordiv', 'pow'):
    _a, _b = _opaque(_op)
    setattr(SymHash, '__%s__' % _op, _a)
    setattr(SymHash, '__r%s__' % _op, _b)


class HashBag(SymHash):
    """Hashes combined by a commutative operation: equal iff the operands are the same in some order."""
    __slots__ = ('op', 'items')
    NEUTRAL = {'^': 0, '+': 0, '*': 1}

    @classmethod
    def join(cls, op, *operands):
        items = []
        for x in operands:
            if isinstance(x, HashBag) and x.op == op:
                items.extend(x.items)
            elif not (type(x) in (int, bool) and x == cls.NEUTRAL[op]):
                items.append(x)
        if len(items) == 1:
            return items[0]
        self = cls((op,))
        self.op = op
        self.items = items
        return self

    def __eq__(self, other):
        if not isinstance(other, HashBag) or other.op != self.op or len(other.items) != len(self.items):
            return False
        acc = []
        for x in self.items:
            mine, its = 0, 0
            for y in self.items:
                mine = mine + count_term(eq(x, y))
            for y in other.items:
                its = its + count_term(eq(x, y))
            acc.append(b_term(eq(mine, its)))
        return mk_bool(b_and(*acc))

    def __hash__(self):
        raise Unsupported('native hash of a symbolic hash')


def count_term(t):
    t = b_term(t)
    return int(t) if isinstance(t, bool) else SymBool(t)._int()


def sx_hash(x):
    if isinstance(x, SymHash):
        return x
    if isinstance(x, (SymInt,)) or type(x) in (int, bool):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, (SymStr, LazyStr, SymRecord)):
        return SymHash(('h', x))
    if isinstance(x, (str, type(None))) or v.rel_info_of(x) is not None:
        return SymHash(('h', x))
    if type(x) is tuple:
        return SymHash(('t',) + tuple(sx_hash(y) for y in x))
    if isinstance(x, (frozenset, SymSet)):
        return SymHash(('s', x))
    if isinstance(x, (list, dict, set)):
        raise TypeError('unhashable type: %r' % type(x).__name__)
    if isinstance(x, SymUnion):
        return sx_hash(x.resolve())
    t = type(x)
    h = t.__hash__
    if h is None:
        raise TypeError('unhashable type: %r' % t.__name__)
    if t.__module__ in INSTRUMENTED and h is not object.__hash__:
        r = h(x)
        if not isinstance(r, (int, SymInt, SymHash, SymBool)):
            raise TypeError('__hash__ method should return an integer')
        return r
    return SymHash(('o', id(x)))


# -- displays ---------------------------------------------------------------------------------------

def mkdict(*pairs):
    d = XDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def mkdict_pairs(it):
    d = XDict()
    for k, val in it:
        d[k] = val
    return d


def mkset(items, frozen=False):
    if isinstance(items, SymSet):
        return SymSet(items.items, not frozen) if not frozen or items.mutable else items
    items = list(items)
    if any(needs_assoc(x) for x in items):
        return XSet(items, frozen)
    return frozenset(items) if frozen else set(items)


# -- operators ----------------------------------------------------------------------------------------

def contains(container, item):
    t = type(container)
    if t is SymUnion:
        container = container.resolve()
        t = type(container)
    if t is XDict or t is XDefaultDict:
        return container.has(item)
    if t is XSet:
        return container.has(item)
    if t is SymSet:
        return mk_bool(container._contains(item))
    if t is str or t is SymStr or issubclass(t, LazyStr):
        if isinstance(item, Sym) or t is not str:
            if not is_str(item):
                raise TypeError("'in <string>' requires string as left operand, not %s" % type(item).__name__)
            if isinstance(container, LazyStr):
                container = container.text()
            return mk_bool(v.s_contains(container, item))
        return item in container
    if t in (list, tuple, XKeys):
        if isinstance(item, Sym) or any(isinstance(x, Sym) for x in container):
            acc = []
            for x in container:
                r = b_term(eq(x, item))
                if r is True:
                    return True
                acc.append(r)
            return mk_bool(b_or(*acc))
        return item in container
    if t in (set, frozenset) or t is dict or t is type({}.keys()):
        if needs_assoc(item):
            check_hashable(item)
            if isinstance(item, SymStr):
                cands = [x for x in container if isinstance(x, str) and len(x) == len(item)]
            else:
                cands = container
            return mk_bool(b_or(*[b_term(same_key(x, item)) for x in cands]))
        return item in container
    if t is range and isinstance(item, SymInt):
        if container.step == 1:
            return mk_bool(b_and(b_term(item >= container.start), b_term(item < container.stop)))
        return mk_bool(b_or(*[b_term(item == x) for x in container]))
    c = getattr(t, '__contains__', None)
    if c is not None and isinstance(c, types.FunctionType):
        return bool(c(container, item))
    return item in container


def not_contains(container, item):
    r = contains(container, item)
    return (not r) if isinstance(r, bool) else mk_bool(b_not(r.t))


def is_(a, b):
    if isinstance(a, SymRecord) or isinstance(b, SymRecord):
        if not isinstance(a, SymRecord):
            a, b = b, a
        return mk_bool(a._eq_term(b)) if b is None or isinstance(b, SymRecord) or v.rel_info_of(b) is not None else False
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return a == b
        return False
    if isinstance(a, SymUnion):
        return mk_bool(b_or(*[g for g, x in a.alts if x is b]))
    if isinstance(b, SymUnion):
        return is_(b, a)
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return (not r) if isinstance(r, bool) else mk_bool(b_not(r.t))


def _index_cases(i, n):
    """[(guard, position)] for a symbolic index into a sequence of length n; forks on out of range."""
    cases = i.cases
    if cases is None:
        ok = b_and(b_term(i >= -n), b_term(i < n))
        if ok is False or (ok is not True and not E().branch(ok)):
            raise IndexError('index out of range')
        out = []
        neg = b_term(i < 0)
        if neg is not False and (neg is True or E().branch(neg)):
            return [(b_term(i == k - n), k) for k in range(n)]
        lo, hi = (max(0, i.lo), min(n - 1, i.hi)) if i.bv is not None else (0, n - 1)
        return [(b_term(i == k), k) for k in range(lo, hi + 1)]
    bad = b_or(*[g for g, k in cases if not -n <= k < n])
    if bad is True or (bad is not False and E().branch(bad)):
        raise IndexError('index out of range')
    return [(g, k % n) for g, k in cases if -n <= k < n]


def getitem(obj, idx):
    t = type(obj)
    if t is dict and needs_assoc(idx):
        check_hashable(idx)
        cases = lookup_cases(_record_filter(obj, idx), idx)
        found = b_or(*[g for g, _ in cases]) if cases else False
        if found is False or (found is not True and not E().branch(found)):
            raise KeyError(idx)
        return merge(cases)
    if isinstance(idx, Sym):
        if t in (list, tuple, XKeys) and isinstance(idx, (SymInt, SymBool)):
            if isinstance(idx, SymBool):
                idx = idx._int()
            return merge([(g, obj[k]) for g, k in _index_cases(idx, len(obj))])
        if t in (str, SymStr) and isinstance(idx, SymInt):
            return merge([(g, obj[k]) for g, k in _index_cases(idx, len(obj))])
        if isinstance(idx, SymUnion):
            idx = idx.resolve()
        if t is XDict or t is XDefaultDict:
            return obj[idx]
        if t in (list, tuple, str):
            return obj[operator.index(idx)]
    return obj[idx]


class XView(object):
    """Result of set algebra on views of dictionaries: distinct elements, each present under its guard."""

    def __init__(self, items):
        self.items = [(x, g) for x, g in items if g is not False]

    def _len(self):
        return h_len(SymSet([(i, g) for i, (x, g) in enumerate(self.items)]))

    def __bool__(self):
        return bool(mk_bool(b_or(*[g for x, g in self.items])))

    def __iter__(self):
        for x, g in self.items:
            if g is True or E().branch(g):
                yield x

    def whole(self):
        return XSet(self)

    def __len__(self):
        return sum(1 for _ in self)      # list() would ask for the length

    def __contains__(self, x):
        return x in self.whole()

    def __eq__(self, other):
        return self.whole() == other

    def __ne__(self, other):
        return not self == other
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.whole(), name)


for _op in ('sub', 'and', 'or', 'xor', 'le', 'ge', 'rsub', 'rand', 'ror'):
    setattr(XView, '__%s__' % _op, (lambda name: lambda self, other: getattr(self.whole(), name)(other))('__%s__' % _op))
_VIEWS = (type({}.items()), XView)


def _of_view(x):
    return x.items if type(x) is XView else [(i, True) for i in x]


def _symbolic_view(x):
    return type(x) is XView or type(x) is _VIEWS[0] and any(isinstance(w, Sym) for _, w in x)


def view_op(a, b, op):
    if type(a) in _VIEWS and type(b) in _VIEWS and (_symbolic_view(a) or _symbolic_view(b)):
        other = _of_view(b)
        out = []
        for x, g in _of_view(a):
            there = b_or(*[b_and(h, b_term(same_key(x, y))) for y, h in other])
            out.append((x, b_and(g, b_not(there) if op is operator.sub else there)))
        return XView(out)
    return op(a, b)


def sub(a, b):
    return view_op(a, b, operator.sub)


def and_(a, b):
    return view_op(a, b, operator.and_)


def mod(a, b):
    if is_str(a):
        return str_mod(a, b)
    return a % b


# -- formatting -----------------------------------------------------------------------------------------

def to_str(x):
    """str(x)"""
    if isinstance(x, (SymStr, LazyStr)):
        return x
    if isinstance(x, SymInt):
        return v.mk_int_str(x)
    if isinstance(x, SymFloat):
        return x.text()
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, SymRecord):
        x = x.concretize()
    if isinstance(x, SymUnion):
        return to_str(x.resolve())
    t = type(x)
    if t.__module__ in INSTRUMENTED:
        s = getattr(t, '__str__')
        if isinstance(s, types.FunctionType):
            r = s(x)
            if not is_str(r):
                raise TypeError('__str__ returned non-string (type %s)' % type(r).__name__)
            return r
        if s is object.__str__ and isinstance(getattr(t, '__repr__'), types.FunctionType):
            return x.__repr__()
    if isinstance(x, BaseException) and any(isinstance(a, Sym) for a in x.args):
        return to_str(x.args[0]) if len(x.args) == 1 else to_repr(x.args)
    if t in (tuple, list, dict, set, frozenset, XDict, XSet, XDefaultDict, SymSet, XKeys):
        return to_repr(x)
    return str(x)


def to_repr(x):
    if isinstance(x, SymSet):
        return 'frozenset(...)'        # texts of error messages only; spelling it out would fork over all members
    if isinstance(x, SymStr):
        return s_concat(["'", x, "'"])  # escapes are not modelled; only error messages get here
    if isinstance(x, LazyStr):
        return s_concat(["'", x, "'"])
    if isinstance(x, (SymInt, SymFloat)):
        return to_str(x)
    if isinstance(x, (SymRecord, SymBool, SymUnion)):
        return to_repr(x.concretize() if isinstance(x, SymRecord) else bool(x) if isinstance(x, SymBool) else x.resolve())
    t = type(x)
    if t in (list, XKeys):
        return s_concat(['['] + _sep([to_repr(y) for y in x]) + [']'])
    if t is tuple:
        return s_concat(['('] + _sep([to_repr(y) for y in x]) + [',)' if len(x) == 1 else ')'])
    if t in (dict, XDict, XDefaultDict):
        return s_concat(['{'] + _sep([s_concat([to_repr(k), ': ', to_repr(w)]) for k, w in x.items()]) + ['}'])
    if t in (XSet,):
        return s_concat(['{'] + _sep([to_repr(y) for y in x]) + ['}'])
    if t in (set, frozenset):
        return repr(x)
    if t.__module__ in INSTRUMENTED and isinstance(getattr(t, '__repr__'), types.FunctionType):
        return x.__repr__()
    return repr(x)


def _sep(items):
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(', ')
        out.append(x)
    return out


_SPEC = re.compile(r'([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def _format_one(flags, width, prec, conv, arg):
    if conv in 'sra':
        s = to_str(arg) if conv == 's' else to_repr(arg)
        if prec is not None:
            s = mk_str(chars_of(s)[:int(prec)])
        if width is not None and int(width):
            pad = int(width) - len(s)
            if pad > 0:
                s = s_concat([s, ' ' * pad]) if '-' in flags else s_concat([' ' * pad, s])
        return s
    if conv in 'diu':
        if is_str(arg):
            raise TypeError('%%%s format: a real number is required, not str' % conv)
        if isinstance(arg, SymFloat):
            arg = arg.__trunc__()
        if isinstance(arg, (SymInt, SymBool)):
            if flags or width or prec:
                arg = arg.__index__()
            else:
                return to_str(arg if isinstance(arg, SymInt) else arg._int())
    if isinstance(arg, SymRecord):
        arg = arg.concretize()
    if conv in 'fF' and isinstance(arg, (SymInt, SymBool, SymFloat)):
        arg = v.float_of(arg)
        if isinstance(arg, SymFloat) and prec == '0' and not flags and not width:
            return arg.text('.0f')
    if isinstance(arg, SymFloat):
        arg = arg.value()
    if isinstance(arg, (SymInt, SymBool)):
        arg = arg.__index__()
    return ('%' + flags + (width or '') + ('.' + prec if prec is not None else '') + conv) % (arg,)


def str_mod(fmt, args):
    """fmt % args"""
    if type(fmt) is str and not deep_any(args):
        return fmt % args
    cs = chars_of(fmt)
    n = len(cs)
    out = []
    lit = []
    seq = args if isinstance(args, tuple) else None
    used = 0
    single_used = False
    i = 0

    def is_char(c, ch):
        t = v.c_eq(c, ord(ch))
        return t if isinstance(t, bool) else E().branch(t)

    def next_arg():
        nonlocal used, single_used
        if seq is None:
            if single_used:
                raise TypeError('not enough arguments for format string')
            single_used = True
            return args
        if used >= len(seq):
            raise TypeError('not enough arguments for format string')
        used += 1
        return seq[used - 1]

    while i < n:
        if not is_char(cs[i], '%'):
            out.append(cs[i])
            i += 1
            continue
        i += 1
        if i >= n:
            raise ValueError('incomplete format')
        mapping = None
        if is_char(cs[i], '('):
            j = i + 1
            depth = 1
            while True:
                if j >= n:
                    raise ValueError('incomplete format key')
                if is_char(cs[j], ')'):
                    depth -= 1
                    if depth == 0:
                        break
                elif is_char(cs[j], '('):
                    depth += 1
                j += 1
            key = mk_str(cs[i + 1:j])
            if not isinstance(args, dict):
                raise TypeError('format requires a mapping')
            mapping = getitem(args, key)
            i = j + 1
        flags = ''
        width = prec = None
        # flags, width, precision: decided character by character
        while i < n and not isinstance(cs[i], int) or i < n and chr(cs[i]) in '-#0 +':
            if isinstance(cs[i], int):
                flags += chr(cs[i])
                i += 1
                continue
            hit = None
            for ch in '-#0 +':
                if is_char(cs[i], ch):
                    hit = ch
                    break
            if hit is None:
                break
            flags += hit
            i += 1
        digits = ''
        while i < n:
            hit = None
            for ch in '0123456789':
                if is_char(cs[i], ch):
                    hit = ch
                    break
            if hit is None:
                break
            digits += hit
            i += 1
        if digits:
            width = digits
        elif i < n and is_char(cs[i], '*'):
            width = str(int(next_arg()))
            i += 1
        if i < n and is_char(cs[i], '.'):
            i += 1
            prec = ''
            while i < n:
                hit = None
                for ch in '0123456789':
                    if is_char(cs[i], ch):
                        hit = ch
                        break
                if hit is None:
                    break
                prec += hit
                i += 1
            prec = prec or '0'
        if i < n and any(is_char(cs[i], ch) for ch in 'hlL'):
            i += 1
        if i >= n:
            raise ValueError('incomplete format')
        conv = None
        for ch in 'sdriuoxXeEfFgGca%':
            if is_char(cs[i], ch):
                conv = ch
                break
        if conv is None:
            raise ValueError('unsupported format character at index %d' % i)
        i += 1
        if conv == '%':
            out.append(ord('%'))
            continue
        arg = next_arg() if mapping is None else mapping
        r = _format_one(flags, width, prec, conv, arg)
        if isinstance(r, LazyStr) and not out and i == n:
            return r
        out.extend(chars_of(r))
    if seq is not None and used < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    if seq is None and not single_used and not isinstance(args, (dict, list)) and not (
            isinstance(args, Sym) and False):
        if not hasattr(args, '__getitem__') or is_str(args):
            raise TypeError('not all arguments converted during string formatting')
    return mk_str(out)


def deep_any(x):
    """Does x contain anything that must not reach C formatting?"""
    if isinstance(x, Sym) or isinstance(x, (XDict, XSet)):
        return True
    if type(x) in (tuple, list, set, frozenset):
        return any(deep_any(y) for y in x)
    if type(x) is dict:
        return any(deep_any(k) or deep_any(w) for k, w in x.items())
    t = type(x)
    if t.__module__ in INSTRUMENTED:
        return True
    return False


def fmt_value(val, conv, spec):
    if conv == 's':
        val = to_str(val)
    elif conv in ('r', 'a'):
        val = to_repr(val)
    if isinstance(val, SymRecord):
        val = val.concretize()
    if deep_any(val):
        if spec in ('', None) or (spec == 's' and is_str(val)) or (spec == 'd' and v.is_int(val)):
            return to_str(val)
        if is_str(val):
            m = re.match(r'^(?:(.)?([<>^]))?(\d+)?s?$', spec)
            if m:
                w = int(m.group(3) or 0)
                pad = w - len(val)
                fill, al = m.group(1) or ' ', m.group(2) or '<'
                if pad <= 0:
                    return val
                left = 0 if al == '<' else pad if al == '>' else pad // 2
                return s_concat([fill * left, val, fill * (pad - left)])
            val = v.str_text(val)
            return format(val.concretize() if isinstance(val, SymStr) else val, spec)
        if isinstance(val, (SymInt, SymBool)) and spec == '.0f':
            val = v.float_of(val)
        if isinstance(val, SymFloat):
            return val.text(spec)
        if isinstance(val, float):
            return format(val, spec)
        if isinstance(val, (SymInt, SymBool)):
            return format(val.__index__(), spec)
        f = type(val).__format__
        if isinstance(f, types.FunctionType):
            return f(val, spec)
        return to_str(val)
    return format(val, spec or '')


def fstring(parts):
    out = []
    for p in parts:
        out.append(p if type(p) is not tuple else fmt_value(*p))
    return s_concat(out) if out else ''


_STRFMT = __import__('string').Formatter()


def str_format(fmt, args, kw):
    if type(fmt) is str and not deep_any(args) and not deep_any(dict(kw) if not isinstance(kw, XDict) else kw):
        return fmt.format(*args, **kw)
    if isinstance(fmt, LazyStr):
        fmt = fmt.text()
    if isinstance(fmt, SymStr):
        fmt = fmt.concretize()
    out = []
    auto = 0
    for lit, field, spec, conv in _STRFMT.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = __import__('_string').formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        obj = args[first] if isinstance(first, int) else kw[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else getitem(obj, i)
        if spec:
            spec = str_format(spec, args[auto:] if '{}' in spec else args, kw)
            auto += 1 if '{}' in spec else 0
        out.append(fmt_value(obj, conv, spec))
    return s_concat(out) if out else ''


# -- builtins ---------------------------------------------------------------------------------------------

def h_len(x):
    if isinstance(x, (SymSet, XView)):
        return x._len()
    return len(x)


def h_isinstance(x, classes):
    if type(classes) is tuple:
        return any(h_isinstance(x, c) for c in classes)
    if isinstance(x, (SymStr, LazyStr)):
        return issubclass(str, classes)
    if isinstance(x, SymBool):
        return issubclass(bool, classes)
    if isinstance(x, SymInt):
        return issubclass(int, classes)
    if isinstance(x, SymFloat):
        return issubclass(float, classes)
    if isinstance(x, SymRecord):
        n = x._none()
        isnone = n is True or (n is not False and E().branch(n))
        return isinstance(None if isnone else x.info.records[0], classes)
    if isinstance(x, SymSet):
        return issubclass(frozenset, classes)
    if isinstance(x, XSet):
        return issubclass(frozenset if x.frozen else set, classes)
    if isinstance(x, SymUnion):
        return mk_bool(b_or(*[b_and(g, isinstance(o, classes)) for g, o in x.alts]))
    return isinstance(x, classes)


_REAL_TYPES = [(SymStr, str), (SymIntStr, str), (v.SymStrCases, str), (SymBool, bool), (SymInt, int), (SymFloat, float), (SymSet, frozenset), (XDefaultDict, collections.defaultdict),
               (XDict, dict)]


def h_type(x):
    for s, t in _REAL_TYPES:
        if type(x) is s:
            return t
    if isinstance(x, XSet):
        return frozenset if x.frozen else set
    if isinstance(x, SymRecord):
        return type(x.concretize())
    if isinstance(x, SymUnion):
        return h_type(x.resolve())
    return type(x)


def h_str(*args, **kw):
    if not args:
        return str(**kw)
    if len(args) > 1 or kw:
        return str(*args, **kw)
    return to_str(args[0])


def h_int(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._int()
        if isinstance(x, SymFloat):
            return x.__trunc__()
        if isinstance(x, SymIntStr):
            return x.n
        if isinstance(x, SymStr):
            return int(x.concretize())
    elif len(args) == 2 and not kw and args[1] == 10 and isinstance(args[0], (SymIntStr, SymStr)):
        return h_int(args[0])
    return int(*[_concretize_arg(a) for a in args], **kw)


def h_float(*args):
    return v.float_of(args[0]) if args and isinstance(args[0], (SymInt, SymBool, SymFloat)) else float(*args)


def h_bool(*args):
    if not args:
        return False
    x = args[0]
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymRecord):
        return mk_bool(b_not(x._none()))
    if isinstance(x, SymSet):
        return mk_bool(b_or(*[g for _, g in x.items]))
    return bool(x)


def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def h_any(it):
    acc = []
    for x in it:
        if isinstance(x, SymBool):
            if isinstance(it, (list, tuple)):
                acc.append(x.t)
                continue
            if x:
                return True
        elif x:
            return True
    return mk_bool(b_or(*acc)) if acc else False


def h_all(it):
    acc = []
    for x in it:
        if isinstance(x, SymBool):
            if isinstance(it, (list, tuple)):
                acc.append(x.t)
                continue
            if not x:
                return False
        elif not x:
            return False
    return mk_bool(b_and(*acc)) if acc else True


def quantified(f, it, parts, plain):
    """f(elt for x in it if ...) where the parts call nothing."""
    t = type(it)
    if t is SymUnion:
        it = it.resolve()
        t = type(it)
    if f in _QUANTIFIERS and t in (SymSet, list, tuple, frozenset) and len(it.items if t is SymSet else it) <= 64:
        try:
            rows = []
            for x, g in (it.items if t is SymSet else [(x, True) for x in it]):
                elt, *conditions = parts(x)
                rows.append((b_and(g, *[b_term(truth(c)) for c in conditions]), x, elt))
            r = _quantify(f, rows)
        except Exception:
            r = NotImplemented
        if r is not NotImplemented:
            return r
    return call(f, plain(it))


def truth(c):
    return c if isinstance(c, (bool, SymBool)) else bool(c)


def _quantify(f, rows):
    if f is all:
        return mk_bool(b_and(*[b_or(b_not(g), b_term(truth(e))) for g, _, e in rows]))
    if f is any:
        return mk_bool(b_or(*[b_and(g, b_term(truth(e))) for g, _, e in rows]))
    if all(g is True for g, _, _ in rows):
        return NotImplemented
    if f is sum:
        if not all(isinstance(e, (bool, int)) for _, _, e in rows):
            return NotImplemented
        n = 0
        for g, _, e in rows:
            if g is not False:
                n = n + (int(e) if g is True else SymBool(g)._int() * int(e))
        return n
    if all(e is x for _, x, e in rows) and not any(needs_assoc(x) for _, x, _ in rows):
        # a subset of distinct values
        for i, (_, x, _) in enumerate(rows):
            if any(x is y or x == y for _, y, _ in rows[:i]):
                return NotImplemented
        return SymSet([(x, g) for g, x, _ in rows], f is set)
    return NotImplemented


_QUANTIFIERS = (all, any, sum, set, frozenset)


def h_map(f, *its):
    return (call(f, *a) for a in zip(*its))


def h_filter(f, it):
    return (x for x in it if (x if f is None else call(f, x)))


def h_dict(*args, **kw):
    return XDict(*args, **kw)


def h_defaultdict(factory=None, *args, **kw):
    return XDefaultDict(factory, *args, **kw)


def h_set(it=()):
    r = mkset(it)
    # an empty set may be given symbolic elements later
    return XSet() if type(r) is set and not r else r


def h_frozenset(it=()):
    return mkset(it, frozen=True)


def h_ord(c):
    if isinstance(c, SymStr) and len(c) == 1:
        return mk_int(z3.BV2Int(c.chars[0]))
    return ord(v.str_text(c))


def h_abs(x):
    return abs(x)


def _key_wrap(kw):
    key = kw.get('key')
    if key is not None and not isinstance(key, types.FunctionType):
        kw = dict(kw)
        kw['key'] = lambda x: call(key, x)
    return kw


def h_sorted(it, **kw):
    return sorted(it, **_key_wrap(kw))


def h_minmax(name):
    real = getattr(builtins, name)

    def fn(*args, **kw):
        kw = _key_wrap(kw)
        if not kw and len(args) >= 2 and all(isinstance(a, (int, SymInt)) for a in args):
            r = args[0]
            for a in args[1:]:
                c = b_term(a > r if name == 'max' else a < r)
                if c is True:
                    r = a
                elif c is not False:
                    r = merge([(c, a), (b_not(c), r)])
            return r
        return real(*args, **kw)
    return fn


def h_getattr(obj, name, *default):
    if isinstance(name, SymStr):
        name = name.concretize()
    return getattr(obj, name, *default)


def h_hasattr(obj, name):
    if isinstance(name, SymStr):
        name = name.concretize()
    try:
        getattr(obj, name)
        return True
    except AttributeError:
        return False


def h_iter(x, *a):
    return iter(x, *a)


def h_divmod(a, b):
    if isinstance(a, SymInt):
        return (a // b, a % b)
    return divmod(a, b)


def h_repr(x):
    return to_repr(x)


def h_format(x, spec=''):
    return fmt_value(x, None, spec)


def h_range(*args):
    return range(*[operator.index(a) for a in args])


def h_reversed(x):
    if isinstance(x, (SymStr, LazyStr)):
        return iter(list(x)[::-1])
    return reversed(x)


def h_print(*a, **kw):
    return None


def h_copy(x):
    return copy.copy(x)


BUILTIN = {
    len: h_len, isinstance: h_isinstance, hash: sx_hash, sum: h_sum, any: h_any, all: h_all, sorted: h_sorted,
    max: h_minmax('max'), min: h_minmax('min'), ord: h_ord, repr: h_repr, format: h_format, divmod: h_divmod,
    getattr: h_getattr, hasattr: h_hasattr, print: h_print,
    operator.contains: contains, operator.getitem: getitem, operator.mod: mod,
    operator.is_: is_, operator.is_not: is_not,
}
TYPES = {
    str: h_str, int: h_int, bool: h_bool, float: h_float, dict: h_dict, set: h_set, frozenset: h_frozenset, map: h_map, filter: h_filter,
    collections.OrderedDict: h_dict, collections.defaultdict: h_defaultdict, range: h_range, reversed: h_reversed,
}


def _type_call(f, args, kw):
    if f is type:
        if len(args) == 1:
            return h_type(args[0])
        return type(*args, **kw)
    h = TYPES.get(f)
    if h is not None:
        return h(*args, **kw)
    if f.__module__ == 'itertools':
        return f(*[_callback(a) for a in args], **{k: _callback(a) for k, a in kw.items()})
    return f(*args, **kw)


def _callback(a):
    """What C code calls with elements that may be symbolic."""
    if type(a) in (_BF, _BM, _MD, _WD, _MW, _LRU) or isinstance(a, type) and a.__module__ == 'builtins':
        return lambda *args, **kw: call(a, *args, **kw)
    return a


def _builtin(f, args, kw):
    """A function of C without an encoding: most refuse symbolic arguments, and are asked again with each of their values."""
    try:
        return f(*args, **kw)
    except TypeError:
        if not any(isinstance(a, Sym) for a in list(args) + list(kw.values())):
            raise
        args = [_concretize_arg(a) for a in args]
        kw = {k: _concretize_arg(a) for k, a in kw.items()}
        return f(*args, **kw)


def _container_sym(self, args):
    return any(needs_assoc(a) or deep_sym(a) or isinstance(a, (XSet, SymSet)) for a in args)


def _set_method(self, name, args, kw):
    if name in ('add', 'discard', 'remove', 'update'):
        if name == 'update':
            args = [list(a) if not isinstance(a, (set, frozenset)) else a for a in args]
            if any(needs_assoc(x) for a in args for x in a):
                raise Unsupported('set.update with symbolic elements')
            return self.update(*args)
        arg = args[0]
        if isinstance(arg, SymStr):
            arg = arg.concretize()
        elif isinstance(arg, SymRecord):
            arg = arg.concretize()
        elif isinstance(arg, SymInt):
            arg = arg.__index__()
        elif needs_assoc(arg):
            raise Unsupported('set.%s with %r' % (name, type(arg)))
        return getattr(self, name)(arg)
    if any(isinstance(a, SymSet) for a in args):
        return getattr(SymSet.of(self), name)(*args, **kw)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        x = XSet()
        x._l = list(self)
        return getattr(x, name)(*args, **kw)
    x = XSet(self, isinstance(self, frozenset))
    return getattr(x, name)(*args, **kw)


def _bound_builtin(f, self_, args, kw):
    """Method of a built-in object."""
    name = f.__name__
    t = type(self_)
    if t is str:
        if any(isinstance(a, Sym) for a in args) or name in ('join', 'format', 'format_map', 'translate') or \
                any(isinstance(a, Sym) for a in kw.values()):
            if name == 'join':
                items = list(args[0])
                if not any(isinstance(x, Sym) for x in items):
                    return self_.join(items)
                return strings.m_join(self_, items)
            if name in ('format', 'format_map'):
                return getattr(strings, 'm_' + name)(self_, *args, **kw)
            if name in ('startswith', 'endswith') or any(isinstance(a, Sym) for a in args):
                return strings.call_method(self_, name, args, kw)
        return f(*args, **kw)
    if t is re.Pattern:
        subject = [a for a in list(args) + list(kw.values()) if isinstance(a, (SymStr, LazyStr))]
        if subject:
            args = [v.str_text(a) if isinstance(a, Sym) else a for a in args]
            from sx import rex
            try:
                return rex.pattern_method(self_, name, args, kw)
            except Unsupported:
                args = [a.concretize() if isinstance(a, SymStr) else a for a in args]
                return f(*args, **kw)
        if name in ('sub', 'subn') and args and callable(args[0]):
            # the callback may return symbolic text
            from sx import rex
            return rex.pattern_method(self_, name, args, kw)
        return f(*args, **kw)
    if t in (set, frozenset):
        if _container_sym(self_, args):
            return _set_method(self_, name, args, kw)
        return f(*args, **kw)
    if t is dict:
        if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__') and args and needs_assoc(args[0]):
            if name == 'get':
                try:
                    return getitem(self_, args[0])
                except KeyError:
                    return args[1] if len(args) > 1 else None
            if name == '__getitem__':
                return getitem(self_, args[0])
            if name == '__contains__':
                return contains(self_, args[0])
            raise Unsupported('plain dict.%s with a symbolic key' % name)
        return f(*args, **kw)
    if t in (list, tuple):
        if name == 'sort':
            return self_.sort(**_key_wrap(kw))
        return f(*args, **kw)
    return f(*args, **kw)


_FUNCS = {}


def _register_funcs():
    def pat(name):
        def fn(pattern, *args, **kw):
            flags = kw.pop('flags', 0)
            n = 2 if name in ('sub', 'subn') else 1
            if name in ('findall', 'finditer', 'match', 'search', 'fullmatch') and len(args) > n:
                flags, args = args[n], args[:n]
            if isinstance(pattern, SymStr):
                pattern = pattern.concretize()
            if isinstance(pattern, str):
                pattern = re.compile(pattern, flags)
            return call(getattr(pattern, name), *args, **kw)
        return fn
    for name in ('findall', 'finditer', 'match', 'search', 'fullmatch', 'sub', 'subn', 'split'):
        _FUNCS[getattr(re, name)] = pat(name)

    def h_escape(s):
        return re.escape(s.concretize() if isinstance(s, SymStr) else v.str_text(s))
    _FUNCS[re.escape] = h_escape
    _FUNCS[json.dumps] = lambda x, **kw: JsonText(json_value(x))
    _FUNCS[json.loads] = lambda x, **kw: x.value if isinstance(x, JsonText) else wrap_json(json.loads(x, **kw))


class JsonText(object):
    """json.dumps of a symbolic structure, kept as the value json.loads gives back."""

    def __init__(self, value):
        self.value = value


def wrap_json(x):
    if type(x) is dict:
        return XDict({k: wrap_json(w) for k, w in x.items()})
    if type(x) is list:
        return [wrap_json(y) for y in x]
    return x


def json_value(x):
    """What json.loads(json.dumps(x)) gives; raises TypeError like json does."""
    if x is None or isinstance(x, (bool, SymBool, int, float, SymInt)):
        return x
    if is_str(x):
        return x
    if isinstance(x, (list, tuple)):
        return [json_value(y) for y in x]
    if isinstance(x, dict):
        out = XDict()
        for k, w in x.items():
            if is_str(k):
                pass
            elif isinstance(k, SymBool):
                k = 'true' if k else 'false'
            elif k is True or k is False:
                k = 'true' if k else 'false'
            elif k is None:
                k = 'null'
            elif isinstance(k, (int, SymInt)):
                k = to_str(k)
            else:
                raise TypeError('keys must be str, int, float, bool or None, not %s' % type(k).__name__)
            out[k] = json_value(w)
        return out
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)


_register_funcs()

_BF = types.BuiltinFunctionType
_BM = type(re.compile('').sub)     # bound built-in methods of the newer calling convention
_MD = type(str.join)
_WD = type(str.__len__)
_MW = type(''.__len__)
_LRU = type(functools.lru_cache(lambda: 0))


LRU_MEMO = {}      # contents of functools caches, per path (sx/snapshot.py clears it)


def _remembered(f, args, kw):
    entry = LRU_MEMO.get(id(f))
    if entry is None:
        entry = LRU_MEMO[id(f)] = (f, XDict())
    memo = entry[1]
    key = (tuple(args), tuple(sorted(kw.items())))
    check_hashable(key)
    found = memo._get(key)
    if found is not _MISSING:
        return found
    value = call(f.__wrapped__, *args, **kw)
    memo[key] = value
    return value


def _concretize_arg(a):
    if isinstance(a, SymStr):
        return a.concretize()
    if isinstance(a, LazyStr):
        return a.concretize()
    if isinstance(a, SymInt):
        return a.__index__()
    if isinstance(a, SymFloat):
        return a.value()
    if isinstance(a, SymBool):
        return bool(a)
    if isinstance(a, (SymRecord, SymSet)):
        return a.concretize()
    return a


def call(f, /, *args, **kw):
    t = type(f)
    eng = Engine.current
    if eng is not None:
        eng.tick()
    if t is types.FunctionType:
        try:
            h = _FUNCS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kw)
        return f(*args, **kw)
    if t is types.MethodType:
        if type(f.__func__) is _LRU:
            return _remembered(f.__func__, (f.__self__,) + args, kw)
        return f(*args, **kw)
    if t is _BF or t is _BM:
        self_ = f.__self__
        if self_ is None or type(self_) is types.ModuleType:
            h = BUILTIN.get(f)
            if h is not None:
                return h(*args, **kw)
            return _builtin(f, args, kw)
        if isinstance(self_, type):      # dict.fromkeys, str.maketrans, object.__new__ ...
            if self_ is dict and f.__name__ == 'fromkeys':
                return mkdict_pairs((k, args[1] if len(args) > 1 else None) for k in args[0])
            return f(*args, **kw)
        return _bound_builtin(f, self_, args, kw)
    if isinstance(f, type):
        ix = getattr(f, '_external_index', None)
        if ix is not None and args and isinstance(args[0], Sym):
            return _relation_call(f, args[0])
        return _type_call(f, args, kw)
    if t is _MD or t is _WD:
        name = f.__name__
        if args and isinstance(args[0], (Sym, XDict, XSet)) or (args and type(args[0]) in (str, set, frozenset, dict)):
            return call(getattr(args[0], name), *args[1:], **kw)
        return f(*args, **kw)
    if t is _MW:
        self_ = f.__self__
        if isinstance(self_, (str, set, frozenset, dict, tuple, list)) and f.__name__ in ('__contains__', '__getitem__', '__mod__'):
            return {'__contains__': contains, '__getitem__': getitem, '__mod__': mod}[f.__name__](self_, *args)
        if len(args) == 1 and deep_sym(args):
            if f.__name__ == '__eq__':
                return eq(self_, args[0])
            if f.__name__ == '__ne__':
                return mk_bool(b_not(b_term(eq(self_, args[0]))))
        return f(*args, **kw)
    if t is _LRU:
        return _remembered(f, args, kw)
    if t is functools.partial:
        return call(f.func, *f.args, *args, **dict(f.keywords, **kw))
    return f(*args, **kw)


def _relation_call(relation, key):
    index = relation._external_index
    if isinstance(key, SymUnion):
        key = key.resolve()
    cases = lookup_cases(list(index.items()), key)
    found = b_or(*[g for g, _ in cases]) if cases else False
    if found is False or (found is not True and not E().branch(found)):
        from rels import exceptions
        raise exceptions.NotExternalValueError(key.concretize() if isinstance(key, SymStr) else 'symbolic')
    return merge(cases)


def bind(value):
    return True


def match_sequence(subject, number, star):
    if type(subject) in (XKeys,):
        subject = list(subject)
    if not isinstance(subject, collections.abc.Sequence) or isinstance(subject, (str, bytes, bytearray, Sym)):
        return None
    items = list(subject)
    if star is None:
        return items if len(items) == number else None
    after = number - star - 1
    if len(items) < star + after:
        return None
    return items[:star] + [items[star:len(items) - after]] + items[len(items) - after:]


def match_mapping(subject, keys, rest):
    if not isinstance(subject, (collections.abc.Mapping, XDict)):
        return None
    out = []
    for k in keys:
        if not contains(subject, k):
            return None
        out.append(getitem(subject, k))
    if rest:
        out.append(mkdict_pairs((k, w) for k, w in subject.items() if not any(bool(eq(k, x)) for x in keys)))
    return out


_SELF_MATCH = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def match_class(subject, cls, number, names):
    if not call(isinstance, subject, cls):
        return None
    out = []
    if number:
        if '__match_args__' not in dir(cls) and issubclass(cls, _SELF_MATCH):
            if number > 1:
                raise TypeError('%s() accepts 1 positional sub-pattern (%d given)' % (cls.__name__, number))
            out.append(subject)
        else:
            names = tuple(cls.__match_args__[:number]) + tuple(names)
    for name in names:
        try:
            out.append(getattr(subject, name))
        except AttributeError:
            return None
    return out


def enter(name):
    eng = Engine.current
    if eng is not None:
        eng.functions.add(name)
        eng.tick()


def tick():
    eng = Engine.current
    if eng is not None:
        eng.tick()
