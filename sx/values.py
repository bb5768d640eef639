"""Symbolic values standing in for bool, int, str, relation records and sets."""
import z3

from sx import engine
from sx.engine import Engine, Unsupported, Infeasible

CW = 16   # bits of a character
RW = 6    # bits of a record index
NONE_IX = (1 << RW) - 1

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def E():
    return Engine.current


# ---------------------------------------------------------------------------------------------
# bool helpers (terms are either Python bools or z3 Bool)

def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def b_and(*args):
    out = []
    for a in args:
        if a is True:
            continue
        if a is False:
            return False
        out.append(a)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*args):
    out = []
    for a in args:
        if a is False:
            continue
        if a is True:
            return True
        out.append(a)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_term(x):
    """Python value with a truth meaning -> bool or z3 Bool."""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.t
    if z3.is_expr(x):
        return x
    return bool(x)


def mk_bool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class Sym(object):
    """Base class of all symbolic values."""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().branch(self.t)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mk_bool(self.t == other.t)
        if other is True or (type(other) is int and other == 1):
            return self
        if other is False or (type(other) is int and other == 0):
            return mk_bool(z3.Not(self.t))
        if isinstance(other, SymInt):
            return self._int() == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else mk_bool(b_not(b_term(r)))

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(None, cases=[(self.t, 1), (z3.Not(self.t), 0)], bv=z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), lo=0, hi=1)

    def __and__(self, other):
        if isinstance(other, (bool, SymBool)):
            return mk_bool(b_and(self.t, b_term(other)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (bool, SymBool)):
            return mk_bool(b_or(self.t, b_term(other)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, (bool, SymBool)):
            o = b_term(other)
            return mk_bool(b_not(self.t) if o is True else self.t if o is False else z3.Xor(self.t, o))
        return NotImplemented
    __rxor__ = __xor__

    def __add__(self, other):
        return self._int() + other
    __radd__ = __add__

    def __sub__(self, other):
        return self._int() - other

    def __rsub__(self, other):
        return other - self._int()

    def __mul__(self, other):
        return self._int() * other
    __rmul__ = __mul__

    def __lt__(self, other):
        return self._int() < other

    def __le__(self, other):
        return self._int() <= other

    def __gt__(self, other):
        return self._int() > other

    def __ge__(self, other):
        return self._int() >= other

    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__

    def __repr__(self):
        return 'SymBool(%s)' % self.t


# ---------------------------------------------------------------------------------------------

IMAX = 1 << 38             # bounded integers stay strictly inside +-IMAX and carry just enough bits, so nothing wraps


def width(lo, hi):
    """Bits of a signed number in lo..hi."""
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


def resize(t, w):
    n = t.size()
    if n == w:
        return t
    return z3.SignExt(w - n, t) if n < w else z3.Extract(w - 1, 0, t)


def i_term(x):
    if type(x) is SymInt:
        return x.t
    if type(x) is SymBool:
        return x._int().t
    return z3.IntVal(int(x))


def is_int(x):
    return isinstance(x, (int, SymInt, SymBool))


class SymInt(Sym):
    """A mathematical integer.  `cases`, when present, is a list of (guard, python int) that are exclusive and
    exhaustive on the current path (results of guarded look-ups)."""
    __slots__ = ('_t', 'cases', '_bv', 'lo', 'hi', 'parts', 'via')

    def __init__(self, t, cases=None, bv=None, lo=None, hi=None, parts=None, via=None):
        self.via = via          # (bounded integer, constant, positive constant): this is (integer + constant) // constant
        self._t = t
        self.cases = cases
        self._bv = bv
        self.lo, self.hi = lo, hi
        self.parts = parts      # (constant, ((char term, code points), ...)): constant + number of characters in their sets

    @staticmethod
    def of_parts(const, sets):
        if not sets:
            return const
        return SymInt(None, lo=const, hi=const + len(sets), parts=(const, tuple(sets)))

    @property
    def bv(self):
        if self._bv is None and self.parts is not None:
            const, sets = self.parts
            w = width(self.lo, self.hi)
            t = z3.BitVecVal(const, w)
            for c, ks in sets:
                t = t + z3.If(c_in(c, ks), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            self._bv = t
        return self._bv

    def _plus(self, other):
        """Sum of two counts of characters, joined per character; None if not applicable."""
        if self.parts is None:
            return None
        if type(other) in (int, bool):
            return SymInt.of_parts(self.parts[0] + int(other), self.parts[1])
        if type(other) is not SymInt or other.parts is None:
            return None
        sets = list(self.parts[1])
        for c, ks in other.parts[1]:
            for i, (d, ls) in enumerate(sets):
                if c.eq(d) and not (ks & ls):
                    sets[i] = (d, ls | ks)
                    break
            else:
                sets.append((c, ks))
        return SymInt.of_parts(self.parts[0] + other.parts[0], sets)

    @property
    def t(self):
        if self._t is None:
            if self.cases is not None:
                t = z3.IntVal(self.cases[-1][1])
                for g, v in reversed(self.cases[:-1]):
                    t = z3.If(g, z3.IntVal(v), t)
                self._t = t
            else:
                self._t = z3.BV2Int(self.bv, is_signed=True)
        return self._t

    def _bits(self, other):
        """(term, lo, hi) of the other operand when both are bounded, else None."""
        if self.bv is None:
            return None
        if type(other) in (int, bool):
            other = int(other)
            return (z3.BitVecVal(other, width(other, other)), other, other) if abs(other) < IMAX else None
        if type(other) is SymInt and other.bv is not None:
            return other.bv, other.lo, other.hi
        return None

    def _map(self, fn):
        return mk_int_cases([(g, fn(v)) for g, v in self.cases])

    def _cmp(self, other, op):
        if type(other) is float:
            return cmp_float(self, 1, other, op)
        if isinstance(other, SymIntStr) or not is_int(other):
            return NotImplemented
        if self.cases is not None and type(other) in (int, bool):
            return mk_bool(b_or(*[g for g, v in self.cases if op(v, other)]))
        o = self._bits(other)
        if o is not None:
            if self.hi < o[1] or self.lo > o[2]:
                return op(self.lo, o[1])
            if op(0, 1) != op(1, 0):      # an order: monotone in both operands
                ends = set(op(x, y) for x in (self.lo, self.hi) for y in (o[1], o[2]))
                if len(ends) == 1:
                    return ends.pop()
            w = max(self.bv.size(), o[0].size())
            return mk_bool(z3.simplify(op(resize(self.bv, w), resize(o[0], w))))
        if self.bv is not None and type(other) is int:      # a constant beyond every bounded value
            return op(0, other)
        r = op(self.t, i_term(other))
        return mk_bool(z3.simplify(r))

    def __eq__(self, other):
        return self._cmp(other, lambda a, b: a == b)

    def __ne__(self, other):
        return self._cmp(other, lambda a, b: a != b)

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def _arith(self, other, op, swap=False):
        if type(other) is float:
            x = float_of(self)
            return op(other, x) if swap else op(x, other)
        if not is_int(other):
            return NotImplemented
        if self.cases is not None and type(other) in (int, bool):
            return self._map((lambda v: op(other, v)) if swap else (lambda v: op(v, other)))
        o = self._bits(other)
        if o is not None:
            b, lo, hi = o
            ends = [op(y, x) if swap else op(x, y) for x in (self.lo, self.hi) for y in (lo, hi)]
            if max(map(abs, ends)) < IMAX:
                w = max(self.bv.size(), b.size(), width(min(ends), max(ends)))
                x, y = resize(self.bv, w), resize(b, w)
                return mk_bits(op(y, x) if swap else op(x, y), min(ends), max(ends))
        a, b = self.t, i_term(other)
        return mk_int(op(b, a) if swap else op(a, b))

    def _from(self, result, base, offset, divisor):
        if type(result) is SymInt and result._bv is not None and result.cases is None and divisor <= 1000:
            result.via = (base, offset, divisor)
        return result

    def _shifted(self, result, offset):
        if self._bv is None or self.cases is not None:
            return result
        base, old, divisor = self.via or (self, 0, 1)
        return self._from(result, base, old + offset * divisor, divisor)

    def __add__(self, other):
        r = self._plus(other)
        if r is not None:
            return r
        r = self._arith(other, lambda a, b: a + b)
        return self._shifted(r, other) if type(other) is int else r

    def __radd__(self, other):
        r = self._plus(other)
        if r is not None:
            return r
        r = self._arith(other, lambda a, b: a + b, True)
        return self._shifted(r, other) if type(other) is int else r

    def __sub__(self, other):
        r = self._arith(other, lambda a, b: a - b)
        return self._shifted(r, -other) if type(other) is int else r

    def _remainder(self, m):
        """The remainder of a large number, for divisors of 1000: all of them from one division by 1000."""
        base, offset, divisor = self.via or (self, 0, 1)
        whole = m * divisor
        if base.hi < 1000 and base.lo >= 0 and not offset and divisor == 1 or 1000 % whole:
            return None
        if base.lo < 0 or base.hi >= 1000:
            w = max(base._bv.size(), 12)
            b, k = resize(base._bv, w), z3.BitVecVal(1000, w)
            r = z3.simplify(z3.Extract(11, 0, z3.URem(b, k) if base.lo >= 0 else b % k))
        else:
            r = resize(base._bv, 12)
        if whole < 1000:
            r = z3.URem(r, z3.BitVecVal(whole, 12))
        offset %= whole
        if offset:
            r = r + z3.BitVecVal(offset, 12)
            r = z3.If(z3.UGE(r, whole), r - z3.BitVecVal(whole, 12), r)
        if divisor > 1:
            r = z3.UDiv(r, z3.BitVecVal(divisor, 12))
        return mk_bits(r, 0, m - 1)

    def __rsub__(self, other):
        return self._arith(other, lambda a, b: a - b, True)

    def __mul__(self, other):
        if isinstance(other, (str, list, tuple)):
            return other * self.__index__()
        return self._arith(other, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        if self.cases is not None:
            return self._map(lambda v: -v)
        if self.bv is not None:
            return mk_bits(-resize(self.bv, self.bv.size() + 1), -self.hi, -self.lo)
        return mk_int(-self.t)

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        if self.cases is not None:
            return self._map(abs)
        if self.bv is not None:
            m = max(abs(self.lo), abs(self.hi))
            if self.lo >= 0:
                return self
            b = resize(self.bv, self.bv.size() + 1)
            return mk_bits(z3.If(b >= 0, b, -b), 0, m)
        return mk_int(z3.If(self.t >= 0, self.t, -self.t))

    def __mod__(self, other):
        if self.cases is not None and type(other) is int and other != 0:
            return self._map(lambda v: v % other)
        if type(other) is int and 0 < other < IMAX and self.bv is not None:
            r = self._remainder(other)
            if r is not None:
                return r
            w = max(self.bv.size(), width(other, other))
            b = resize(self.bv, w)
            if self.lo >= 0:
                return mk_bits(z3.URem(b, z3.BitVecVal(other, w)), 0, min(other - 1, self.hi))
            return mk_bits(b % z3.BitVecVal(other, w), 0, other - 1)     # bvsmod: sign of the divisor, as Python
        if type(other) is int and other > 0:
            return mk_int(self.t % other)
        if is_int(other):
            return self.__index__() % int(other)
        if type(other) is float:
            return float_of(self) % other
        return NotImplemented

    def __rmod__(self, other):
        if isinstance(other, str):
            from sx import hooks
            return hooks.str_mod(other, self)
        return other % self.__index__()

    def __floordiv__(self, other):
        if self.cases is not None and type(other) is int and other != 0:
            return self._map(lambda v: v // other)
        if type(other) is int and 0 < other < IMAX and self.bv is not None and self.lo >= 0:
            w = max(self.bv.size(), width(other, other))
            base, offset, divisor = self.via or (self, 0, 1)
            return self._from(mk_bits(z3.UDiv(resize(self.bv, w), z3.BitVecVal(other, w)), self.lo // other, self.hi // other), base, offset, divisor * other)
        if type(other) is int and other > 0:
            return mk_int(self.t / other)      # z3 Int division with a positive divisor rounds down, as //
        if is_int(other):
            return self.__index__() // int(other)
        if type(other) is float:
            return float_of(self) // other
        return NotImplemented

    def __rfloordiv__(self, other):
        return other // self.__index__()

    def __divmod__(self, other):
        return (self // other, self % other)

    def __truediv__(self, other):
        if type(other) is float:
            return float_of(self) / other
        if type(other) is int and 0 < abs(other) <= EXACT // 2 and bool(abs(self) <= EXACT // 2):
            return mk_float(self if other > 0 else -self, abs(other))
        if is_int(other):
            return few(self) / (few(other) if isinstance(other, Sym) else other)
        return NotImplemented

    def __rtruediv__(self, other):
        return other / self.__index__()

    def __pow__(self, other, mod=None):
        if type(other) is int and 0 <= other <= 4 and mod is None:
            r = 1
            for _ in range(other):
                r = self * r
            return r
        return pow(self.__index__(), other, mod)

    def __and__(self, other):
        return self.__index__() & other

    def __rand__(self, other):
        return other & self.__index__()

    def __or__(self, other):
        return self.__index__() | other

    def __ror__(self, other):
        return other | self.__index__()

    def __xor__(self, other):
        return self.__index__() ^ other

    def __lshift__(self, other):
        return self.__index__() << other

    def __rshift__(self, other):
        return self.__index__() >> other

    def __index__(self):
        if self.cases is not None:
            return self.pick_case()
        if self.bv is not None:
            return E().pick(self.bv).as_signed_long()
        return E().pick(self.t).as_long()

    def pick_case(self):
        for g, v in self.cases[:-1]:
            if E().branch(g) if not isinstance(g, bool) else g:
                return v
        return self.cases[-1][1]

    __int__ = __index__
    __trunc__ = __index__

    __floor__ = __ceil__ = __pos__

    def __round__(self, nd=None):
        return self if nd is None or nd >= 0 else round(self.__index__(), nd)

    def __float__(self):
        return float(few(self))

    def __hash__(self):
        return hash(self.__index__())

    def bit_length(self):
        return self.__index__().bit_length()

    def __format__(self, spec):
        if spec in ('', 'd'):
            raise Unsupported('format of a symbolic int outside the hooks')
        return format(self.__index__(), spec)

    def __repr__(self):
        return 'SymInt(%s)' % self.t


EXACT = 1 << 53             # every integer up to here is a double
FEW = 12                    # values tried where floating point is beyond what is modelled exactly


def few(n):
    """A value of an integer used in arithmetic on doubles that is not modelled: a few are tried, and the exploration is
    marked incomplete when there are more."""
    if not isinstance(n, SymInt):
        return int(n)
    if n.cases is not None:
        return n.pick_case()
    if n.bv is not None:
        return E().pick(n.bv, FEW).as_signed_long()
    return E().pick(n.t, FEW).as_long()


def cmp_float(num, den, c, op):
    """Comparison of the double nearest to num/den with a double: monotone in num."""
    if c != c or c in (float('inf'), float('-inf')):
        return op(0.0, c)
    if c.is_integer():
        return op(num, int(c) * den)
    lo, hi = int(c * den) - den - 2, int(c * den) + den + 2
    while hi - lo > 1:          # lo/den < c <= hi/den
        mid = (lo + hi) // 2
        if mid / den < c:
            lo = mid
        else:
            hi = mid
    least = hi                  # the least numerator not below c; the next one is above it
    if op(0, 1) == op(1, 0):    # == or !=
        if least / den == c:
            return op(num, least)
        return op(0, 1)
    if least / den == c:
        return op(num, least)
    return op(num * 2, least * 2 - 1)


def mk_float(num, den):
    if not isinstance(num, SymInt):
        return int(num) / den
    return SymFloat(num, den)


def float_of(n):
    """float(n)."""
    if isinstance(n, SymFloat) or type(n) is float:
        return n
    if isinstance(n, SymBool):
        n = n._int()
    if not isinstance(n, SymInt):
        return float(n)
    a = abs(n)
    if bool(a <= EXACT):
        return mk_float(n, 1)
    if bool(a <= 2 * EXACT):    # doubles are two apart: ties go to a multiple of four
        low = n - n % 4
        rest = n % 4
        if bool(rest == 3):
            return mk_float(low + 4, 1)
        return mk_float(low + 2, 1) if bool(rest == 2) else mk_float(low, 1)
    return float(few(n))


class SymFloat(Sym):
    """The double nearest to num/den.  den is 1 and num a double itself, or |num| is at most EXACT/2: then no integer and
    no half lies strictly between num/den and the double, nor are two different fractions over den the same double, so
    rounding to integers and comparisons are those of the fraction."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den

    def value(self):
        return few(self.num) / self.den

    __float__ = value

    def __trunc__(self):
        if self.den == 1:
            return self.num
        return self.num // self.den if bool(self.num >= 0) else -((-self.num) // self.den)

    def __floor__(self):
        return self.num if self.den == 1 else self.num // self.den

    def __ceil__(self):
        return self.num if self.den == 1 else -((-self.num) // self.den)

    def __round__(self, nd=None):
        if nd is not None:
            return self if self.den == 1 and nd >= 0 else round(self.value(), nd)
        if self.den == 1:
            return self.num
        up = self.num * 2 + self.den
        q = up // (2 * self.den)
        if bool(up % (2 * self.den) == 0) and bool(q % 2 == 1):
            return q - 1
        return q

    def is_integer(self):
        return self.den == 1 or self.num % self.den == 0

    def __abs__(self):
        return SymFloat(abs(self.num), self.den)

    def __neg__(self):
        # minus zero is not told from zero except by formatting, which asks
        return SymFloat(-self.num, self.den)

    def __pos__(self):
        return self

    def __bool__(self):
        return bool(self.num != 0)

    def __hash__(self):
        return hash(self.num) if self.den == 1 else hash(self.value())

    def _cmp(self, other, op):
        if type(other) is float:
            return cmp_float(self.num, self.den, other, op)
        if is_int(other):
            return op(self.num, other * self.den)
        if type(other) is SymFloat:
            if other.den == self.den:
                return op(self.num, other.num)
            return op(self.value(), other.value())
        return NotImplemented

    def __eq__(self, other):
        return self._cmp(other, lambda a, b: a == b)

    def __ne__(self, other):
        return self._cmp(other, lambda a, b: a != b)

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def _arith(self, other, op, swap=False, whole=False):
        """whole: the result over integers is an integer."""
        if type(other) is float and other.is_integer():
            other = int(other)
        if type(other) is SymFloat and other.den == 1:
            other = other.num
        if whole and self.den == 1 and is_int(other):
            try:
                r = op(other, self.num) if swap else op(self.num, other)
            except ZeroDivisionError:
                raise ZeroDivisionError('float division by zero')
            if bool(abs(r) <= EXACT):
                return mk_float(r, 1)
        x = few(other) if isinstance(other, (SymInt, SymBool)) else other.value() if type(other) is SymFloat else other
        if not isinstance(x, (int, float)):
            return NotImplemented
        return op(x, self.value()) if swap else op(self.value(), x)

    def __add__(self, other):
        return self._arith(other, lambda a, b: a + b, whole=True)

    def __radd__(self, other):
        return self._arith(other, lambda a, b: a + b, True, True)

    def __sub__(self, other):
        return self._arith(other, lambda a, b: a - b, whole=True)

    def __rsub__(self, other):
        return self._arith(other, lambda a, b: a - b, True, True)

    def __mul__(self, other):
        return self._arith(other, lambda a, b: a * b, whole=True)

    def __rmul__(self, other):
        return self._arith(other, lambda a, b: a * b, True, True)

    def __mod__(self, other):
        return self._arith(other, lambda a, b: a % b, whole=True)

    def __rmod__(self, other):
        if isinstance(other, str):
            from sx import hooks
            return hooks.str_mod(other, self)
        return self._arith(other, lambda a, b: a % b, True)

    def __floordiv__(self, other):
        return self._arith(other, lambda a, b: a // b, whole=True)

    def __rfloordiv__(self, other):
        return self._arith(other, lambda a, b: a // b, True)

    def __divmod__(self, other):
        return (self // other, self % other)

    def __truediv__(self, other):
        if type(other) is float and other.is_integer():
            other = int(other)
        if self.den == 1 and type(other) is int and other and bool(abs(self.num) <= EXACT // 2):
            return self.num / other
        return self._arith(other, lambda a, b: a / b)

    def __rtruediv__(self, other):
        return self._arith(other, lambda a, b: a / b, True)

    def __pow__(self, other):
        return self.value() ** other

    def text(self, spec=''):
        """format(self, spec)"""
        if spec == '.0f':
            r = self.__round__()
            if bool(r == 0) and bool(self.num < 0):
                return '-0'
            return mk_int_str(r)
        if spec == '' and self.den == 1 and bool(abs(self.num) < 10 ** 16):
            return s_concat([mk_int_str(self.num), '.0'])
        return format(self.value(), spec)

    def __format__(self, spec):
        return format(self.value(), spec)

    def __repr__(self):
        return 'SymFloat(%r/%d)' % (self.num, self.den)


def bits_of(x):
    """(term, lo, hi) of a bounded integer, else None."""
    if type(x) in (int, bool):
        x = int(x)
        return (z3.BitVecVal(x, width(x, x)), x, x) if abs(x) < IMAX else None
    if type(x) is SymInt and x.bv is not None:
        return x.bv, x.lo, x.hi
    return None


def mk_bits(t, lo, hi):
    t = z3.simplify(resize(t, width(lo, hi)))
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(None, bv=t, lo=lo, hi=hi)


def mk_int(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mk_int_cases(cases):
    grouped = {}
    for g, v in cases:
        if g is False:
            continue
        v = int(v)
        grouped.setdefault(v, []).append(g)
    items = [(b_or(*gs), v) for v, gs in grouped.items()]
    for g, v in items:
        if g is True:
            return v
    if not items:
        raise Infeasible()
    if len(items) == 1:
        return items[0][1]
    lo, hi = min(v for _, v in items), max(v for _, v in items)
    if max(abs(lo), abs(hi)) >= IMAX:
        return SymInt(None, cases=items)
    w = width(lo, hi)
    t = z3.BitVecVal(items[-1][1], w)
    for g, v in reversed(items[:-1]):
        t = z3.If(g, z3.BitVecVal(v, w), t)
    return SymInt(None, cases=items, bv=t, lo=lo, hi=hi)


def int_cases(x):
    if isinstance(x, SymInt):
        return x.cases
    return [(True, int(x))]


class LazyStr(Sym):
    """A string whose characters are worked out only when something looks at them."""
    __slots__ = ('_text',)

    def text(self):
        if self._text is None:
            self._text = self._make()
        return self._text

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else mk_bool(b_not(b_term(r)))

    def __bool__(self):
        return bool(self.text())

    def __hash__(self):
        return hash(self.text())

    def __len__(self):
        return len(self.text())

    def __iter__(self):
        return iter(self.text())

    def __getitem__(self, i):
        return self.text()[i]

    def __contains__(self, x):
        return x in self.text()

    def __add__(self, other):
        if not is_str(other):
            return NotImplemented
        return s_concat([self, other])

    def __radd__(self, other):
        if not is_str(other):
            return NotImplemented
        return s_concat([other, self])

    def __mul__(self, n):
        return self.text() * n
    __rmul__ = __mul__

    def __lt__(self, other):
        return self.text() < str_text(other)

    def __gt__(self, other):
        return self.text() > str_text(other)

    def __le__(self, other):
        return self.text() <= str_text(other)

    def __ge__(self, other):
        return self.text() >= str_text(other)

    def __mod__(self, other):
        from sx import hooks
        return hooks.str_mod(self.text(), other)

    def __format__(self, spec):
        raise Unsupported('format of a symbolic string outside the hooks')

    def concretize(self):
        t = self.text()
        return t.concretize() if isinstance(t, SymStr) else t

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.text(), name)


class SymIntStr(LazyStr):
    """str() of a symbolic integer, kept as an integer as long as possible."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n
        self._text = None

    MAX_DIGITS = 12

    def _make(self):
        """Digits as characters; forks over sign and number of digits (bounded)."""
        n = self.n
        neg = bool(n < 0)
        m = -n if neg else n
        d = 1
        while d < self.MAX_DIGITS and bool(m >= 10 ** d):
            d += 1
        if d == self.MAX_DIGITS and bool(m >= 10 ** d):
            E().incomplete.append('digits of integers above 10**%d' % d)
            raise engine.PathLimit('digits')
        out = ([ord('-')] if neg else []) + [self._digit(m, k) for k in reversed(range(d))]
        return mk_str(out)

    @staticmethod
    def _digit(m, k):
        """The character of the digit at 10**k of a non-negative number."""
        digit = (m // (10 ** k)) % 10
        if isinstance(digit, int):
            return 48 + digit
        if digit.bv is not None and digit.lo >= 0:
            b = resize(z3.ZeroExt(1, digit.bv), CW)
            return z3.simplify(b + 48)
        t = z3.BitVecVal(57, CW)
        for v in range(8, -1, -1):
            t = z3.If(digit.t == v, z3.BitVecVal(48 + v, CW), t)
        return t

    def _tail(self, k):
        """The last characters, k at most, without asking how many there are altogether."""
        m = abs(self.n)
        out = []
        for i in range(k):
            if i and not bool(m >= 10 ** i):
                return [ord('-')] + out if bool(self.n < 0) else out
            out.insert(0, self._digit(m, i))
        return out

    def __getitem__(self, i):
        if self._text is None and type(i) is int and -4 <= i < 0:
            out = self._tail(-i)
            if len(out) < -i:
                raise IndexError('string index out of range')
            return mk_str(out[:1])
        if self._text is None and type(i) is slice and type(i.start) is int and -4 <= i.start < 0 and i.step in (None, 1) and (i.stop is None or type(i.stop) is int and i.stop < 0):
            out = self._tail(-i.start)
            return mk_str(out if i.stop is None else out[:i.stop])
        return self.text()[i]

    def lstrip(self, *args):
        return SymIntStr(abs(self.n)) if args == ('-',) else self.text().lstrip(*args)

    def removeprefix(self, *args):
        return SymIntStr(abs(self.n)) if args == ('-',) else self.text().removeprefix(*args)

    def replace(self, *args):
        return SymIntStr(abs(self.n)) if args == ('-', '') else self.text().replace(*args)

    def startswith(self, *args):
        return self.n < 0 if args == ('-',) else self.text().startswith(*args)

    def endswith(self, *args):
        s = self
        if len(args) == 1:
            lengths = [len(x) if type(x) is str else 9 for x in (args[0] if type(args[0]) is tuple else args)]
            if lengths and 0 < min(lengths) and max(lengths) <= 3:
                s = self[-max(lengths):]
        return (s.text() if isinstance(s, LazyStr) else s).endswith(*args)

    def __eq__(self, other):
        if isinstance(other, SymIntStr):
            return self.n == other.n
        if isinstance(other, str):
            try:
                v = int(other)
            except ValueError:
                return False
            return (self.n == v) if str(v) == other else False
        if isinstance(other, SymStrCases):
            return other == self
        if isinstance(other, SymStr):
            return self.text() == other
        return NotImplemented

    __hash__ = LazyStr.__hash__

    def __bool__(self):
        return True

    def __repr__(self):
        return 'SymIntStr(%r)' % self.n


def mk_int_str(n):
    """str() of an integer."""
    if not isinstance(n, SymInt):
        return str(int(n))
    if n.cases is not None:
        from sx import hooks
        return hooks.merge([(g, str(k)) for g, k in n.cases])
    return SymIntStr(n)


class SymStrCases(LazyStr):
    """One of many concrete strings, each under its guard (exclusive and exhaustive on the path)."""
    __slots__ = ('cases',)

    def __init__(self, cases):
        grouped = {}
        for g, s in cases:
            grouped.setdefault(s, []).append(g)
        self.cases = [(b_or(*gs), s) for s, gs in grouped.items()]
        self._text = None

    def _make(self):
        return merge_text(self.cases)

    def __eq__(self, other):
        if not is_str(other):
            return NotImplemented
        if isinstance(other, SymStrCases):
            mine = dict((s, g) for g, s in self.cases)
            return mk_bool(b_or(*[b_and(g, mine[s]) for g, s in other.cases if s in mine]))
        return mk_bool(b_or(*[b_and(g, s_eq(s, other)) for g, s in self.cases]))

    __hash__ = LazyStr.__hash__

    def __bool__(self):
        return bool(mk_bool(b_not(b_or(*[g for g, s in self.cases if not s]))))

    def __repr__(self):
        return 'SymStrCases(%d)' % len(self.cases)


# ---------------------------------------------------------------------------------------------
# characters and strings

UNIVERSE = list(range(0, 128)) + [0x85, 0xA0, 0xAB, 0xAD, 0xBB, 0x301, 0x306, 0x308] + list(range(0x400, 0x460)) + [0x200B, 0x2011, 0x2013, 0x2014, 0x2019, 0x2026, 0x2028, 0x2212, 0xFEFF]


def _runs(fn):
    """[(lo, hi, value)] of consecutive universe code points with the same fn value, skipping the falsy ones."""
    out = []
    for c in UNIVERSE:
        v = fn(c)
        if not v:
            continue
        if out and out[-1][1] == c - 1 and out[-1][2] == v:
            out[-1] = (out[-1][0], c, v)
        else:
            out.append((c, c, v))
    return out


def _delta(method):
    def fn(c):
        s = getattr(chr(c), method)()
        assert len(s) == 1, (c, s)
        return ord(s) - c
    return fn


_DELTAS = {m: _runs(_delta(m)) for m in ('lower', 'upper')}
_DELTAS['casefold'] = _DELTAS['lower']
_DELTAS['title'] = _DELTAS['upper']
assert all(chr(c).casefold() == chr(c).lower() and chr(c).title() == chr(c).upper() for c in UNIVERSE)
_CLASSES = {m: _runs(lambda c, m=m: getattr(chr(c), m)()) for m in
            ('isupper', 'islower', 'isalpha', 'isdigit', 'isspace', 'isalnum', 'isdecimal', 'isnumeric', 'isprintable',
             'isidentifier', 'isascii', 'istitle')}


def c_in_runs(c, runs):
    """z3 Bool: character term c lies in one of the runs."""
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi, _ in runs)
    key = ('runs', c.get_id(), tuple(runs))
    memo = E().memo
    if key not in memo:
        terms = [(c == lo) if lo == hi else z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) for lo, hi, _ in runs]
        memo[key] = (b_or(*terms), c)
    return memo[key][0]


def c_in(c, codes):
    """term: the character is one of the code points"""
    runs = []
    for k in sorted(codes):
        if runs and runs[-1][1] == k - 1:
            runs[-1] = (runs[-1][0], k, 1)
        else:
            runs.append((k, k, 1))
    return c_in_runs(c, runs)


def c_maps(c, method):
    """The one or more characters a character is mapped to."""
    if not isinstance(c, int):
        return [c_map(c, method)]
    if c == 0x3A3 and method == 'lower':
        raise Unsupported('the small letter for a sigma depends on its place')
    return [ord(x) for x in getattr(chr(c), method)()]


def c_map(c, method):
    if isinstance(c, int):
        s = c_maps(c, method)
        if len(s) != 1:
            raise Unsupported('case mapping of %r' % chr(c))
        return s[0]
    key = ('map', c.get_id(), method)
    memo = E().memo
    if key not in memo:
        t = c
        for lo, hi, d in reversed(_DELTAS[method]):
            cond = (c == lo) if lo == hi else z3.And(z3.UGE(c, lo), z3.ULE(c, hi))
            t = z3.If(cond, c + z3.BitVecVal(d, CW), t)
        memo[key] = (t, c)
    return memo[key][0]


def c_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b >= (1 << CW):
            return False
        key = ('ceq', a.get_id(), b)
        memo = E().memo
        if key not in memo:
            memo[key] = (a == b, a)
        return memo[key][0]
    if a.eq(b):
        return True
    return a == b


def c_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    ta = z3.BitVecVal(a, CW) if isinstance(a, int) else a
    tb = z3.BitVecVal(b, CW) if isinstance(b, int) else b
    return z3.ULT(ta, tb)


def c_term(c):
    return z3.BitVecVal(c, CW) if isinstance(c, int) else c


def mk_str(chars):
    chars = list(chars)
    for i, c in enumerate(chars):
        if not isinstance(c, int):
            if z3.is_bv_value(c):
                chars[i] = c.as_long()
    if all(isinstance(c, int) for c in chars):
        return ''.join(map(chr, chars))
    return SymStr(tuple(chars))


def is_str(x):
    return isinstance(x, (str, SymStr, LazyStr))


def chars_of(x):
    if isinstance(x, SymStr):
        return x.chars
    if isinstance(x, LazyStr):
        return chars_of(x.text())
    if isinstance(x, str):
        return tuple(map(ord, x))
    raise TypeError('expected a string, got %r' % type(x))


def str_text(x):
    return x.text() if isinstance(x, LazyStr) else x


def s_concat(parts):
    parts = [p for p in parts if not (isinstance(p, str) and p == '')]
    if len(parts) == 1:
        return parts[0]
    if not parts:
        return ''
    out = []
    for p in parts:
        out.extend(chars_of(p))
    return mk_str(out)


def s_eq(a, b):
    """bool or z3 Bool: equality of two strings."""
    if isinstance(a, LazyStr) or isinstance(b, LazyStr):
        if not isinstance(a, LazyStr):
            a, b = b, a
        return b_term(a == b)
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    return b_and(*[c_eq(x, y) for x, y in zip(ca, cb)])


def s_lt(a, b):
    ca, cb = chars_of(a), chars_of(b)
    n = min(len(ca), len(cb))
    r = len(ca) < len(cb)
    for i in range(n - 1, -1, -1):
        r = b_or(c_lt(ca[i], cb[i]), b_and(c_eq(ca[i], cb[i]), r))
    return r


class SymStr(Sym):
    """A string of known length whose characters are code points or 16-bit terms over UNIVERSE."""
    __slots__ = ('chars',)

    def __init__(self, chars):
        self.chars = chars

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return True

    def __iter__(self):
        return iter([mk_str((c,)) for c in self.chars])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.chars[i])
        return mk_str((self.chars[i],))

    def __eq__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_bool(s_eq(self, other))

    def __ne__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_bool(b_not(s_eq(self, other)))

    def __lt__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_bool(s_lt(self, other))

    def __gt__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_bool(s_lt(other, self))

    def __le__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_bool(b_not(s_lt(other, self)))

    def __ge__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_bool(b_not(s_lt(self, other)))

    def __add__(self, other):
        if not is_str(other):
            return NotImplemented
        return s_concat([self, other])

    def __radd__(self, other):
        if not is_str(other):
            return NotImplemented
        return s_concat([other, self])

    def __mul__(self, n):
        return mk_str(self.chars * int(n))
    __rmul__ = __mul__

    def __mod__(self, other):
        from sx import hooks
        return hooks.str_mod(self, other)

    def __contains__(self, x):
        return bool(mk_bool(s_contains(self, x)))

    def concretize(self):
        """Fork over every value of the string."""
        out = []
        for c in self.chars:
            out.append(chr(c) if isinstance(c, int) else chr(E().pick(c).as_long()))
        return ''.join(out)

    def __hash__(self):
        return hash(self.concretize())

    def __str__(self):
        raise Unsupported('str() of a symbolic string outside the hooks')

    def __format__(self, spec):
        raise Unsupported('format of a symbolic string outside the hooks')

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(chr(c) if isinstance(c, int) else '<%s>' % c for c in self.chars)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from sx import strings
        fn = strings.METHODS.get(name)
        if fn is None:
            if not hasattr('', name):
                raise AttributeError("'str' object has no attribute %r" % name)
            return getattr(self.concretize(), name)
        return lambda *a, **kw: fn(self, *a, **kw)


def s_match_at(chars, sub, i):
    return b_and(*[c_eq(chars[i + j], sub[j]) for j in range(len(sub))])


def s_contains(s, sub):
    cs, cb = chars_of(s), chars_of(sub)
    return b_or(*[s_match_at(cs, cb, i) for i in range(len(cs) - len(cb) + 1)])


# ---------------------------------------------------------------------------------------------
# records of relations

class RelInfo(object):
    cache = {}

    def __init__(self, relation):
        self.relation = relation
        self.records = tuple(relation.records)
        self.index = {id(rec): i for i, rec in enumerate(self.records)}

    @classmethod
    def of(cls, relation):
        info = cls.cache.get(id(relation))
        if info is None:
            info = cls.cache[id(relation)] = RelInfo(relation)
        return info


def is_record(x):
    return hasattr(type(x), '_sx_record_class') or type(x).__name__ == 'Record' and type(x).__module__.startswith('rels')


class SymRecord(Sym):
    """One record of a relation (or None); `dom` lists the possible indices (NONE_IX stands for None)."""
    __slots__ = ('info', 'ix', 'dom')

    def __init__(self, info, ix, dom):
        object.__setattr__(self, 'info', info)
        object.__setattr__(self, 'ix', ix)
        object.__setattr__(self, 'dom', dom)

    def _is(self, k):
        """term: the value is record number k (or None for NONE_IX)"""
        if k not in self.dom:
            return False
        if len(self.dom) == 1:
            return True
        key = ('rec', self.ix.get_id(), k)
        memo = E().memo
        if key not in memo:
            memo[key] = (self.ix == k, self.ix)
        return memo[key][0]

    def _none(self):
        return self._is(NONE_IX)

    def _require(self, name):
        n = self._none()
        if n is True or (n is not False and E().branch(n)):
            raise AttributeError("'NoneType' object has no attribute %r" % name)

    def _cases(self):
        """[(guard, python object)]"""
        out = []
        for k in self.dom:
            out.append((self._is(k), None if k == NONE_IX else self.info.records[k]))
        return out

    def concretize(self):
        cases = self._cases()
        for g, v in cases[:-1]:
            if g is True or (g is not False and E().branch(g)):
                return v
        return cases[-1][1]

    def _eq_term(self, other):
        if other is None:
            return self._none()
        if isinstance(other, SymRecord):
            if other.info is not self.info:
                return b_and(self._none(), other._none())
            if self.ix.eq(other.ix):
                return True
            common = [k for k in self.dom if k in other.dom]
            return b_or(*[b_and(self._is(k), other._is(k)) for k in common])
        k = self.info.index.get(id(other))
        return False if k is None else self._is(k)

    def __eq__(self, other):
        return mk_bool(self._eq_term(other))

    def __ne__(self, other):
        return mk_bool(b_not(self._eq_term(other)))

    def __bool__(self):
        n = self._none()
        return not (n is True or (n is not False and E().branch(n)))

    def __hash__(self):
        return hash(self.concretize())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self._require(name)
        if name == '_relation':
            return self.info.relation
        cases = [(g, getattr(v, name)) for g, v in self._cases() if v is not None]
        return merge(cases)

    def __repr__(self):
        return 'SymRecord(%s, %s)' % (self.info.relation.__name__, self.ix)


def mk_record(info, ix, dom):
    dom = tuple(dom)
    if len(dom) == 1:
        return None if dom[0] == NONE_IX else info.records[dom[0]]
    return SymRecord(info, ix, dom)


# ---------------------------------------------------------------------------------------------
# sets with symbolic membership

class SymSet(Sym):
    """A frozenset over distinct concrete elements, each present under its guard."""
    __slots__ = ('items', 'mutable')

    def __init__(self, items, mutable=False):
        self.items = tuple((e, g) for e, g in items if g is not False)
        self.mutable = mutable

    def _change(self, name):
        if not self.mutable:
            raise AttributeError("'frozenset' object has no attribute %r" % name)

    def add(self, e):
        self._change('add')
        self.items = self.union([e]).items

    def update(self, *others):
        self._change('update')
        self.items = self.union(*others).items

    def discard(self, e):
        self._change('discard')
        self.items = self.difference([e]).items

    def difference_update(self, *others):
        self._change('difference_update')
        self.items = self.difference(*others).items

    def intersection_update(self, *others):
        self._change('intersection_update')
        self.items = self.intersection(*others).items

    def remove(self, e):
        self._change('remove')
        if e not in self:
            raise KeyError(e)
        self.discard(e)

    def clear(self):
        self._change('clear')
        self.items = ()

    def _guard(self, e):
        for x, g in self.items:
            if x is e or x == e:
                return g
        return False

    @staticmethod
    def of(x):
        if isinstance(x, SymSet):
            return x
        items = []
        for e in x:
            if not any(e is y or e == y for y, _ in items):
                items.append((e, True))
        return SymSet(items)

    def _contains(self, e):
        return b_or(*[b_and(g, b_term(eq(x, e))) for x, g in self.items])

    def __contains__(self, e):
        return bool(mk_bool(self._contains(e)))

    def __iter__(self):
        return iter([e for e, g in self.items if g is True or E().branch(g)])

    def _len(self):
        n = 0
        for _, g in self.items:
            n = n + (1 if g is True else SymBool(g)._int())
        if isinstance(n, SymInt):
            n = SymInt(n.t)
        return n

    def __len__(self):
        return int(self._len())

    def __bool__(self):
        return bool(mk_bool(b_or(*[g for _, g in self.items])))

    def issubset(self, other):
        if isinstance(other, (dict, list, tuple)) or not isinstance(other, SymSet):
            other = SymSet.of(other)
        return mk_bool(b_and(*[b_or(b_not(g), other._guard(e)) for e, g in self.items]))

    def issuperset(self, other):
        return SymSet.of(other).issubset(self)

    def isdisjoint(self, other):
        other = SymSet.of(other)
        return mk_bool(b_and(*[b_not(b_and(g, other._guard(e))) for e, g in self.items]))

    def intersection(self, *others):
        r = self.copy()
        for o in others:
            o = SymSet.of(o)
            r = SymSet([(e, b_and(g, o._guard(e))) for e, g in r.items], self.mutable)
        return r

    def union(self, *others):
        r = self.copy()
        for o in others:
            o = SymSet.of(o)
            items = [(e, b_or(g, o._guard(e))) for e, g in r.items]
            items += [(e, g) for e, g in o.items if r._guard(e) is False and not any(x is e or x == e for x, _ in r.items)]
            r = SymSet(items, self.mutable)
        return r

    def difference(self, *others):
        r = self.copy()
        for o in others:
            o = SymSet.of(o)
            r = SymSet([(e, b_and(g, b_not(o._guard(e)))) for e, g in r.items], self.mutable)
        return r

    def __iand__(self, o):
        if self.mutable:
            self.intersection_update(o)
            return self
        return self.intersection(o)

    def __ior__(self, o):
        if self.mutable:
            self.update(o)
            return self
        return self.union(o)

    def __isub__(self, o):
        if self.mutable:
            self.difference_update(o)
            return self
        return self.difference(o)

    def symmetric_difference(self, other):
        return self.union(other).difference(self.intersection(other))

    def copy(self):
        return SymSet(self.items, self.mutable)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return self.intersection(o)

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return self.union(o)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet.of(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return mk_bool(b_and(b_term(self.issubset(o)), b_not(b_term(self.issuperset(o)))))

    def __gt__(self, o):
        return SymSet.of(o) < self

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        return mk_bool(b_and(b_term(self.issubset(o)), b_term(self.issuperset(o))))

    def __ne__(self, o):
        return mk_bool(b_not(b_term(self.__eq__(o))))

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'set'")
        return hash(frozenset(self))

    def concretize(self):
        return (set if self.mutable else frozenset)(iter(self))

    def __repr__(self):
        return 'SymSet(%r)' % (self.items,)


# ---------------------------------------------------------------------------------------------
# guarded union of arbitrary objects

class SymUnion(Sym):
    """One of several concrete objects, each under a guard (exclusive and exhaustive on the current path)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        object.__setattr__(self, 'alts', alts)

    def resolve(self):
        for g, v in self.alts[:-1]:
            if g is True or (g is not False and E().branch(g)):
                return v
        return self.alts[-1][1]

    def __getattr__(self, name):
        if name.startswith('__'):
            return getattr(self.resolve(), name)
        return merge([(g, getattr(v, name)) for g, v in self.alts])

    def __call__(self, *a, **kw):
        from sx import hooks
        return merge([(g, hooks.call(v, *a, **kw)) for g, v in self.alts])

    def __eq__(self, other):
        return mk_bool(b_or(*[b_and(g, b_term(v == other)) for g, v in self.alts]))

    def __ne__(self, other):
        return mk_bool(b_not(b_term(self.__eq__(other))))

    def __getitem__(self, i):
        from sx import hooks
        return merge([(g, hooks.getitem(v, i)) for g, v in self.alts])

    def __bool__(self):
        return bool(self.resolve())

    def __hash__(self):
        return hash(self.resolve())

    def __len__(self):
        return len(self.resolve())

    def __iter__(self):
        return iter(self.resolve())


UNION_MIN = 24    # fewer distinct alternatives than this are forked instead


def merge(cases):
    """Join guarded values (guards exclusive, exhaustive on the path).  May fork when values have different shapes."""
    cases = [(g, v) for g, v in cases if g is not False]
    if not cases:
        raise Infeasible()
    for g, v in cases:
        if g is True:
            return v
    first = cases[0][1]
    if all(v is first for _, v in cases):
        return first
    vs = [v for _, v in cases]
    if all(isinstance(v, (bool, SymBool)) for v in vs):
        return mk_bool(b_or(*[b_and(g, b_term(v)) for g, v in cases]))
    if all(isinstance(v, (int, SymInt, SymBool)) for v in vs):
        flat = []
        plain = True
        for g, v in cases:
            cs = int_cases(v) if not isinstance(v, SymBool) else v._int().cases
            if cs is None:
                plain = False
                break
            flat.extend((b_and(g, g2), v2) for g2, v2 in cs)
        if plain:
            return mk_int_cases(flat)
        parts = [bits_of(v) for v in vs]
        if all(p is not None for p in parts):
            lo, hi = min(p[1] for p in parts), max(p[2] for p in parts)
            w = width(lo, hi)
            t = resize(parts[-1][0], w)
            for (g, _), p in reversed(list(zip(cases[:-1], parts[:-1]))):
                t = z3.If(g, resize(p[0], w), t)
            return mk_bits(t, lo, hi)
        t = i_term(vs[-1])
        for g, v in reversed(cases[:-1]):
            t = z3.If(g, i_term(v), t)
        return mk_int(t)
    if all(isinstance(v, (str, SymStr, LazyStr)) for v in vs):
        if all(isinstance(v, str) for v in vs):
            if all(v == first for v in vs):
                return first
            if len(set(vs)) >= UNION_MIN:
                return SymStrCases(cases)
        if all(isinstance(v, (str, SymStrCases)) for v in vs):
            flat = []
            for g, v in cases:
                flat.extend([(g, v)] if isinstance(v, str) else [(b_and(g, g2), s) for g2, s in v.cases])
            return SymStrCases(flat)
        if any(isinstance(v, LazyStr) for v in vs):
            for g, v in cases[:-1]:
                if E().branch(g):
                    return v
            return cases[-1][1]
        return merge_text(cases)
    infos = set()
    for v in vs:
        if v is None:
            continue
        i = v.info if isinstance(v, SymRecord) else rel_info_of(v)
        infos.add(id(i) if i is not None else None)
    if len(infos) == 1 and None not in infos:
        info = next(v.info if isinstance(v, SymRecord) else rel_info_of(v) for v in vs if v is not None)
        dom = []
        t = None
        for g, v in reversed(cases):
            if v is None:
                ks, term = (NONE_IX,), z3.BitVecVal(NONE_IX, RW)
            elif isinstance(v, SymRecord):
                ks, term = v.dom, v.ix
            else:
                k = info.index[id(v)]
                ks, term = (k,), z3.BitVecVal(k, RW)
            dom.extend(k for k in ks if k not in dom)
            t = term if t is None else z3.If(g, term, t)
        return mk_record(info, t, sorted(dom))
    # different objects: group by identity
    groups = {}
    for g, v in cases:
        key = (type(v), v) if type(v) in (str, int) else id(v)
        groups.setdefault(key, ([], v))[0].append(g)
    groups = list(groups.values())
    alts = [(b_or(*gs), v) for gs, v in groups]
    if len(alts) == 1:
        return alts[0][1]
    u = SymUnion(alts)
    if len(alts) >= UNION_MIN and not any(isinstance(v, Sym) for _, v in alts):
        return u
    return u.resolve()


def merge_text(cases):
    """Join guarded strings; forks when their lengths differ."""
    groups = {}
    for g, v in cases:
        groups.setdefault(len(v), []).append((g, v))
    groups = list(groups.values())
    chosen = groups[-1]
    for grp in groups[:-1]:
        if E().branch(as_z3(b_or(*[g for g, _ in grp]))):
            chosen = grp
            break
    if len(chosen) == 1:
        return chosen[0][1]
    cs = [(g, chars_of(v)) for g, v in chosen]
    out = []
    for i in range(len(cs[0][1])):
        col = [(g, c[i]) for g, c in cs]
        f = col[0][1]
        if all((c is f) or (isinstance(c, int) and isinstance(f, int) and c == f) for _, c in col):
            out.append(f)
            continue
        t = c_term(col[-1][1])
        for g, c in reversed(col[:-1]):
            t = z3.If(g, c_term(c), t)
        out.append(t)
    return mk_str(out)


def as_z3(t):
    if t is True:
        return TRUE
    if t is False:
        return FALSE
    return t


def rel_info_of(v):
    """RelInfo of a concrete record, or None."""
    rel = None
    if type(v).__name__ == 'Record' and type(v).__module__.startswith('rels'):
        rel = v._relation
        return RelInfo.of(rel)
    return None


# ---------------------------------------------------------------------------------------------
# equality without forking

def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, list, frozenset, set):
        for y in x:
            if isinstance(y, Sym) or (type(y) in (tuple, list) and deep_sym(y)):
                return True
    return False


def eq(a, b):
    """Equality as a bool or SymBool; forks only for user-defined __eq__."""
    if a is b:
        return True
    if type(a) in (tuple, list) and type(a) is type(b):
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            t = b_term(eq(x, y))
            if t is False:
                return False
            acc.append(t)
        return mk_bool(b_and(*acc))
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a.keys()), list(b.keys())
        if deep_sym(ka) or deep_sym(kb):
            return a == b
        if len(ka) != len(kb) or set(ka) != set(kb):
            return False
        return mk_bool(b_and(*[b_term(eq(a[k], b[k])) for k in ka]))
    r = (a == b)
    if r is NotImplemented:
        return False
    return r
