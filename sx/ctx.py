"""What a scenario sees.  SymCtx: symbolic inputs and solver-decided checks.  NativeCtx: the same inputs as plain values."""
import json

import z3

from sx import values as v
from sx import hooks
from sx.engine import Engine, PathEnd, Infeasible, Violation
from sx.scenario import Scenario, plain, scripted, distribution
from sx.values import (Sym, SymBool, SymInt, SymIntStr, SymStr, SymRecord, SymSet, SymUnion, RelInfo, NONE_IX, b_and, b_or, b_not,
                       b_term, mk_bool, as_z3, eq, merge, chars_of)


def runs_of(alphabet):
    codes = sorted(set(ord(c) for c in alphabet))
    out = []
    for c in codes:
        if c not in v.UNIVERSE:
            raise ValueError('character %r outside the modelled universe' % chr(c))
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c, 1)
        else:
            out.append((c, c, 1))
    return out


class SymCtx(object):
    symbolic = True

    def __init__(self, engine, eager=False):
        self.engine = engine
        self.eager = eager
        self.inputs = []
        self.names = set()
        self.observed = []
        self.covered = set()
        self.rnd = 0
        self.script = None
        self.snapshot = None

    def restart(self):
        """The module-level state of a process that has just imported the library; objects at hand stay."""
        self.snapshot.restore()

    # inputs ------------------------------------------------------------------------------------
    def _name(self, name):
        assert name not in self.names, name
        self.names.add(name)
        return name

    def _record_input(self, name, kind, obj):
        self.inputs.append((name, kind, obj))

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        e = self.engine
        if lo is not None and hi is not None and max(abs(lo), abs(hi)) < (1 << 36):
            w = v.width(lo, hi)
            b = z3.BitVec(name, w)
            e.seed_model(b, z3.BitVecVal(lo, w))
            e.assume(z3.And(b >= lo, b <= hi))
            self._record_input(name, 'bits', b)
            x = SymInt(None, bv=b, lo=lo, hi=hi)
            return x.__index__() if self.eager else x
        t = z3.Int(name)
        cs = []
        if lo is not None:
            cs.append(t >= lo)
        if hi is not None:
            cs.append(t <= hi)
        if cs:
            e.seed_model(t, z3.IntVal(lo if lo is not None else min(hi, 0)))
            e.assume(z3.And(*cs) if len(cs) > 1 else cs[0])
        x = SymInt(t)
        self._record_input(name, 'int', t)
        if self.eager:
            return x.__index__()
        return x

    def bool(self, name):
        t = z3.Bool(self._name(name))
        self._record_input(name, 'bool', t)
        if self.eager:
            return bool(SymBool(t))
        return SymBool(t)

    def record(self, name, relation, none=False, only=None):
        name = self._name(name)
        info = RelInfo.of(relation)
        dom = list(range(len(info.records))) if only is None else [info.index[id(r)] for r in only]
        if none:
            dom.append(NONE_IX)
        t = z3.BitVec(name, v.RW)
        e = self.engine
        e.seed_model(t, z3.BitVecVal(dom[0], v.RW))
        e.assume(as_z3(b_or(*[t == k for k in dom])))
        self._record_input(name, 'record', (relation, t))
        x = v.mk_record(info, t, dom)
        if self.eager and isinstance(x, SymRecord):
            return x.concretize()
        return x

    def char(self, name, alphabet):
        return self.string(name, 1, 1, alphabet)

    def string(self, name, lo, hi, alphabet):
        name = self._name(name)
        runs = runs_of(alphabet)
        n = lo + self.engine.choose(hi - lo + 1)
        chars = []
        for i in range(n):
            t = z3.BitVec('%s.%d' % (name, i), v.CW)
            self.engine.seed_model(t, z3.BitVecVal(runs[0][0], v.CW))
            self.engine.assume(as_z3(v.c_in_runs(t, runs)))
            chars.append(t)
        self._record_input(name, 'str', chars)
        s = v.mk_str(chars)
        if self.eager and isinstance(s, SymStr):
            return s.concretize()
        return s

    def choose(self, name, options):
        name = self._name(name)
        n = options if isinstance(options, int) else len(options)
        i = self.engine.choose(n)
        self._record_input(name, 'choice', i)
        return i if isinstance(options, int) else options[i]

    def subset(self, name, elements):
        name = self._name(name)
        items = [(e, z3.Bool('%s.%d' % (name, i))) for i, e in enumerate(elements)]
        self._record_input(name, 'subset', [g for _, g in items])
        s = SymSet(items)
        if self.eager:
            return s.concretize()
        return s

    def random_index(self, n):
        """An arbitrary choice of the environment (random.choice and friends)."""
        if n <= 0:
            raise IndexError('Cannot choose from an empty sequence')
        if self.script is not None:
            return self.script.next(n)
        name = 'random#%d' % self.rnd
        self.rnd += 1
        i = self.engine.choose(n)
        self.inputs.append((name, 'choice', i))
        return i

    def distribution(self, fn, *args, **kw):
        """Every result with how many equally likely runs there are in one of which it comes up; None if there are too many."""
        return distribution(self, fn, args, kw)

    def outcomes(self, fn, *args, **kw):
        """[(result, None) or (None, exception)] for every answer of `random`, all on this path."""
        return scripted(self, fn, args, kw)

    # logic -------------------------------------------------------------------------------------
    def And(self, *xs):
        return mk_bool(b_and(*[b_term(x) for x in xs]))

    def Or(self, *xs):
        return mk_bool(b_or(*[b_term(x) for x in xs]))

    def Not(self, x):
        return mk_bool(b_not(b_term(x)))

    def Implies(self, a, b):
        return mk_bool(b_or(b_not(b_term(a)), b_term(b)))

    def Iff(self, a, b):
        a, b = b_term(a), b_term(b)
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return mk_bool(a if b else b_not(a))
        return mk_bool(a == b)

    def If(self, c, a, b):
        c = b_term(c)
        return merge([(c, a), (b_not(c), b)])

    def Eq(self, a, b):
        return mk_bool(b_term(eq(a, b)))

    def count(self, xs):
        """Number of true conditions."""
        n = 0
        for x in xs:
            t = b_term(x)
            n = n + (int(t) if isinstance(t, bool) else SymBool(t)._int())
        return n

    def same_text(self, a, b):
        return mk_bool(v.s_eq(a, b)) if v.is_str(a) and v.is_str(b) else False

    # verdicts ------------------------------------------------------------------------------------
    def assume(self, c):
        self.engine.assume(as_z3(b_term(c)))

    def cover(self, label):
        self.covered.add(label)

    def check(self, c, label, **detail):
        t = as_z3(b_term(c))
        m = self.engine.find_counterexample(t)
        self.covered.add('check:' + label)
        if m is not None:
            raise CheckFailed(label, self.model_inputs(m))

    def fail(self, label):
        self.check(False, label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def json_roundtrip(self, x):
        return hooks.json_value(x)

    def raises(self, fn, *args, **kw):
        """(result, None) or (None, exception)."""
        try:
            return hooks.call(fn, *args, **kw), None
        except Exception as e:
            return None, e

    # models ----------------------------------------------------------------------------------------
    def model_inputs(self, model):
        def ev(t):
            return model.eval(t, model_completion=True)
        out = {}
        for name, kind, obj in self.inputs:
            if kind == 'int':
                out[name] = ev(obj).as_long()
            elif kind == 'bits':
                out[name] = ev(obj).as_signed_long()
            elif kind == 'bool':
                out[name] = z3.is_true(ev(obj))
            elif kind == 'record':
                k = ev(obj[1]).as_long()
                out[name] = None if k == NONE_IX else k
            elif kind == 'str':
                out[name] = ''.join(chr(ev(c).as_long()) for c in obj)
            elif kind == 'choice':
                out[name] = obj
            elif kind == 'subset':
                out[name] = [i for i, g in enumerate(obj) if z3.is_true(ev(g))]
        return out

    def model_value(self, model, x):
        """Concrete JSON value of an observed structure under the model."""
        def ev(t):
            return model.eval(t, model_completion=True)

        def conv(x):
            if isinstance(x, SymBool):
                return z3.is_true(ev(x.t))
            if isinstance(x, SymInt):
                return ev(x.bv).as_signed_long() if x.bv is not None else ev(x.t).as_long()
            if isinstance(x, SymIntStr):
                return str(conv(x.n))
            if isinstance(x, v.SymStrCases):
                for g, w in x.cases:
                    if g is True or z3.is_true(ev(g)):
                        return w
            if isinstance(x, SymStr):
                return ''.join(chr(c) if isinstance(c, int) else chr(ev(c).as_long()) for c in x.chars)
            if isinstance(x, SymRecord):
                k = ev(x.ix).as_long()
                return None if k == NONE_IX else conv(x.info.records[k])
            if isinstance(x, SymSet):
                return sorted(json.dumps(conv(e)) for e, g in x.items if g is True or z3.is_true(ev(g)))
            if isinstance(x, SymUnion):
                for g, o in x.alts:
                    if g is True or z3.is_true(ev(as_z3(g))):
                        return conv(o)
            return plain(x, conv)
        return conv(x)


class CheckFailed(PathEnd):
    def __init__(self, label, inputs):
        self.label = label
        self.inputs = inputs
