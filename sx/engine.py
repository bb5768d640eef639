"""Path exploration: one z3 solver, a trail of decisions, re-execution of the code per path.

Every decision (branch, value pick, assumption) owns one solver scope.  A path is explored by running
the scenario function from scratch; decisions already on the trail are replayed without the solver,
new ones are steered by the current model and their alternative is checked on backtracking.  When the
trail is exhausted every path within the bounds has been decided.
"""
import time
import z3


class Stop(BaseException):
    """Control flow of the engine; never caught by code under test (BaseException)."""


class Infeasible(Stop):
    pass


class PathEnd(Stop):
    pass


class PathLimit(Stop):
    pass


class Unsupported(Stop):
    """The encoding has no rule for an operation."""


class SolverUnknown(Stop):
    pass


class Entry(object):
    __slots__ = ('kind', 'expr', 'value', 'tried', 'count')

    def __init__(self, kind, expr, value, tried=None, count=0):
        self.kind = kind
        self.expr = expr
        self.value = value
        self.tried = tried
        self.count = count


class Violation(object):
    def __init__(self, label, inputs, detail=None, exc=None):
        self.label = label
        self.inputs = inputs
        self.detail = detail
        self.exc = exc


def _bitblast():
    return z3.Then('simplify', 'propagate-values', 'bit-blast', 'sat').solver()


class Engine(object):
    current = None

    def __init__(self, solver_timeout_ms=60000, incremental_timeout_ms=2000, path_limit=200000, value_cap=4096, seconds=None, step_limit=2000000,
                 seed=1):
        self.solver = z3.Solver()
        self.solver.set('timeout', incremental_timeout_ms)
        self.solver.set('random_seed', seed % 1000)
        self.trail = []
        self.pos = 0
        self.model = None
        self.known = {}
        self.path_limit = path_limit
        self.value_cap = value_cap
        self.step_limit = step_limit
        self.deadline = None if seconds is None else time.time() + seconds
        self.solver_timeout_ms = solver_timeout_ms
        # statistics
        self.paths = 0
        self.infeasible = 0
        self.transitions = 0
        self.queries = 0
        self.solver_time = 0.0
        self.retried = 0
        self.answered = None
        self.checks = 0
        self.checks_by_solver = 0
        self.incomplete = []      # reasons why something inside the bounds was not explored
        self.functions = set()
        self.steps = 0
        self.fresh = 0
        self.keep = []            # keeps z3 terms used as cache keys alive
        self.memo = {}

    # -- solver -------------------------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.time()
        res = self.solver.check(*assumptions)
        self.answered = self.solver
        if res == z3.unknown:
            # the incremental core gave up: put the same assertions to a bit-blasting and to a fresh solver
            reason = self.solver.reason_unknown()
            for make in (_bitblast, z3.Solver):
                other = make()
                other.set('timeout', self.solver_timeout_ms)
                try:
                    other.add(self.solver.assertions())
                    res = other.check(*assumptions)
                except z3.Z3Exception:
                    continue
                self.answered = other
                self.retried += 1
                if res != z3.unknown:
                    break
        self.solver_time += time.time() - t
        self.queries += 1
        if res == z3.unknown:
            raise SolverUnknown(reason)
        return res == z3.sat

    def _model(self):
        return self.answered.model()

    def _push(self, expr):
        self.solver.push()
        if expr is not None:
            self.solver.add(expr)

    def eval(self, expr):
        return self.model.eval(expr, model_completion=True)

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise PathLimit('step limit')
        if self.deadline is not None and not self.steps & 1023 and time.time() > self.deadline:
            raise PathLimit('time budget')

    # -- decisions ----------------------------------------------------------------------------
    def _replay(self, kind, expr):
        entry = self.trail[self.pos]
        if entry.kind != kind or (expr is not None and not entry.expr.eq(expr)):
            raise Unsupported('re-execution diverged: %s %s, was %s %s' % (kind, expr, entry.kind, entry.expr))
        self.pos += 1
        return entry

    def branch(self, expr):
        """Decide a z3 Bool; returns a Python bool."""
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = expr.get_id()
        if key in self.known:
            return self.known[key][0]
        self.tick()
        if self.pos < len(self.trail):
            entry = self._replay('br', expr)
            value = entry.value
        else:
            v = self.eval(expr)
            if z3.is_true(v):
                value = True
            elif z3.is_false(v):
                value = False
            else:
                raise Unsupported('model cannot evaluate %s' % expr)
            self._push(expr if value else z3.Not(expr))
            self.trail.append(Entry('br', expr, value))
            self.pos += 1
            self.transitions += 1
        self.known[key] = (value, expr)
        return value

    def pick(self, expr, cap=None):
        """Fork over every feasible value of a z3 term (at most `cap` of them); returns the z3 value."""
        if z3.is_int_value(expr) or z3.is_bv_value(expr):
            return expr
        self.tick()
        if self.pos < len(self.trail):
            return self._replay('val', expr).value
        v = self.eval(expr)
        self._push(expr == v)
        self.trail.append(Entry('val', expr, v, tried=[v], count=cap))
        self.pos += 1
        self.transitions += 1
        return v

    def choose(self, n):
        """Fork over 0..n-1 (no solver involvement)."""
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        self.tick()
        if self.pos < len(self.trail):
            return self._replay('n', None).value
        self._push(None)
        self.trail.append(Entry('n', None, 0, count=n))
        self.pos += 1
        self.transitions += 1
        return 0

    def assume(self, expr):
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise Infeasible()
        if self.pos < len(self.trail):
            self._replay('as', expr)
            return
        holds = z3.is_true(self.eval(expr))
        self._push(expr)
        self.trail.append(Entry('as', expr, True))
        self.pos += 1
        if not holds:
            if not self._check():
                raise Infeasible()
            self.model = self._model()

    def seed_model(self, var, value):
        """Give a fresh variable a value in the current model (only meaningful at the tip)."""
        if self.pos >= len(self.trail):
            self.model.update_value(var, value)

    def find_counterexample(self, expr):
        """None if expr holds on every point of the current path, else a model of its negation."""
        self.checks += 1
        if z3.is_true(expr):
            return None
        if z3.is_false(expr):
            if self.pos < len(self.trail):
                raise Unsupported('check inside replayed prefix')
            return self.model
        if z3.is_false(self.eval(expr)):
            return self.model
        self.checks_by_solver += 1
        self.solver.push()
        try:
            self.solver.add(z3.Not(expr))
            if self._check():
                return self._model()
            return None
        finally:
            self.solver.pop()

    def at_tip(self):
        return self.pos >= len(self.trail)

    # -- exploration --------------------------------------------------------------------------
    def backtrack(self):
        while self.trail:
            entry = self.trail.pop()
            self.solver.pop()
            if entry.kind == 'as':
                continue
            if entry.kind == 'n':
                if entry.value + 1 < entry.count:
                    entry.value += 1
                    self._push(None)
                    self.trail.append(entry)
                    # the model of an ancestor is still a model here, but it may be gone: re-check lazily
                    self._check()
                    self.model = self._model()
                    return True
                continue
            if entry.kind == 'br':
                if entry.tried:
                    continue
                value = not entry.value
                self._push(entry.expr if value else z3.Not(entry.expr))
                if self._check():
                    self.model = self._model()
                    entry.value = value
                    entry.tried = True
                    self.trail.append(entry)
                    self.transitions += 1
                    return True
                self.solver.pop()
                continue
            if entry.kind == 'val':
                cap = entry.count or self.value_cap
                if len(entry.tried) >= cap:
                    self.incomplete.append('more than %d values of one term' % cap)
                    continue
                self.solver.push()
                for v in entry.tried:
                    self.solver.add(entry.expr != v)
                if self._check():
                    self.model = self._model()
                    v = self.eval(entry.expr)
                    self.solver.add(entry.expr == v)
                    entry.tried.append(v)
                    entry.value = v
                    self.trail.append(entry)
                    self.transitions += 1
                    return True
                self.solver.pop()
                continue
        return False

    def explore(self, run_path):
        """run_path() executes the scenario once.  Returns when every path has been explored."""
        self._check()
        self.model = self._model()
        while True:
            self.pos = 0
            self.known = {}
            self.steps = 0
            self.fresh = 0
            Engine.current = self
            stop = run_path()
            if stop:
                return
            if self.paths >= self.path_limit:
                self.incomplete.append('path limit %d' % self.path_limit)
                return
            if self.deadline is not None and time.time() > self.deadline:
                self.incomplete.append('time budget')
                return
            if not self.backtrack():
                return


def E():
    return Engine.current
