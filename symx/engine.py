"""Path explorer: depth-first exploration of all feasible paths of a Python callable
whose inputs are z3 terms.  The solver decides every branch and every assertion."""
import time
import z3


class Control(BaseException):
    """Engine control flow; BaseException so that the code under test cannot swallow it."""


class Infeasible(Control):
    """An assumption is unsatisfiable on this path."""


class NeedFork(Control):
    """A speculative (merged) evaluation would have to branch."""


class Local:
    """Branches inside one call of a side-effect-free predicate.  All of them are followed (without
    asking the solver; a branch that cannot happen adds a condition that is never true) and the
    results are joined into one term, so that the caller does not branch."""
    MAX_PATHS = 80
    MAX_DEPTH = 60

    def __init__(self, outer, spec):
        self.outer = outer
        self.spec = spec            # speculation depth at entry
        self.trail = []             # [cond, taken, other side still to do]
        self.pos = 0
        self.known = {}
        self.keep = []

    def decide(self, cond):
        if self.pos < len(self.trail):
            taken = self.trail[self.pos][1]
        else:
            if len(self.trail) >= self.MAX_DEPTH:
                raise NeedFork()
            taken = True
            self.trail.append([cond, True, True])
        self.pos += 1
        self.learn(cond, taken)
        return taken

    def learn(self, cond, val):
        self.known[cond.ast.value] = val
        self.keep.append(cond)
        if z3.is_not(cond):
            c = cond.arg(0)
            self.known[c.ast.value] = not val
            self.keep.append(c)

    def conditions(self):
        return [e[0] if e[1] else z3.Not(e[0]) for e in self.trail]

    def advance(self):
        self.known = {}
        self.pos = 0
        while self.trail:
            e = self.trail[-1]
            if e[2]:
                e[1], e[2] = not e[1], False
                return True
            self.trail.pop()
        return False


class EngineLimit(Control):
    """The code left the fragment the engine can encode (reported, never counted as success)."""


class SolverUnknown(Control):
    """The solver gave up; inconclusive."""


class PathTimeout(Control):
    """A single path ran for too long (possible non-termination)."""


class Violation(Control):
    def __init__(self, msg, assignment, kind="check"):
        super().__init__(msg)
        self.msg = msg
        self.assignment = assignment
        self.kind = kind
        self.more = [assignment]


class _Entry:
    __slots__ = ("kind", "cond", "taken", "alt", "pushed", "term", "value", "tried", "altmodel")

    def __init__(self, kind, cond=None, taken=None, alt=False, pushed=False, term=None, value=None):
        self.kind = kind
        self.cond = cond
        self.taken = taken
        self.alt = alt
        self.pushed = pushed
        self.term = term
        self.value = value
        self.tried = []
        self.altmodel = None


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forced = 0
        self.checks = 0
        self.check_queries = 0
        self.paths = 0
        self.infeasible = 0
        self.values = 0

    def as_dict(self):
        return dict(self.__dict__)


ENGINE = None          # the active engine of this process


def current():
    return ENGINE


class Engine:
    MAX_VALUES = 600
    MAX_DECISIONS = 200000

    def __init__(self, quick_timeout_ms=20000, slow_timeout_ms=240000):
        self.solver = z3.Solver()
        self.quick_timeout_ms = quick_timeout_ms
        self.solver.set("timeout", quick_timeout_ms)
        self.slow_timeout_ms = slow_timeout_ms
        self.trail = []
        self.pos = 0
        self.replay_len = 0
        self.known = {}
        self.keep = []          # keeps terms alive so that ids in `known` stay valid
        self.model = None
        self.stats = Stats()
        self.spec = 0           # >0: speculative evaluation, must not branch
        self.local = None       # innermost Local
        self.deadline = None
        self.path_deadline = None
        self.ndecisions = 0
        self.inputs = {}        # name -> input descriptor
        self.fresh = 0
        self.notes = set()

    # ---------------------------------------------------------------- solver access
    def _check(self, *extra):
        """sat/unsat of path condition and extra; returns (bool, model or None)."""
        self.stats.queries += 1
        t0 = time.monotonic()
        try:
            if extra:
                self.solver.push()
                for e in extra:
                    self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            if r == z3.unknown:
                r, m = self._slow_check()
            return r == z3.sat, m
        finally:
            if extra:
                self.solver.pop()
            self.stats.solver_s += time.monotonic() - t0

    def _slow_check(self):
        for mk in (lambda: z3.SolverFor("QF_AUFBV"), lambda: z3.SolverFor("QF_NRA"), z3.Solver):
            try:
                s = mk()
                s.set("timeout", self.slow_timeout_ms)
                for a in self.solver.assertions():
                    s.add(a)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        raise SolverUnknown(str(self.solver.reason_unknown()))

    def _tick(self):
        self.ndecisions += 1
        if self.ndecisions > self.MAX_DECISIONS:
            raise PathTimeout("too many decisions on one path")
        now = time.monotonic()
        if self.path_deadline and now > self.path_deadline:
            raise PathTimeout("path time limit")
        if self.deadline and now > self.deadline:
            raise EngineLimit("time budget of the check exhausted")

    # ---------------------------------------------------------------- decisions
    def decide(self, cond):
        """Concrete truth value of a z3 Bool on this path; explores the other side later."""
        k = self.known.get(cond.ast.value)
        if k is not None:
            return k
        loc = self.local
        if loc is not None:
            l = loc
            while l is not None:
                k = l.known.get(cond.ast.value)
                if k is not None:
                    return k
                l = l.outer
            if self.spec > loc.spec:
                raise NeedFork()
            return loc.decide(cond)
        if self.spec:
            raise NeedFork()
        self._tick()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            if e.kind != "branch":
                raise EngineLimit("nondeterministic execution (branch expected, got %s)" % e.kind)
            self._learn(cond, e.taken)
            return e.taken
        self.stats.branches += 1
        m = self._cur_model()
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            first = True
        elif z3.is_false(v):
            first = False
        else:
            ok, mm = self._check(cond)
            first = ok
            if ok:
                self.model = mm
        other_cond = z3.Not(cond) if first else cond
        ok, mm = self._check(other_cond)
        e = _Entry("branch", cond, first, alt=ok)
        e.altmodel = mm
        if ok:
            self.solver.push()
            self.solver.add(cond if first else z3.Not(cond))
            e.pushed = True
        else:
            self.stats.forced += 1
        self.trail.append(e)
        self.pos += 1
        self._learn(cond, first)
        return first

    def _learn(self, cond, val):
        self.known[cond.ast.value] = val
        self.keep.append(cond)
        if z3.is_not(cond):
            c = cond.arg(0)
            self.known[c.ast.value] = not val
            self.keep.append(c)

    def _cur_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise Infeasible("path condition unsatisfiable")
            self.model = m
        return self.model

    def assume(self, cond):
        if cond is True or (z3.is_expr(cond) and z3.is_true(cond)):
            return
        if cond is False or z3.is_false(cond):
            raise Infeasible("assumption false")
        if self.spec or self.local is not None:
            raise NeedFork()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            if e.kind != "assume":
                raise EngineLimit("nondeterministic execution (assume expected, got %s)" % e.kind)
            self._learn(cond, True)
            return
        e = _Entry("assume", cond)
        self.solver.push()
        self.solver.add(cond)
        e.pushed = True
        self.trail.append(e)
        self.pos += 1
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise Infeasible("assumption unsatisfiable")
            self.model = m
        self._learn(cond, True)

    def axiom(self, cond):
        """A constraint that holds by definition of freshly introduced terms."""
        if self.spec or self.local is not None:
            raise NeedFork()
        if self.pos == len(self.trail):
            self.solver.add(cond)
            if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def concretize(self, term, to_py, mk_eq):
        """Pick a concrete value of term; all other feasible values are explored later."""
        if self.spec or self.local is not None:
            raise NeedFork()
        self._tick()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            if e.kind != "value":
                raise EngineLimit("nondeterministic execution (value expected, got %s)" % e.kind)
            self._learn(mk_eq(e.value), True)
            return e.value
        m = self._cur_model()
        val = to_py(m.eval(term, model_completion=True))
        self.stats.values += 1
        e = _Entry("value", term=term, value=val)
        e.cond = mk_eq
        e.taken = to_py
        self.solver.push()
        self.solver.add(mk_eq(val))
        e.pushed = True
        e.tried.append(val)
        self.trail.append(e)
        self.pos += 1
        self._learn(mk_eq(val), True)
        return val

    # ---------------------------------------------------------------- assertions
    def prove(self, cond, msg):
        """Ask the solver for values that falsify cond on this path."""
        if cond is True:
            self.stats.checks += 1
            return
        if self.pos < self.replay_len:
            return              # discharged on the path this prefix was first explored on
        self.stats.checks += 1
        if cond is False:
            raise self._violation(msg, [])
        if z3.is_true(cond):
            return
        self.stats.check_queries += 1
        neg = z3.Not(cond)
        ok, m = self._check(neg)
        if ok:
            raise self._violation(msg, [neg])

    def _violation(self, msg, extra):
        """Counterexample; where rounding is over-approximated, with several different inputs, since the
        first ones may lie within the approximation's margin."""
        first = self.assignment(extra)
        more = [first]
        zs = [(n, d.t) for n, d in self.inputs.items() if getattr(d, "kind", None) == "z"]
        while self.rounded and zs and len(more) < 6:
            try:
                more.append(self.assignment(list(extra) + [t != a[n] for a in more for n, t in zs]))
            except Control:
                break
        v = Violation(msg, first)
        v.more = more
        return v

    def assignment(self, extra=()):
        """Concrete inputs for the current path (plus extra constraints), smallest sizes first."""
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            softs = [c for d in self.inputs.values() for c in d.prefer()]
            best = None
            for c in softs:
                self.solver.push()
                self.solver.add(c)
                self.stats.queries += 1
                if self.solver.check() != z3.sat:
                    self.solver.pop()
            r = self.solver.check()
            if r == z3.sat:
                m = self.solver.model()
            else:
                r, m = self._slow_check()
            if m is None:
                raise SolverUnknown("no model for counterexample")
            return {n: d.evaluate(m) for n, d in self.inputs.items()}
        finally:
            while self.solver.num_scopes() > sum(1 for e in self.trail if e.pushed):
                self.solver.pop()

    # ---------------------------------------------------------------- exploration
    def begin_path(self):
        self.pos = 0
        self.replay_len = len(self.trail)
        self.known = {}
        self.keep = []
        self.spec = 0
        self.local = None
        self.ndecisions = 0
        self.inputs = {}
        self.fresh = 0
        self.rounded = {}           # rounding is a function: one variable per exact result

    def backtrack(self):
        """Move to the next unexplored path.  False when everything is explored."""
        while self.trail:
            e = self.trail[-1]
            if e.pushed:
                self.solver.pop()
                e.pushed = False
            if e.kind == "branch" and e.alt:
                e.taken = not e.taken
                e.alt = False
                self.solver.push()
                self.solver.add(e.cond if e.taken else z3.Not(e.cond))
                e.pushed = True
                self.model = e.altmodel
                e.altmodel = None
                return True
            if e.kind == "value":
                excl = [z3.Not(e.cond(v)) for v in e.tried]
                ok, m = self._check(*excl)
                if ok:
                    if len(e.tried) >= self.MAX_VALUES:
                        raise EngineLimit("more than %d values for one concretized term" % self.MAX_VALUES)
                    e.value = e.taken(m.eval(e.term, model_completion=True))
                    e.tried.append(e.value)
                    self.stats.values += 1
                    self.solver.push()
                    self.solver.add(e.cond(e.value))
                    e.pushed = True
                    self.model = m
                    return True
            self.trail.pop()
        return False
