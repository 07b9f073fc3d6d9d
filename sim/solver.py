"""The solver seam.

`install()` replaces pysmt's 'z3' by SimSolver.  Its answers are honest (they
are decided by z3 on quantifier-free formulas; a top-level universal
quantification is decided here by counterexample-guided expansion), but which
model it returns is the simulator's choice, bit by bit, and the simulator can
make any query fail.  The model depends only on the seed and the formula, not
on z3's heuristics."""
import random

import z3
from pysmt.exceptions import SolverReturnedUnknownResultError
from pysmt.shortcuts import get_env
from pysmt.solvers.eager import EagerModel
from pysmt.solvers.z3 import Z3Converter, Z3Solver

from .core import HarnessError


class Control:
    """What the simulated solver does: set by the check for every run."""

    def __init__(self):
        self.reset(None)

    def reset(self, ctx, seed=0, style="mix", faults=()):
        self.ctx = ctx
        self.rng = random.Random(f"solver:{seed}")
        self.style = style
        self.faults = {int(n): k for n, k in faults}   # query number -> kind
        self.query = 0
        self.fired = []
        self.log = []
        self.checks = 0
        self.max_queries = None
        self.max_checks = None      # quantifier-free queries, then it gives up

    def on_query(self):
        self.query += 1
        k = self.faults.get(self.query)
        if k is not None:
            self.fired.append((self.query, k))
            if self.ctx is not None:
                self.ctx.fault("solver:" + k)
            if k == "unknown":
                raise SolverReturnedUnknownResultError("simulated")
            if k == "crash":
                raise z3.Z3Exception(b"simulated solver crash")
            if k == "memout":
                raise MemoryError("simulated solver out of memory")
            if k == "interrupt":
                raise KeyboardInterrupt("simulated")
            raise HarnessError(k)

    def phases(self):
        s = self.style
        if s == "mix":
            s = self.rng.choice(["rand", "rand", "zeros", "ones", "sparse"])
        if s == "zeros":
            return lambda: 0
        if s == "ones":
            return lambda: 1
        if s == "sparse":
            return lambda: int(self.rng.random() < 0.15)
        return lambda: self.rng.randrange(2)


CONTROL = Control()

# work z3 may spend on one quantifier-free query before it gives up, in its own
# deterministic units; the simulated solver then answers "unknown"
RLIMIT = 30_000_000
# checks made in this run; a run that has made many chooses fewer bits of each model
MADE = 0
MAX_MADE = 100_000      # then every further query gives up


def bits_to_choose():
    return 1000 if MADE < 200 else 10 if MADE < 600 else 2


class GaveUp(Exception):
    pass


class SimModel(EagerModel):
    def get_value(self, formula, model_completion=True):
        if model_completion:
            for s in sorted(formula.get_free_variables(), key=str):
                if s not in self.assignment:
                    self.assignment[s] = _arbitrary(self.environment.formula_manager, s)
                    self.completed_assignment.pop(s, None)
        return super().get_value(formula, model_completion)


def _arbitrary(mgr, s):
    t = s.symbol_type()
    if t.is_bool_type():
        return mgr.Bool(bool(CONTROL.rng.randrange(2)))
    return mgr.BV(CONTROL.rng.randrange(1 << t.width), t.width)


def _arbitrary_const(mgr, s, phase):
    t = s.symbol_type()
    if t.is_bool_type():
        return mgr.Bool(bool(phase()))
    v = 0
    for _ in range(t.width):
        v = v * 2 + phase()
    return mgr.BV(v, t.width)


class _QF:
    """Quantifier-free z3 with chosen models."""

    def __init__(self, env):
        self.env = env
        self.mgr = env.formula_manager
        self.z3 = z3.SolverFor("QF_BV")
        self.z3.set("rlimit", RLIMIT)
        self.conv = Z3Converter(env, z3_ctx=self.z3.ctx)
        self.syms = set()

    def add(self, f):
        if f.is_true():
            return
        self.syms |= set(f.get_free_variables())
        self.z3.add(self.conv.convert(f))

    def check(self, *a):
        CONTROL.checks += 1
        if CONTROL.max_checks is not None and CONTROL.checks > CONTROL.max_checks:
            raise GaveUp()
        global MADE
        MADE += 1
        if MADE > MAX_MADE:
            raise GaveUp()
        r = str(self.z3.check(*a))
        if r == "unknown":
            raise GaveUp()
        return r == "sat"

    def model(self):
        """None, or a model {symbol: constant} chosen by CONTROL."""
        if not self.check():
            return None
        cur = self.z3.model()
        phase = CONTROL.phases()
        bits = []
        terms = {}
        for s in sorted(self.syms, key=lambda s: s.symbol_name()):
            t = terms[s] = self.conv.convert(s)
            ty = s.symbol_type()
            if ty.is_bool_type():
                bits.append((s, None))
            else:
                bits += [(s, i) for i in range(ty.width)]
        CONTROL.rng.shuffle(bits)
        fixed = []
        vals = {}

        def bit(m, s, i):
            v = m.eval(terms[s], model_completion=True)
            if i is None:
                return int(z3.is_true(v))
            return (v.as_long() >> i) & 1
        tries = bits_to_choose()
        for s, i in bits:
            want = phase()
            lit = terms[s] == bool(want) if i is None else z3.Extract(i, i, terms[s]) == want
            if bit(cur, s, i) == want:
                fixed.append(lit)
                vals[s, i] = want
                continue
            tries -= 1
            try:
                ok = tries >= 0 and self.check(*(fixed + [lit]))
            except GaveUp:      # then some other model will do
                ok = False
            if ok:
                cur = self.z3.model()
                fixed.append(lit)
                vals[s, i] = want
            else:
                vals[s, i] = 1 - want
                fixed.append(terms[s] == (not want) if i is None else z3.Extract(i, i, terms[s]) == 1 - want)
        out = {}
        for s in self.syms:
            ty = s.symbol_type()
            if ty.is_bool_type():
                out[s] = self.mgr.Bool(bool(vals[s, None]))
            else:
                out[s] = self.mgr.BV(sum(vals[s, i] << i for i in range(ty.width)), ty.width)
        return out


class SimSolver(Z3Solver):
    def __init__(self, environment, logic, **options):
        super().__init__(environment, logic, **options)
        self.sim = []           # assertions, per level
        self.levels = []
        self.sim_model = None
        self.alive = True

    def _reset_assertions(self):
        self.sim, self.levels, self.sim_model = [], [], None

    def _add_assertion(self, formula, named=None):
        self._assert_is_boolean(formula)
        self.sim.append(formula)
        return formula

    def _push(self, levels=1):
        for _ in range(levels):
            self.levels.append(len(self.sim))

    def _pop(self, levels=1):
        for _ in range(levels):
            del self.sim[self.levels.pop():]

    def _solve(self, assumptions=None):
        try:
            return self._decide(assumptions)
        except GaveUp:
            self.sim_model = None
            CONTROL.fired.append((CONTROL.query, "gave-up"))
            if CONTROL.ctx is not None:
                CONTROL.ctx.fault("solver:gave-up")
            raise SolverReturnedUnknownResultError("z3 gave up")

    def _decide(self, assumptions):
        self.sim_model = None
        if CONTROL.max_queries is not None and CONTROL.query >= CONTROL.max_queries:
            from .core import Violation
            raise Violation("no-progress", f"more than {CONTROL.max_queries} solver queries")
        CONTROL.on_query()
        fs = list(self.sim) + list(assumptions or [])
        qf = _QF(self.environment)
        alls = []
        for f in fs:
            if f.is_forall():
                alls.append((list(f.quantifier_vars()), f.arg(0)))
            else:
                qf.add(f)
        exist = set()
        for vs, body in alls:
            exist |= set(body.get_free_variables()) - set(vs)
        first = True
        for _ in range(100000):
            if first and alls:
                # start from some instance of every quantified formula
                phase = CONTROL.phases()
                for vs, body in alls:
                    qf.add(body.substitute({v: _arbitrary_const(self.mgr, v, phase) for v in vs}).simplify())
                first = False
            m = qf.model()
            if m is None:
                return False
            for s in sorted(exist, key=lambda s: s.symbol_name()):
                if s not in m:
                    m[s] = _arbitrary(self.mgr, s)
            bad = False
            for vs, body in alls:
                neg = _QF(self.environment)
                neg.add(self.mgr.Not(body.substitute({s: m[s] for s in body.get_free_variables() if s not in vs}).simplify()))
                ce = neg.model() if not neg.syms or True else None
                if ce is None:
                    continue
                bad = True
                sigma = {v: ce.get(v) or _arbitrary_const(self.mgr, v, lambda: 0) for v in vs}
                qf.add(body.substitute(sigma).simplify())
            if not bad:
                self.sim_model = SimModel(m, self.environment)
                return True
        raise HarnessError("expansion did not finish")

    def get_model(self):
        if self.sim_model is None:
            raise HarnessError("model asked without a satisfiable query")
        return self.sim_model

    def get_value(self, item):
        if not self.alive:
            raise AttributeError("the solver has been closed")
        self._assert_no_function_type(item)
        return self.sim_model.get_value(item).simplify()

    def _exit(self):
        self.alive = False
        super()._exit()


_real = None


def install():
    global _real
    f = get_env().factory
    if f._all_solvers["z3"] is not SimSolver:
        _real = f._all_solvers["z3"]
        f._all_solvers["z3"] = SimSolver


def uninstall():
    if _real is not None:
        get_env().factory._all_solvers["z3"] = _real
