"""
Path-exploring symbolic executor for real Python code: the core.

The code under test runs under CPython itself.  Inputs are proxy objects (see
values.py) that carry z3 terms; every time the program asks for the truth of a
symbolic condition, `Ctx.branch` asks z3 which outcomes are feasible under the
current path condition, takes one and schedules the other.  Paths are replayed
from the start with a decision prefix (no state copying), so generators,
closures, exceptions and threads of the real code keep their real semantics.

`Ctx.check` is the deciding step: it asks z3 for a value of the symbolic inputs
that satisfies the path condition and falsifies the property.
"""

import sys
import ctypes
import threading
import time
import z3

CUR = None  # the Ctx of the path being executed


class Steer(BaseException):
    """Base of the engine's own control-flow exceptions.

    Derived from BaseException so that 'except Exception' in the code under
    test does not swallow it.  Because a bare 'except:' would, the reason is
    also latched in the context.
    """


class PathInfeasible(Steer):
    pass


class Cut(Steer):
    """The path was abandoned (unsupported operation, fuel): outside the claim."""


class EngineError(Exception):
    pass


class Violation:
    def __init__(self, msg, params, decisions):
        self.msg = msg
        self.params = params
        self.decisions = decisions

    def __repr__(self):
        return "Violation(%r, %r)" % (self.msg, self.params)


class Stats:
    FIELDS = (
        "paths",
        "branches",
        "forks",
        "queries",
        "sat",
        "unsat",
        "unknown",
        "asserts",
        "asserts_proved",
        "concretisations",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.max_depth = 0
        self.max_cpu = 0.0
        self.cuts = {}
        self.reached = {}
        self.infeasible = 0

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        self.infeasible += o.infeasible
        self.max_depth = max(self.max_depth, o.max_depth)
        for k, v in o.cuts.items():
            self.cuts[k] = self.cuts.get(k, 0) + v
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v


def make_solver(general):
    """Linear integer arithmetic suffices for most paths; strings, reals and
    uninterpreted bytes need the general solver."""
    return z3.Solver() if general else z3.SolverFor("QF_LIA")


class Ctx:
    """State of one path."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.st = explorer.stats
        self.prefix = prefix
        self.pos = 0
        self.trail = []  # [(bool, condition, concretised value or None)]
        self.is_general = False
        self.solver = make_solver(False)
        self.solver.set("timeout", explorer.query_timeout_ms)
        self.constraints = []
        self.model = None
        self.inputs = {}  # name -> z3 const (ordered)
        self.consts = {}  # name -> concrete parameter
        self.names = {}
        self.failed = None  # latched Steer
        self.fuel = explorer.fuel
        self.trace = []  # free-form observations
        self.violations = []
        self.concrete = False
        self.exact_width = False
        self.sentinels = None
        self.extra = {}

    # -- inputs ---------------------------------------------------------
    def fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def int(self, name, lo=None, hi=None):
        from . import values

        name = self.fresh(name)
        if lo is not None and lo == hi:
            self.consts[name] = lo
            return lo
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        return values.SymInt(v)

    def real(self, name, lo=None, hi=None):
        from . import values

        name = self.fresh(name)
        self.general()
        v = z3.Real(name)
        self.inputs[name] = v
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        return values.SymReal(v)

    def bool(self, name):
        from . import values

        name = self.fresh(name)
        v = z3.Bool(name)
        self.inputs[name] = v
        return values.SymBool(v)

    def string(self, name, maxlen=None):
        from . import values

        name = self.fresh(name)
        self.general()
        v = z3.String(name)
        self.inputs[name] = v
        if maxlen is not None:
            self._add(z3.Length(v) <= maxlen)
        return values.SymStr(v)

    def choice(self, name, options):
        """A symbolic selector, forked into one path per option."""
        options = list(options) if not isinstance(options, int) else range(options)
        n = len(options)
        if n == 0:
            self.cut("empty choice %s" % name)
        if n == 1:
            return options[0]
        name = self.fresh(name)
        v = z3.Int(name)
        self.inputs[name] = v
        self._add(v >= 0)
        self._add(v < n)
        for i in range(n - 1):
            if self.branch(v == i):
                return options[i]
        return options[n - 1]

    def flag(self, name):
        """A symbolic boolean, forked."""
        return bool(self.bool(name))

    # -- solver ---------------------------------------------------------
    def general(self):
        """Switch this path to the general solver."""
        if not self.is_general:
            self.is_general = True
            self.solver = make_solver(True)
            self.solver.set("timeout", self.ex.query_timeout_ms)
            self.solver.add(*self.constraints)

    def _add(self, cond):
        self.solver.add(cond)
        self.constraints.append(cond)
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def _check(self, *extra):
        t = time.time()
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception:
            if self.is_general:
                raise
            r = z3.unknown
        if r == z3.unknown and not self.is_general:
            self.general()
            r = self.solver.check(*extra)
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.sat:
            self.st.sat += 1
        elif r == z3.unsat:
            self.st.unsat += 1
        else:
            self.st.unknown += 1
        if self.ex.query_log is not None and r != z3.unknown:
            self.ex.log_query(self.constraints, extra, r)
        return r

    def cut(self, why):
        c = Cut(why)
        if self.failed is None:
            self.failed = c
        raise c

    def infeasible(self):
        c = PathInfeasible()
        if self.failed is None:
            self.failed = c
        raise c

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            self.cut("fuel: more than %d symbolic steps on one path" % self.ex.fuel)

    def assume(self, cond):
        from . import values

        t = values.as_z3bool(cond)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            self.infeasible()
        self._add(t)
        if self.pos < len(self.prefix):
            return  # feasibility was established when the prefix was made
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.infeasible()
            if r == z3.sat:
                self.model = self.solver.model()

    def _same(self, a, b):
        """Are two boolean terms equivalent (simplifier order may differ)?"""
        if a.eq(b):
            return True
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.constraints)
        s.add(a != b)
        return s.check() == z3.unsat

    def branch(self, cond, tag=None):
        """Return the truth of z3 condition 'cond' on this path, forking if open."""
        if self.failed is not None:
            raise self.failed
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.tick()
        self.st.branches += 1
        if self.pos < len(self.prefix):
            val, want, _ = self.prefix[self.pos]
            if not self._same(want, cond):
                raise EngineError(
                    "nondeterministic re-execution at decision %d: %s"
                    % (self.pos, cond)
                )
            self.pos += 1
            self.trail.append((val, cond, tag))
            self._add(cond if val else z3.Not(cond))
            return val
        if self.ex.deadline and time.time() > self.ex.deadline:
            self.ex.timed_out = True
            self.cut("time budget of the harness")
        ncond = z3.Not(cond)
        tmodel = fmodel = None
        may_t = may_f = None
        if self.model is not None:
            if z3.is_true(self.model.eval(cond, model_completion=True)):
                may_t, tmodel = True, self.model
            else:
                may_f, fmodel = True, self.model
        if may_t is None:
            r = self._check(cond)
            may_t = r != z3.unsat
            tmodel = self.solver.model() if r == z3.sat else None
            if not may_t:
                # the path condition itself is satisfiable, so the other side is
                may_f = True if may_f is None else may_f
        if may_f is None:
            r = self._check(ncond)
            may_f = r != z3.unsat
            fmodel = self.solver.model() if r == z3.sat else None
        if may_t and may_f:
            self.st.forks += 1
            self.ex.push(self.trail + [(False, cond, tag)])
            val = True
        elif may_t:
            val = True
        elif may_f:
            val = False
        else:
            self.infeasible()
        self.pos += 1
        self.prefix.append((val, cond, tag))
        self.trail.append((val, cond, tag))
        # keep the matching model
        keep = tmodel if val else fmodel
        c = cond if val else ncond
        if may_t and may_f:
            self.model = None
            self._add(c)
        else:
            # entailed: adding it changes nothing, but speeds up later queries
            self.solver.add(c)
        self.model = keep
        return val

    def entails(self, cond):
        """True if the path condition implies cond (no fork)."""
        from . import values

        t = z3.simplify(values.as_z3bool(cond))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self._check(z3.Not(t)) == z3.unsat

    def feasible(self, cond):
        from . import values

        t = z3.simplify(values.as_z3bool(cond))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self._check(t) != z3.unsat

    def check(self, cond, msg):
        """Assert the property 'cond' for every value on this path."""
        from . import values

        if self.failed is not None:
            raise self.failed
        self.st.asserts += 1
        if cond is True:
            self.st.asserts_proved += 1
            return
        t = values.as_z3bool(cond)
        t = z3.simplify(t)
        if z3.is_true(t):
            self.st.asserts_proved += 1
            return
        r = self._check(z3.Not(t))
        if r == z3.unsat:
            self.st.asserts_proved += 1
            return
        if r == z3.unknown:
            self.cut("solver answered unknown on assertion: %s" % msg)
        self._report(z3.Not(t), msg)
        self._add(t)
        if self._check() == z3.unsat:
            self.infeasible()

    def fail(self, msg):
        self.st.asserts += 1
        if self.failed is not None:
            raise self.failed
        self._report(z3.BoolVal(True), msg)

    def _report(self, neg, msg):
        params = self.concretise_inputs(neg)
        v = Violation(msg, params, None)
        self.violations.append(v)
        self.ex.violations.append(v)
        if len(self.ex.violations) >= self.ex.max_violations:
            self.ex.stop = True

    def concretise_inputs(self, extra=None):
        """A concrete assignment of the inputs of this path, small if possible."""
        s = z3.Solver()
        s.set("timeout", self.ex.query_timeout_ms)
        s.add(*self.constraints)
        if extra is not None:
            s.add(extra)
        m = None
        if s.check() == z3.sat:
            m = s.model()
        else:
            return None
        # prefer small integers: helps the replay (file sizes)
        for lim in (1 << 14, 1 << 18, 1 << 21, 1 << 24, 1 << 30, 1 << 36):
            s.push()
            for v in self.inputs.values():
                if z3.is_int(v):
                    s.add(v <= lim)
            if s.check() == z3.sat:
                m = s.model()
                break
            s.pop()
        return self.decode(m)

    def decode(self, m):
        out = dict(self.consts)
        for name, v in self.inputs.items():
            val = m.eval(v, model_completion=True)
            if z3.is_int_value(val):
                out[name] = val.as_long()
            elif z3.is_bool(val):
                out[name] = z3.is_true(val)
            elif z3.is_string_value(val):
                out[name] = z3_unescape(val.as_string())
            elif z3.is_rational_value(val):
                out[name] = [val.numerator_as_long(), val.denominator_as_long()]
            else:
                out[name] = str(val)
        return out

    def concretise(self, term, why):
        """Fallback: a C-level operation needs a machine integer.

        Forks over up to four values and cuts the rest (recorded)."""
        self.st.concretisations += 1
        for _ in range(4):
            if self.pos < len(self.prefix) and self.prefix[self.pos][2] is not None:
                v = self.prefix[self.pos][2]
            else:
                if self.model is None:
                    if self._check() != z3.sat:
                        self.cut("concretise: no model")
                    self.model = self.solver.model()
                v = self.model.eval(term, model_completion=True).as_long()
            cond = z3.simplify(term == v)
            if z3.is_true(cond):
                return v
            if self.branch(cond, tag=v):
                return v
        self.cut("concretisation of a symbolic integer (%s)" % why)

    def reached(self, label):
        self.st.reached[label] = self.st.reached.get(label, 0) + 1


def z3_unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3 : j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


class Explorer:
    """Depth-first exploration of all paths of harness(ctx)."""

    def __init__(
        self,
        budget_s=None,
        fuel=20000,
        max_paths=None,
        query_timeout_ms=20000,
        max_violations=4,
        witnesses=2,
        query_log=None,
    ):
        self.stats = Stats()
        self.work = []
        self.violations = []
        self.witnesses = []
        self.n_witness = witnesses
        self.fuel = fuel
        self.max_paths = max_paths
        self.query_timeout_ms = query_timeout_ms
        self.max_violations = max_violations
        self.deadline = time.time() + budget_s if budget_s else None
        self.timed_out = False
        self.stop = False
        self.query_log = query_log
        self.outcomes = {}
        self.hangs = []  # inputs of paths which did not come to an end
        self.stall_s = 60

    def push(self, prefix):
        self.work.append(prefix)

    def log_query(self, constraints, extra, res):
        if len(self.query_log) < 40:
            s = z3.Solver()
            s.add(*constraints)
            s.add(*extra)
            self.query_log.append((s.to_smt2(), str(res)))

    def _watch(self, state):
        """End a path which uses up CPU time without asking the solver."""
        while not state["done"]:
            time.sleep(1)
            c = state["ctx"]
            if c is None:
                continue
            used = time.process_time() - state["cpu"] - (self.stats.solver_s - state["solver"])
            if used < self.stall_s or state["ctx"] is not c:
                continue
            if c.failed is None:
                c.failed = Cut("stall: more than %d s on one path without a result" % self.stall_s)
            me = threading.get_ident()
            for t in threading.enumerate():
                if t.ident != me and not getattr(t, "sx_watch", False):
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(
                        ctypes.c_ulong(t.ident), ctypes.py_object(Cut)
                    )
            time.sleep(2)

    def _hang(self, ctx, why):
        """The path was given up although it may go on for ever: keep its inputs,
        the real code decides."""
        if len(self.hangs) >= 2:
            return
        if why.startswith(("fuel", "stall")) or (
            why.startswith("time budget") and self.fuel - ctx.fuel > 3000
        ):
            p = ctx.concretise_inputs()
            if p is not None:
                self.hangs.append({"params": p, "why": why})
                if len(self.hangs) >= 2 and self.deadline:
                    self.deadline = min(self.deadline, time.time() + 15)

    def run(self, harness):
        state = {"done": False, "ctx": None, "cpu": 0, "solver": 0}
        t = threading.Thread(target=self._watch, args=(state,), daemon=True)
        t.sx_watch = True
        t.start()
        try:
            return self._run(harness, state)
        finally:
            state["done"] = True

    def _run(self, harness, state):
        global CUR
        self.work = [[]]
        while self.work and not self.stop:
            if self.max_paths and self.stats.paths >= self.max_paths:
                self.stats.cuts["path budget"] = self.stats.cuts.get(
                    "path budget", 0
                ) + len(self.work)
                break
            if self.timed_out or (self.deadline and time.time() > self.deadline):
                self.stats.cuts["time budget"] = (
                    self.stats.cuts.get("time budget", 0) + len(self.work)
                )
                break
            prefix = self.work.pop()
            ctx = Ctx(self, list(prefix))
            CUR = ctx
            self.stats.paths += 1
            finished = False
            cpu0, sol0 = time.process_time(), self.stats.solver_s
            try:
                state.update(cpu=cpu0, solver=sol0, ctx=ctx)
                harness(ctx)
                finished = True
            except Steer:
                pass
            finally:
                state["ctx"] = None
                for fn in ctx.extra.get("cleanup", ()):
                    fn()
                CUR = None
            self.stats.max_cpu = max(
                self.stats.max_cpu, time.process_time() - cpu0 - (self.stats.solver_s - sol0)
            )
            if ctx.failed is not None:
                if isinstance(ctx.failed, Cut):
                    k = str(ctx.failed)
                    self.stats.cuts[k] = self.stats.cuts.get(k, 0) + 1
                    self._hang(ctx, k)
                else:
                    self.stats.infeasible += 1
                continue
            if not finished:
                continue
            self.stats.max_depth = max(self.stats.max_depth, len(ctx.trail))
            label = ctx.extra.get("outcome", "done")
            self.outcomes[label] = self.outcomes.get(label, 0) + 1
            self._witness(ctx)
        return self

    def _witness(self, ctx):
        """Keep a concrete instance of some completed, violation-free paths."""
        if ctx.violations or not self.n_witness:
            return
        label = ctx.extra.get("outcome", "done")
        per = [w for w in self.witnesses if w["outcome"] == label]
        if len(per) >= self.n_witness:
            # reservoir-free thinning: replace deterministically now and then
            if self.stats.paths & (self.stats.paths - 1):
                return
            self.witnesses.remove(per[0])
        p = ctx.concretise_inputs()
        if p is not None:
            self.witnesses.append({"outcome": label, "params": p})
