"""Engine: path exploration, solver access, steering exceptions."""
from __future__ import annotations

import sys
import time
from fractions import Fraction

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import z3  # noqa: E402

z3.set_param("model.completion", False)


class Steer(BaseException):
    """Base of the exceptions that steer exploration (never caught by code under test)."""


class Infeasible(Steer):
    pass


class Budget(Steer):
    """A path ran over its step/branch budget."""


class Hang(Steer):
    """The code under test waits for something that can never arrive (model of a deadlock)."""


class Unsupported(Steer):
    """The models do not cover an operation on symbolic data."""


class StopAll(Steer):
    pass


_CUR: list["Engine"] = []


def eng() -> "Engine":
    return _CUR[-1]


def has_engine() -> bool:
    return bool(_CUR)


class Engine:
    def __init__(
        self,
        *,
        float_mode: str = "exact",
        query_timeout_ms: int = 20000,
        max_branches: int = 4000,
        max_ticks: int = 20000,
        deadline: float | None = None,
    ) -> None:
        self.float_mode = float_mode
        self.branch_timeout_ms = 700 if float_mode == "fp" else None
        self.solver = z3.Solver()
        self.query_timeout_ms = query_timeout_ms
        self.solver.set("timeout", query_timeout_ms)
        self.max_branches = max_branches
        self.max_ticks = max_ticks
        self.deadline = deadline
        # statistics
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.branches = 0
        self.functions: set[str] = set()
        # per path
        self.trace: list = []
        self.prefix: list = []
        self.pos = 0
        self.model = None
        self.fresh_n = 0
        self.ticks = 0
        self.path_state: dict = {}
        self.pending: list = []
        self.concretised = 0
        self.path_notes: list[str] = []

    # ------------------------------------------------------------------ solver
    def check(self, *assumptions) -> z3.CheckSatResult:
        t = time.time()
        if self.deadline and t > self.deadline:
            raise StopAll
        if self.float_mode == "fp":
            r = self._fp_check(assumptions)
            if r != z3.unknown:
                return r
            t = time.time()
        self.queries += 1
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        if r == z3.unknown:
            r = self._fallback(assumptions)
        return r

    def _fp_check(self, assumptions):
        """bit-blasting without incremental state decides floating-point queries much faster"""
        t = time.time()
        s = z3.SolverFor("QF_FP")
        s.set("timeout", self.query_timeout_ms)
        s.add(*self.solver.assertions())
        s.add(*assumptions)
        self.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.solver_s += time.time() - t
        if r == z3.sat:
            self._fb_model = s.model()
        return r

    def holds(self, *conds):
        """Does every input of this path satisfy the conditions?  (False when the solver cannot tell quickly.)"""
        c = z3.simplify(z3.And(*conds))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        st = self.path_state.setdefault("holds", {})
        k = c.get_id()
        if k in st and st[k][1]:
            return True
        # the answer is part of the trace: a timeout must not change the meaning of a path prefix
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
        else:
            t = time.time()
            self.solver.set("timeout", 2000)
            self.queries += 1
            v = int(self.solver.check(z3.Not(c)) == z3.unsat)
            self.solver.set("timeout", self.query_timeout_ms)
            self.solver_s += time.time() - t
            self._push_trace(v)
        st[k] = (c, v)
        if v:
            self.solver.add(c)
        return bool(v)

    def check_abstract(self, *assumptions, conv=True):
        """Floating-point + - * / as uninterpreted (functional) operations: unsat here is unsat."""
        def is_conv(t):
            return conv and t.decl().kind() == z3.Z3_OP_FPA_TO_FP and t.num_args() == 2 and z3.is_bv(t.arg(1))

        ops = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV}
        seen: dict = {}
        funs: dict = {}
        apps = []

        def walk(t):
            k = t.get_id()
            if k in seen:
                return seen[k][1]
            ch = [walk(c) for c in t.children()] if z3.is_app(t) else []
            if z3.is_app(t) and (t.decl().kind() in ops or is_conv(t)):
                v = z3.FreshConst(t.sort(), "fpop")
                apps.append((t.decl().kind(), ch, v))
                r = v
            elif ch:
                r = t.decl()(*ch) if any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())) else t
            else:
                r = t
            seen[k] = (t, r)
            return r

        fs = [walk(z3.simplify(a)) for a in [*self.solver.assertions(), *assumptions]]
        if not apps:
            return z3.unknown
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.query_timeout_ms)
        s.add(*fs)
        for i, (k, a, v) in enumerate(apps):
            for k2, a2, v2 in apps[:i]:
                if k == k2 and all(x.sort() == y.sort() for x, y in zip(a, a2)):
                    s.add(z3.Implies(z3.And(*[x == y for x, y in zip(a, a2)]), v == v2))
            if k == z3.Z3_OP_FPA_DIV and z3.is_fp(a[1]):
                s.add(z3.Implies(a[2] == z3.FPVal(1.0, a[2].sort()), v == a[1]))
                s.add(z3.Implies(z3.And(z3.fpIsZero(a[1]), z3.Not(z3.fpIsZero(a[2])), z3.Not(z3.fpIsNaN(a[2]))), z3.fpIsZero(v)))
        self.queries += 1
        r = s.check()
        self.solver_s += time.time() - t0
        return r

    def feasible(self, *assumptions):
        """check() that gives up early in modes with hard arithmetic: an undecided branch is explored"""
        if self.branch_timeout_ms is None:
            return self.check(*assumptions)
        t = time.time()
        if self.deadline and t > self.deadline:
            raise StopAll
        self.queries += 1
        self.solver.set("timeout", self.branch_timeout_ms)
        r = self.solver.check(*assumptions)
        self.solver.set("timeout", self.query_timeout_ms)
        self.solver_s += time.time() - t
        return r

    _fb_model = None

    def _fallback(self, assumptions):
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.query_timeout_ms)
        s.add(*self.solver.assertions())
        s.add(*assumptions)
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        if r == z3.sat:
            self._fb_model = s.model()
        if r == z3.unknown:
            self.unknown += 1
        return r

    def get_model(self):
        if self._fb_model is not None:
            m, self._fb_model = self._fb_model, None
            return m
        return self.solver.model()

    def add(self, c) -> None:
        """Add a path constraint that is known to be satisfiable together with the path (axiom)."""
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def fresh(self, base: str) -> str:
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def tick(self) -> None:
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise Budget("loop iterations")

    # ------------------------------------------------------------------ branching
    def branch(self, cond) -> bool:
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.solver.add(cond if v else z3.Not(cond))
            self.model = None
            return v
        self.branches += 1
        if self.branches_here() > self.max_branches:
            raise Budget("branches")
        side = None
        if self.model is None:
            r = self.feasible()
            if r == z3.unsat:
                raise Infeasible
            if r == z3.sat:
                self.model = self.get_model()
        if self.model is not None:
            e = self.model.eval(cond, model_completion=True)
            if z3.is_true(e):
                side = True
            elif z3.is_false(e):
                side = False
        if side is None:
            r = self.feasible(cond)
            if r == z3.unsat:
                side = False
                self.solver.add(z3.Not(cond))
                self._push_trace(False)
                return False
            side = True
            self.model = self.get_model() if r == z3.sat else None
        other = z3.Not(cond) if side else cond
        r = self.feasible(other)
        if r != z3.unsat:
            self.pending.append(self.trace[:] + [not side])
        elif self._fb_model is not None:
            self._fb_model = None
        self._fb_model = None
        self._push_trace(side)
        if r != z3.unsat:
            self.solver.add(cond if side else z3.Not(cond))
        return side

    def branches_here(self) -> int:
        return len(self.trace)

    def _push_trace(self, v) -> None:
        self.trace.append(v)
        self.pos = len(self.trace)

    def choose(self, n: int) -> int:
        """Nondeterministic choice among n alternatives (all explored)."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            return v
        base = self.trace[:]
        for k in range(n - 1, 0, -1):
            self.pending.append(base + [k])
        self.branches += 1
        self._push_trace(0)
        return 0

    def concretize(self, term, limit: int = 400):
        """Case split a z3 term over all of its feasible values; returns a z3 value."""
        term = z3.simplify(term)
        if is_value(term):
            return term
        self.concretised += 1
        for _ in range(limit):
            if self.pos < len(self.prefix):
                v, take = self.prefix[self.pos]
                self.pos += 1
                self.trace.append((v, take))
                val = _mkval(term, v)
                if take:
                    self.solver.add(term == val)
                    self.model = None
                    return val
                self.solver.add(term != val)
                self.model = None
                continue
            self.branches += 1
            if self.model is None:
                r = self.check()
                if r == z3.unsat:
                    raise Infeasible
                if r == z3.unknown:
                    raise Unsupported("concretize: unknown")
                self.model = self.get_model()
            val = self.model.eval(term, model_completion=True)
            if not is_value(val):
                val = z3.simplify(val)
                if not is_value(val):
                    raise Unsupported(f"concretize: {val}")
            key = _valkey(val)
            r = self.check(term != val)
            self._fb_model = None
            if r != z3.unsat:
                self.pending.append(self.trace[:] + [(key, False)])
            self._push_trace((key, True))
            self.solver.add(term == val)
            return val
        raise Budget("concretize")

    # ------------------------------------------------------------------ assume / check
    def assume(self, cond) -> None:
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible
        self.solver.add(cond)
        if self.pos < len(self.prefix):
            self.model = None
            return
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        r = self.feasible()
        if r == z3.unsat:
            raise Infeasible
        self.model = self.get_model() if r == z3.sat else None

    def ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible
            self.model = self.get_model() if r == z3.sat else None
        return self.model

    # ------------------------------------------------------------------ exploration
    def explore(self, fn, on_end, prefixes=None, max_paths: int = 10**9):
        """Run fn() on every feasible path; on_end(engine, outcome, value) after each one."""
        stack = [list(p) for p in (prefixes if prefixes is not None else [[]])]
        n = 0
        _CUR.append(self)
        try:
            while stack:
                if n >= max_paths or (self.deadline and time.time() > self.deadline):
                    return n, stack
                prefix = stack.pop()
                self.solver.push()
                self.trace = []
                self.prefix = prefix
                self.pos = 0
                self.model = None
                self._fb_model = None
                self.fresh_n = 0
                self.ticks = 0
                self.path_state = {}
                self.pending = []
                self.path_notes = []
                outcome, val = "ok", None
                try:
                    try:
                        val = fn()
                    except Infeasible:
                        outcome = "infeasible"
                    except StopAll:
                        stack.append(prefix)
                        return n, stack
                    except Budget as e:
                        outcome, val = "budget", str(e)
                    except Hang as e:
                        outcome, val = "hang", str(e)
                    except Unsupported as e:
                        outcome, val = "unsupported", str(e)
                        self.last_tb = e.__traceback__
                    except Steer:
                        raise
                    except BaseException as e:  # noqa: BLE001
                        if isinstance(e, (KeyboardInterrupt, SystemExit)):
                            raise
                        outcome, val = "exception", e
                    if outcome != "infeasible":
                        n += 1
                    try:
                        stop = on_end(self, outcome, val)
                    except Infeasible:
                        stop = False
                    except StopAll:
                        stack.append(prefix)
                        return n, stack
                finally:
                    pending = self.pending[:]
                    if "sched" in self.path_state:
                        self.path_state["sched"].kill()
                    self.solver.pop()
                stack.extend(pending)
                if stop:
                    return n, stack
            return n, []
        finally:
            _CUR.pop()


def is_value(t) -> bool:
    return (
        z3.is_int_value(t)
        or z3.is_rational_value(t)
        or z3.is_bv_value(t)
        or z3.is_true(t)
        or z3.is_false(t)
        or z3.is_fp_value(t)
        or z3.is_string_value(t)
    )


def _valkey(val):
    if z3.is_int_value(val) or z3.is_bv_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    raise Unsupported(f"concretize value {val}")


def _mkval(term, v):
    s = term.sort()
    if s == z3.IntSort():
        return z3.IntVal(v)
    if s == z3.RealSort():
        return z3.Q(v.numerator, v.denominator)
    if s == z3.BoolSort():
        return z3.BoolVal(v)
    return z3.BitVecVal(v, s.size())


def pyval(val):
    """z3 value -> python value"""
    if val is None or isinstance(val, (int, float, str, bytes, bool)):
        return val
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_bv_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    if z3.is_string_value(val):
        return val.as_string()
    if z3.is_fp_value(val):
        b = z3.simplify(z3.fpToIEEEBV(val))
        import struct

        if z3.is_bv_value(b):
            return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0]
        return float("nan")
    raise Unsupported(f"pyval {val!r}")
