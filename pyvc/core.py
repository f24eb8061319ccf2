"""
pyvc core: path exploration, obligations, solver access and the scalar symbolic values.

The engine executes the *real* functions of /repo (see transform.py for the mechanical per-run
extraction) on symbolic values.  A branch on a symbolic condition forks the path; unbounded loops are
cut by loop contracts (see loops.py); every obligation is "path condition => goal" and is discharged
by z3 (cvc5 as second back end).
"""
from __future__ import annotations
import os
import sys
import time
import subprocess
import traceback
from fractions import Fraction
from typing import Any, Callable, Dict, List, Optional

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param("smt.random_seed", 1)


class RestartUnit(BaseException):
    """a candidate invariant was dropped: explore the unit again without it"""


class PathEnd(BaseException):
    """path is finished (loop body of an arbitrary iteration done, or assumption contradictory)"""


TRACE = os.environ.get("PYVC_TRACE")


class Unsupported(BaseException):
    """construct outside the engine's reach: the unit is undecided (never a violation)"""


class ProofFailed(BaseException):
    """obligation failed; stop this path"""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}


class Obligation:
    __slots__ = ("unit", "label", "status", "count", "model", "reason", "backend", "kind")

    def __init__(self, unit, label, kind):
        self.unit, self.label, self.kind = unit, label, kind
        self.status = "discharged"
        self.count = 0
        self.model = None
        self.reason = ""
        self.backend = set()


class Session:
    def __init__(self):
        self.active = False
        self.obls: Dict[Any, Obligation] = {}
        self.units: Dict[str, dict] = {}
        self.stats = Stats()
        self.unit = None
        self.evaluating = None  # model when evaluating
        self.inst_depth = 0
        self.max_inst = 6
        self.feas_ms = 1500
        self.prove_ms = 10000
        self.loop_contracts = []
        self.unroll = 0
        self.while_unroll = 0
        self.time_limit = 240.0
        self.assumptions = []
        self.reset_path([])

    # -- per path state
    def reset_path(self, trail):
        self.trail = trail  # list of [choice, has_alternative]
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.pc = []
        self.fresh_n = {}
        self.inputs = {}
        self.tick = 0
        self.writes = []
        self.g = Ghost()
        self.divcache = {}
        self.powlist = []
        self.approx = []  # names of over-approximations on this path (loop cuts, havocs)
        self.cntfacts = set()
        self.attr_log = []
        self.frozen = []  # objects handed out to the consumer, must not be modified any more
        self.path_loops = []
        self.filters, self.sorts = [], []  # sequences made on this path (for instantiation, see lib.touch)

    def now(self):
        self.tick += 1
        return self.tick

    def fresh_name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return "%s!%d" % (base, n) if n else base

    def int(self, base="i", lo=None, hi=None):
        v = z3.Int(self.fresh_name(base))
        if lo is not None:
            self.assume(v >= term(lo))
        if hi is not None:
            self.assume(v <= term(hi))
        return SymNum(v)

    def real(self, base="r"):
        return SymNum(z3.Real(self.fresh_name(base)))

    def bool(self, base="b"):
        return SymBool(z3.Bool(self.fresh_name(base)))

    def func(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    # -- solver
    def _check(self, *extra, ms=None):
        t = time.time()
        self.solver.set("timeout", ms or self.feas_ms)
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if TRACE:
            import sys

            f = sys._getframe(1)
            where = []
            while f and len(where) < 3:
                fn = f.f_code.co_filename
                if "/returnn/" in fn or "/props/" in fn:
                    where.append("%s:%d" % (fn.rsplit("/", 1)[-1], f.f_lineno))
                f = f.f_back
            print("CHK %.2fs pc=%d %s %s" % (time.time() - t, len(self.pc), r, " < ".join(where)), flush=True)
        return r

    def assume(self, cond):
        if self.evaluating is not None:
            return
        c = bterm(cond)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(z3.simplify(c)):
            raise PathEnd

    def decide(self, cond) -> bool:
        c = bterm(cond)
        if self.evaluating is not None:
            return z3.is_true(self.evaluating.eval(c, model_completion=True))
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.active:
            raise Unsupported("symbolic condition outside session")
        if self.pos < len(self.trail):
            ch = self.trail[self.pos][0]
            self.pos += 1
            cc = c if ch else z3.Not(c)
            self.pc.append(cc)
            self.solver.add(cc)
            return ch
        rt = self._check(c)
        if rt == z3.unsat:
            ch, alt = False, False
        else:
            rf = self._check(z3.Not(c))
            if rf == z3.unsat:
                ch, alt = True, False
            else:
                ch, alt = True, True
        self.trail.append([ch, alt])
        self.pos += 1
        cc = c if ch else z3.Not(c)
        self.pc.append(cc)
        self.solver.add(cc)
        return ch

    def entails(self, cond) -> bool:
        """query: does cond hold on this path? (guides a contract; no obligation, no branch)"""
        c = z3.simplify(bterm(cond))
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if self.evaluating is not None:
            return z3.is_true(self.evaluating.eval(c, model_completion=True))
        return self._check(z3.Not(c), ms=self.prove_ms) == z3.unsat

    def choose(self, n, label="choice") -> int:
        """nondeterministic concrete choice 0..n-1 (explores all)"""
        v = z3.Int(self.fresh_name("ch_" + label))
        self.solver.add(v >= 0, v < n)
        self.pc += [v >= 0, v < n]
        for k in range(n - 1):
            if self.decide(v == k):
                return k
        return n - 1

    def unique_value(self, t):
        """python int if t has exactly one value under pc, else None"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.evaluating is not None:
            v = self.evaluating.eval(t, model_completion=True)
            return v.as_long()
        if self._check() != z3.sat:
            return None
        v = self.solver.model().eval(t, model_completion=True)
        if not z3.is_int_value(v):
            return None
        if self._check(t != v) == z3.unsat:
            return v.as_long()
        return None

    # -- obligations
    def prove(self, cond, label, kind="post", fatal=True) -> bool:
        if self.evaluating is not None:
            return True
        if callable(cond) and not isinstance(cond, (SymBool, z3.ExprRef)):
            cond = cond()
        c = bterm(cond)
        key = (self.unit, label)
        ob = self.obls.get(key)
        if ob is None:
            ob = self.obls[key] = Obligation(self.unit, label, kind)
        ob.count += 1
        st, backend, model, reason = self._prove(c)
        ob.backend.add(backend)
        if st == "unsat":
            if not (z3.is_true(c)):
                self.assume(c)
            return True
        if st == "sat":
            if ob.status != "failed":
                ob.status = "failed"
                ob.model = self._concretize(c)
                ob.reason = "counter-model on a path with approximations %r; goal %s; model %s" % (
                    self.approx,
                    str(c)[:600],
                    str(model)[:3000],
                )
            if fatal:
                raise ProofFailed(label)
            return False
        if ob.status == "discharged":
            ob.status = "unknown"
            ob.reason = reason
        # continue under the assumption that it holds (the obligation stays undischarged)
        self.assume(c)
        return False

    def _prove(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return "unsat", "simplifier", None, ""
        neg = z3.Not(c)
        r = self._check(neg, ms=self.prove_ms)
        if r == z3.unsat:
            return "unsat", "z3", None, ""
        if r == z3.sat:
            return "sat", "z3", self.solver.model(), ""
        reason = "z3: " + self.solver.reason_unknown()
        # other strategies
        t0 = time.time()
        for tac in ("qfnia", "nlsat-ish"):
            try:
                if tac == "qfnia":
                    s = z3.Tactic("qfnia").solver()
                else:
                    s = z3.SolverFor("QF_UFNIA")
                s.set("timeout", self.prove_ms)
                s.add(*self.pc)
                s.add(neg)
                r = s.check()
                self.stats.queries += 1
                if r == z3.unsat:
                    self.stats.solver_s += time.time() - t0
                    return "unsat", "z3/" + tac, None, ""
                if r == z3.sat:
                    self.stats.solver_s += time.time() - t0
                    return "sat", "z3/" + tac, s.model(), ""
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        s.add(*self.pc)
        s.add(neg)
        r = run_cvc5(s.to_smt2(), self.prove_ms)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == "unsat":
            return "unsat", "cvc5", None, ""
        return "unknown", "none", None, reason + "; cvc5: " + r

    def _concretize(self, goal):
        """try to get a small model and evaluate the registered inputs in it"""
        ints = []
        for v in self.inputs.values():
            _collect_ints(v, ints)
        model = None
        for bound in (6, 30, 1000, None):
            self.solver.push()
            try:
                self.solver.add(z3.Not(goal))
                if bound is not None:
                    for t in ints:
                        self.solver.add(t <= bound, t >= -bound)
                if self._check(ms=self.prove_ms) == z3.sat:
                    model = self.solver.model()
                    break
            finally:
                self.solver.pop()
        if model is None:
            return None
        self.evaluating = model
        try:
            return {k: ev(v) for k, v in self.inputs.items()}
        except (Unsupported, Exception) as exc:  # noqa
            return {"__error__": repr(exc)}
        finally:
            self.evaluating = None

    # -- exploration
    def explore(self, unit, fn, loops=(), max_paths=600, unroll=0, time_limit=None, expect_paths=1):
        """run fn on every feasible path; fn builds its symbolic inputs, calls the real code, proves the post"""
        self.unit = unit
        self.active = True
        info = self.units[unit] = {
            "paths": 0,
            "completed": 0,
            "status": "ok",
            "reason": "",
            "approximations": set(),
            "cuts": set(),
        }
        self.loop_contracts = list(loops)
        self.dropped = set()  # candidate invariants found not to be inductive (Houdini)
        self.loops_passed = set()
        self.inv_assumed, self.inv_proved, self.inv_ran = set(), set(), set()
        self.unroll = unroll
        t0 = time.time()
        q0, s0 = self.stats.queries, self.stats.solver_s
        trail: List[Any] = []
        limit = time_limit or self.time_limit
        try:
            while True:
                self.reset_path(trail)
                info["paths"] += 1
                try:
                    self._run_path(fn, info)
                except RestartUnit:
                    for k in [k for k in self.obls if k[0] == unit]:
                        del self.obls[k]
                    info.update(paths=0, completed=0, status="ok", reason="", approximations=set(), cuts=set())
                    info["restarts"] = info.get("restarts", 0) + 1
                    trail = []
                    self.loops_passed = set()
                    self.inv_assumed, self.inv_proved, self.inv_ran = set(), set(), set()
                    if time.time() - t0 > limit or info["restarts"] > 200:
                        info["status"] = "undecided"
                        info["reason"] = "candidate invariants: time limit"
                        break
                    continue
                info["approximations"].update(self.approx)
                info["cuts"].update(self.path_loops)
                while trail and not trail[-1][1]:
                    trail.pop()
                if not trail:
                    break
                trail[-1] = [not trail[-1][0], False]
                if info["paths"] >= max_paths:
                    info["status"] = "undecided"
                    info["reason"] = "path limit"
                    break
                if time.time() - t0 > limit:
                    info["status"] = "undecided"
                    info["reason"] = "time limit"
                    break
        finally:
            self.active = False
            self.loop_contracts = []
            info["wall_s"] = round(time.time() - t0, 2)
            info["queries"] = self.stats.queries - q0
            info["solver_s"] = round(self.stats.solver_s - s0, 2)
            n = sum(o.count for (u, _), o in self.obls.items() if u == unit)
            info["obligations"] = n
            if n == 0 and info["status"] == "ok":
                info["status"] = "undecided"
                info["reason"] = "vacuous: no obligation was generated"
            vac = sorted(set(info["cuts"]) - self.loops_passed)
            if vac and info["status"] == "ok" and not any(o.status == "failed" for (u, _), o in self.obls.items() if u == unit):
                info["status"] = "undecided"
                info["reason"] = "vacuous loop invariant: " + ", ".join(vac)
            if info["status"] == "ok" and not any(o.status == "failed" for (u, _), o in self.obls.items() if u == unit):
                un = sorted(k for k in self.inv_assumed - self.inv_proved if k[:3] in self.inv_ran)
                if un:
                    info["status"] = "undecided"
                    info["reason"] = "assumed in a loop but never proved: " + ", ".join("%s loop %s: %s" % (k[0], k[1], k[-1]) for k in un)
                elif info["completed"] == 0:
                    info["status"] = "undecided"
                    info["reason"] = "vacuous: no path reaches the end of the unit"
            info["approximations"] = sorted(info["approximations"])
            info["cuts"] = sorted(info["cuts"])
        return info

    def _undecided(self, info, reason):
        if not self._path_infeasible():
            info["status"] = "undecided"
            info["reason"] = reason

    def _run_path(self, fn, info):
        try:
            fn()
            info["completed"] += 1
        except PathEnd:
            info["completed"] += 1
        except ProofFailed:
            pass
        except Unsupported as exc:
            self._undecided(info, "unsupported: %s" % (exc,) + _tb_where(exc))
        except RecursionError as exc:
            self._undecided(info, "recursion %r" % exc)
        except Exception as exc:
            where = _tb_where(exc)
            fr = traceback.extract_tb(exc.__traceback__)
            limit = (AttributeError, TypeError, NameError, ImportError, NotImplementedError, z3.Z3Exception)
            if isinstance(exc, limit) or "/props/" in fr[-1].filename:
                # harness/engine limit; the run-time contract on the real code covers it. undecided, no verdict
                self._undecided(
                    info,
                    "exception outside the modelled subset: %s: %s%s [%s:%s]"
                    % (type(exc).__name__, exc, where, fr[-1].filename, fr[-1].lineno),
                )
                return
            label = "no uncaught %s under the precondition" % type(exc).__name__
            try:
                self.prove(z3.BoolVal(False), label, kind="safety")
            except ProofFailed:
                ob = self.obls[(self.unit, label)]
                if "raised:" not in ob.reason:
                    ob.reason = "raised: %s: %s %s; %s" % (type(exc).__name__, str(exc)[:300], where, ob.reason)
            except PathEnd:
                pass

    def _path_infeasible(self):
        return self._check(ms=self.prove_ms) == z3.unsat

    def reachable(self, label="precondition reachable"):
        """vacuity guard: the current path condition must be satisfiable"""
        if self.evaluating is not None:
            return
        r = self._check(ms=self.prove_ms)
        if r == z3.unsat:
            raise PathEnd
        self.units[self.unit].setdefault("reachable", set()).add(label)


class Ghost:
    pass


def _tb_where(exc):
    tb = exc.__traceback__
    frames = []
    for fr in traceback.extract_tb(tb):
        if "/pyvc/" in fr.filename:
            continue
        frames.append("%s:%s(%s)" % (fr.filename.replace("/repo/", ""), fr.lineno, fr.name))
    return " at " + " < ".join(reversed(frames[-4:]))


def run_cvc5(smt2, ms):
    try:
        p = subprocess.run(
            ["cvc5", "--lang=smt2", "--tlimit=%d" % ms, "--nl-ext-tplanes", "-"],
            input="(set-logic ALL)\n" + smt2,
            capture_output=True,
            text=True,
            timeout=ms / 1000 + 5,
        )
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "no output"
        return out
    except Exception as exc:
        return "error %s" % type(exc).__name__


S = Session()


# ---------------------------------------------------------------- scalars


def term(v):
    """z3 arithmetic term of a number"""
    if isinstance(v, SymNum):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("inf/nan in arithmetic")
        fr = Fraction(v)
        return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))
    if isinstance(v, Fraction):
        return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
    if isinstance(v, z3.ExprRef):
        return v
    try:
        import numpy

        if isinstance(v, numpy.integer):
            return z3.IntVal(int(v))
        if isinstance(v, numpy.floating):
            return term(float(v))
    except ImportError:
        pass
    if type(v).__name__ == "SymAtom":
        return v.t
    raise Unsupported("not a number: %s" % type(v).__name__)


def bterm(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SymNum):
        return v.t != 0
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if v is None:
        return z3.BoolVal(False)
    import numpy

    if isinstance(v, numpy.bool_):
        return z3.BoolVal(bool(v))
    raise Unsupported("not a bool: %r" % type(v))


def is_sym(v):
    return isinstance(v, Sym)


class Sym:
    """base class of all symbolic values"""

    __slots__ = ()


def _isinf(o):
    return isinstance(o, float) and (o == float("inf") or o == float("-inf"))


def _num(o):
    import numpy

    return (
        isinstance(o, (SymNum, SymBool, int, float, Fraction, numpy.integer, numpy.floating))
        or (isinstance(o, z3.ArithRef))
    )


def mknum(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymNum(t)


def _coerce(a, b):
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        if b.sort() == z3.IntSort():
            b = z3.ToReal(b)
    return a, b


class SymNum(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    # arithmetic
    def _bin(self, o, f, rev=False):
        if not _num(o):
            return NotImplemented
        a, b = _coerce(self.t, term(o))
        if rev:
            a, b = b, a
        return SymNum(z3.simplify(f(a, b)))

    def __add__(self, o):
        if _isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if _isinf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _isinf(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if hasattr(o, "_pv_repeat"):
            return o._pv_repeat(self)
        if isinstance(o, (list, tuple, str)):
            from . import seqs

            return seqs.repeat(o, self)
        if _isinf(o):
            raise Unsupported("inf * symbolic")
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return SymNum(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        if not _num(o):
            return NotImplemented
        return _truediv(self, o)

    def __rtruediv__(self, o):
        return _truediv(o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o)[0]

    def __rfloordiv__(self, o):
        return _floordiv(o, self)[0]

    def __mod__(self, o):
        return _floordiv(self, o)[1]

    def __rmod__(self, o):
        return _floordiv(o, self)[1]

    def __divmod__(self, o):
        return _floordiv(self, o)

    def __rdivmod__(self, o):
        return _floordiv(o, self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return _pow(self, o)

    def __rpow__(self, o):
        return _pow(o, self)

    # comparison
    def _cmp(self, o, f, inf_pos):
        if isinstance(o, float) and _isinf(o):
            return (o > 0) == inf_pos if inf_pos is not None else False
        if isinstance(o, float) and o != o:
            return False
        if not _num(o):
            return NotImplemented
        a, b = _coerce(self.t, term(o))
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False)

    def __eq__(self, o):
        if not _num(o):
            return False
        return self._cmp(o, lambda a, b: a == b, None)

    def __ne__(self, o):
        if not _num(o):
            return True
        if isinstance(o, float) and (_isinf(o) or o != o):
            return True
        return self._cmp(o, lambda a, b: a != b, None)

    def __hash__(self):
        v = S.unique_value(self.t) if self.is_int else None
        if v is not None:
            return hash(v)
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return S.decide(self.t != 0)

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        v = S.unique_value(self.t)
        if v is None:
            raise Unsupported("concrete index needed from a symbolic int")
        return v

    def __int__(self):
        if self.is_int:
            return self.__index__()
        raise Unsupported("int() of symbolic real natively")

    def __float__(self):
        raise Unsupported("float() of a symbolic number natively")

    def __round__(self, n=None):
        raise Unsupported("round of symbolic number")

    def bit_length(self):
        return bit_length(self.t)

    def __rlshift__(self, o):
        return mknum(term(o) * pow2(self.t))

    def __lshift__(self, o):
        return mknum(self.t * pow2(term(o)))

    def is_integer(self):
        return True if self.is_int else mkbool(z3.IsInt(self.t))

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def __repr__(self):
        return "<sym %s>" % str(self.t)[:60]

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self


def _truediv(a, b):
    if _isinf(b):
        return 0.0
    ta, tb = term(a), term(b)
    if S.decide(tb == 0):
        raise ZeroDivisionError("division by zero")
    if ta.sort() == z3.IntSort():
        ta = z3.ToReal(ta)
    if tb.sort() == z3.IntSort():
        tb = z3.ToReal(tb)
    return SymNum(z3.simplify(ta / tb))


def _floordiv(a, b):
    if not _num(a) or not _num(b):
        raise Unsupported("floordiv operands")
    ta, tb = term(a), term(b)
    if ta.sort() != z3.IntSort() or tb.sort() != z3.IntSort():
        # python float // and % -- real semantics
        ta, tb = _coerce(ta, tb)
        if S.decide(tb == 0):
            raise ZeroDivisionError("float modulo")
        q = z3.ToReal(z3.ToInt(ta / tb))
        return SymNum(z3.simplify(q)), SymNum(z3.simplify(ta - q * tb))
    ta, tb = z3.simplify(ta), z3.simplify(tb)
    if z3.is_int_value(tb):
        d = tb.as_long()
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if d > 0:
            return mknum_(ta / tb), mknum_(ta % tb)
        q = z3.simplify((-ta) / z3.IntVal(-d))
        return mknum_(q), mknum_(ta - q * tb)
    key = (ta.get_id(), tb.get_id())
    hit = S.divcache.get(key)
    if hit is not None and S.evaluating is None:
        return hit[0], hit[1]
    if S.evaluating is not None:
        av = S.evaluating.eval(ta, model_completion=True).as_long()
        bv = S.evaluating.eval(tb, model_completion=True).as_long()
        if bv == 0:
            raise ZeroDivisionError
        return av // bv, av % bv
    if S.decide(tb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    q, r = S.int("q"), S.int("r")
    S.assume(ta == tb * q.t + r.t)
    if S.decide(tb > 0):
        S.assume(z3.And(r.t >= 0, r.t < tb))
        # helpful consequences for the nonlinear case
        S.assume(z3.Implies(ta >= 0, q.t >= 0))
        S.assume(z3.Implies(ta >= 0, q.t <= ta))
        S.assume(z3.Implies(z3.And(ta >= 0, ta < tb), q.t == 0))
    else:
        S.assume(z3.And(r.t <= 0, r.t > tb))
    S.divcache[key] = (q, r, ta, tb)
    return q, r


def mknum_(t):
    t = z3.simplify(t)
    return SymNum(t)


_POW = z3.Function("pow_real", z3.RealSort(), z3.RealSort(), z3.RealSort())


_POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def pow2(t):
    """2**t for t >= 0 (uninterpreted, with its recursion instantiated around t)"""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return z3.IntVal(2 ** t.as_long())
    r = _POW2(t)
    S.assume(z3.Implies(t >= 0, r >= 1))
    S.assume(z3.Implies(t == 0, r == 1))
    S.assume(z3.Implies(t >= 1, z3.And(r == 2 * _POW2(t - 1), _POW2(t - 1) >= 1, r >= t + 1)))
    return r


def bit_length(t):
    """the b with 2**(b-1) <= |t| < 2**b"""
    b = S.int("bits", lo=0)
    a = z3.If(t < 0, -t, t)
    S.assume(z3.Implies(t == 0, b.t == 0))
    S.assume(z3.Implies(t != 0, z3.And(b.t >= 1, pow2(b.t - 1) <= a, a < pow2(b.t))))
    return b


def _pow(a, b):
    if isinstance(a, int) and not isinstance(a, bool) and a == 2 and isinstance(b, SymNum) and b.is_int:
        if S.decide(b.t >= 0):
            return SymNum(pow2(b.t))
    ta, tb = term(a), term(b)
    if ta.sort() == z3.IntSort():
        ta = z3.ToReal(ta)
    if tb.sort() == z3.IntSort():
        tb = z3.ToReal(tb)
    r = _POW(ta, tb)
    S.assume(z3.Implies(ta > 0, r > 0))
    S.assume(z3.Implies(z3.And(ta >= 0, tb > 0), r >= 0))
    for a2, b2, r2 in [x for x in S.powlist if x[1].eq(tb)]:  # monotonic in the base
        S.assume(z3.Implies(z3.And(tb > 0, a2 >= 0, a2 <= ta), r2 <= r))
        S.assume(z3.Implies(z3.And(tb > 0, ta >= 0, ta <= a2), r <= r2))
    S.powlist.append((ta, tb, r))
    S.assume(z3.Implies(tb == 0, r == 1))
    S.assume(z3.Implies(tb == 1, r == ta))
    S.assume(z3.Implies(z3.And(ta > 0, ta <= 1, tb >= 0), r <= 1))
    return SymNum(r)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return S.decide(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(self.t != bterm(o))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == bterm(o))
        if _num(o):
            return SymNum(term(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return SymNum(term(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SymNum(term(self)) - o

    def __rsub__(self, o):
        return o - SymNum(term(self))

    def __mul__(self, o):
        return SymNum(term(self)) * o

    __rmul__ = __mul__

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __repr__(self):
        return "<symbool %s>" % str(self.t)[:60]

    def __format__(self, spec):
        return repr(self)


class SymAtom(Sym):
    """opaque hash/eq-only value (a tag, a file name, a data item); compared by an integer identity"""

    __slots__ = ("t", "kind")

    def __init__(self, t, kind="str"):
        self.t = t
        self.kind = kind

    def __eq__(self, o):
        if isinstance(o, SymAtom):
            return mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        if isinstance(o, SymAtom):
            return mkbool(self.t != o.t)
        return True

    def __hash__(self):
        raise Unsupported("hash of symbolic atom")

    def __bool__(self):
        return True

    def __repr__(self):
        return "<atom %s>" % str(self.t)[:60]

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self


class Undef(Sym):
    """value of a variable that is not known after a cut loop"""

    def __init__(self, name):
        self.name = name

    def _no(self, *a, **k):
        raise Unsupported("value of %r is not covered by the loop contract" % self.name)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __contains__ = __index__ = __hash__ = _no
    __call__ = _no

    def __eq__(self, o):
        self._no()

    def __ne__(self, o):
        self._no()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._no()


def And(*a):
    return mkbool(z3.And(*[bterm(x) for x in a]))


def Or(*a):
    return mkbool(z3.Or(*[bterm(x) for x in a]))


def Not(a):
    return mkbool(z3.Not(bterm(a)))


def Implies(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def If(c, a, b):
    c = z3.simplify(bterm(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    ta, tb = _coerce(term(a), term(b))
    return SymNum(z3.If(c, ta, tb))


def Iff(a, b):
    return mkbool(bterm(a) == bterm(b))


def Min(a, b):
    return If(lt(b, a), b, a)


def Max(a, b):
    return If(lt(a, b), b, a)


def _is_obj(a):
    return not isinstance(a, (int, float, tuple, list, str, type(None), z3.ExprRef)) and not isinstance(a, Sym)


def lt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        r = mkbool(z3.BoolVal(len(a) < len(b)))
        for x, y in reversed(list(zip(a, b))):
            r = Or(lt(x, y), And(eq(x, y), r))
        return r
    if hasattr(a, "pieces") or hasattr(b, "pieces") or _is_obj(a) and _is_obj(b):
        return S.bool("strlt")  # order of symbolic strings and of objects: not interpreted
    a, b = _coerce(term(a), term(b))
    return mkbool(a < b)


def le(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return Not(lt(b, a))
    a, b = _coerce(term(a), term(b))
    return mkbool(a <= b)


def eq(a, b):
    """semantic equality as SymBool (no fork)"""
    if isinstance(a, (SymAtom,)) or isinstance(b, SymAtom):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And(len(a) == len(b), *[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str) or hasattr(a, "pieces") or hasattr(b, "pieces"):
        return mkbool(bterm(a == b))
    if _is_obj(a) and _is_obj(b):
        return mkbool(z3.BoolVal(True)) if a is b else S.bool("objeq")
    a, b = _coerce(term(a), term(b))
    return mkbool(a == b)


# ------------------------------------------------------------ evaluation in a model


def _collect_ints(v, out, depth=0):
    if depth > 3:
        return
    if isinstance(v, SymNum):
        out.append(v.t)
    elif isinstance(v, (list, tuple)):
        for x in v[:50]:
            _collect_ints(x, out, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            _collect_ints(x, out, depth + 1)
    elif hasattr(v, "_pv_len"):
        t = v._pv_len()
        if not isinstance(t, int):
            out.append(term(t))


def ev(v, lim=2000):
    m = S.evaluating
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.t, model_completion=True))
    if isinstance(v, SymNum):
        r = m.eval(v.t, model_completion=True)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_rational_value(r):
            return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
        if z3.is_algebraic_value(r):
            r = r.approx(20)
            return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
        raise Unsupported("cannot evaluate")
    if isinstance(v, SymAtom):
        return "atom%s" % m.eval(v.t, model_completion=True)
    if isinstance(v, dict):
        return {str(k): ev(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [ev(x) for x in v]
    if hasattr(v, "_pv_eval"):
        return v._pv_eval(lim)
    if callable(v):
        return ev(v())
    return repr(v)
