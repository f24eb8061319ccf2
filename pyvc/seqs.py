"""
Symbolic sequences and containers.

``Seq`` is an immutable mathematical sequence: length term, element function, and optionally an
occurrence count  cnt(e, i) = #{ j < i : seq[j] == e }  for int/atom sequences.
``PList`` is Python's mutable list (or an immutable tuple/range or 1-d numpy array view) over a Seq.
"""
from __future__ import annotations
import z3
from .core import (
    S, Sym, SymNum, SymBool, SymAtom, Unsupported, PathEnd, term, bterm, mkbool, mknum, And, Or, Not, If, Implies, eq,
    lt, le, ev,
)


def _t(x):
    return term(x)


def _simp(t):
    return z3.simplify(t) if isinstance(t, z3.ExprRef) else t


def as_int(t):
    """z3 int term -> python int if literal else SymNum"""
    return mknum(t)


class Seq:
    n = None  # z3 int term

    def at(self, i):
        raise NotImplementedError

    def cnt(self, e, i):
        raise Unsupported("occurrence count of %s" % type(self).__name__)

    def total(self, e):
        return self.cnt(e, self.n)

    def psum(self, i):
        raise Unsupported("prefix sum of %s" % type(self).__name__)

    def conc_len(self):
        t = z3.simplify(self.n)
        return t.as_long() if z3.is_int_value(t) else None


class Conc(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = z3.IntVal(len(self.items))

    def at(self, i):
        i = _simp(_t(i))
        if z3.is_int_value(i):
            return self.items[i.as_long()]
        # symbolic index into a concrete list
        for k in range(len(self.items) - 1):
            if S.decide(i == k):
                return self.items[k]
        return self.items[-1]

    def cnt(self, e, i):
        r = z3.IntVal(0)
        for k, x in enumerate(self.items):
            r = r + z3.If(z3.And(k < _t(i), bterm(eq(x, e))), z3.IntVal(1), z3.IntVal(0))
        return z3.simplify(r)

    def psum(self, i):
        i = _simp(_t(i))
        r = z3.IntVal(0)
        for k, x in enumerate(self.items):
            r = r + z3.If(k < i, _t(x), z3.IntVal(0))
        return z3.simplify(r)


class Range(Seq):
    def __init__(self, start, stop, step=1):
        self.start, self.step = _t(start), step
        stop = _t(stop)
        if isinstance(step, SymNum):
            step = S.unique_value(step.t)
            self.step = step
        if step is None:
            raise Unsupported("symbolic range step")
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        d = (stop - self.start) if step > 0 else (self.start - stop)
        a = abs(step)
        self.n = z3.simplify(z3.If(d > 0, (d + (a - 1)) / a if a > 1 else d, z3.IntVal(0)))
        if S.active and S.evaluating is None and not z3.is_int_value(self.n):
            # resolve the If now, keeps terms small
            if a == 1:
                self.n = z3.simplify(d) if S.decide(d >= 0) else z3.IntVal(0)

    def at(self, i):
        return as_int(self.start + self.step * _t(i))

    def cnt(self, e, i):
        if abs(self.step) != 1:
            raise Unsupported("count in stepped range")
        e, i = _t(e), _t(i)
        if self.step == 1:
            c = z3.And(e >= self.start, e < self.start + i)
        else:
            c = z3.And(e <= self.start, e > self.start - i)
        return z3.If(c, z3.IntVal(1), z3.IntVal(0))


class SymStepRange(Seq):
    """range(start, stop, step) with a symbolic positive step"""

    def __init__(self, start, stop, step):
        self.start, self.step = _t(start), _t(step)
        stop = _t(stop)
        if not S.decide(self.step > 0):
            raise Unsupported("range with symbolic non-positive step")
        if S.decide(stop <= self.start):
            self.n = z3.IntVal(0)
        else:
            n = S.int("rangelen", lo=1)
            S.assume(self.start + (n.t - 1) * self.step < stop)
            S.assume(self.start + n.t * self.step >= stop)
            self.n = n.t

    def at(self, i):
        return as_int(self.start + self.step * _t(i))


class Rep(Seq):
    def __init__(self, v, n):
        self.v = v
        n = _t(n)
        self.n = n

    def at(self, i):
        return self.v

    def cnt(self, e, i):
        return z3.If(bterm(eq(self.v, e)), _t(i), z3.IntVal(0))

    def psum(self, i):
        return z3.simplify(_t(self.v) * _t(i))


class Cat(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = z3.simplify(a.n + b.n)

    def at(self, i):
        i = _t(i)
        if S.decide(i < self.a.n):
            return self.a.at(i)
        return self.b.at(_simp(i - self.a.n))

    def cnt(self, e, i):
        i = _t(i)
        if S.decide(i <= self.a.n):
            return self.a.cnt(e, i)
        return self.a.cnt(e, self.a.n) + self.b.cnt(e, _simp(i - self.a.n))

    def total(self, e):
        return self.a.total(e) + self.b.total(e)

    def psum(self, i):
        i = _t(i)
        if S.decide(i <= self.a.n):
            return self.a.psum(i)
        return self.a.psum(self.a.n) + self.b.psum(_simp(i - self.a.n))


class Slice(Seq):
    """s[lo:hi], 0 <= lo <= hi <= s.n already ensured"""

    def __init__(self, s, lo, hi):
        while isinstance(s, Slice):
            lo, hi, s = s.lo + lo, s.lo + hi, s.s
        self.s, self.lo, self.hi = s, _simp(lo), _simp(hi)
        self.n = z3.simplify(self.hi - self.lo)

    def at(self, i):
        return self.s.at(_simp(self.lo + _t(i)))

    def cnt(self, e, i):
        return self.s.cnt(e, _simp(self.lo + _t(i))) - self.s.cnt(e, self.lo)

    def psum(self, i):
        return self.s.psum(_simp(self.lo + _t(i))) - self.s.psum(self.lo)


class Upd(Seq):
    def __init__(self, s, i, v):
        self.s, self.i, self.v = s, _t(i), v
        self.n = s.n

    def at(self, j):
        if S.decide(_t(j) == self.i):
            return self.v
        return self.s.at(j)


class Rev(Seq):
    def __init__(self, s):
        self.s = s
        self.n = s.n

    def at(self, i):
        return self.s.at(_simp(self.n - 1 - _t(i)))

    def cnt(self, e, i):
        return self.s.cnt(e, self.n) - self.s.cnt(e, _simp(self.n - _t(i)))


class PSum:
    """prefix sums by an uninterpreted function, unfolded at the positions asked for"""

    def psum(self, i):
        i = _simp(_t(i))
        if not hasattr(self, "_ps"):
            self._ps = S.func("psum_" + getattr(self, "name", "map"), z3.IntSort(), z3.IntSort())
            S.assume(self._ps(z3.IntVal(0)) == 0)
            self._psk = set()
        return self._ps(i)

    def psum_step(self, i):
        """instantiate psum(i+1) = psum(i) + s[i]"""
        i = _simp(_t(i))
        v = self.at(i)
        self.psum(i)
        if i.get_id() not in self._psk:
            self._psk.add(i.get_id())
            S.assume(z3.Implies(z3.And(i >= 0, i < self.n), self._ps(_simp(i + 1)) == self._ps(i) + _t(v)))


class MapSeq(PSum, Seq):
    """lazily mapped sequence; f must be pure"""

    def __init__(self, s, f):
        self.s, self.f = s, f
        self.n = s.n
        self.cache = {}

    def at(self, i):
        i = _simp(_t(i))
        k = i.get_id()
        if k not in self.cache or S.evaluating is not None:
            v = self.f(self.s.at(i))
            if S.evaluating is not None:
                return v
            self.cache[k] = (v, i)
        return self.cache[k][0]


class ZipSeq(Seq):
    def __init__(self, ss):
        self.ss = ss
        n = ss[0].n
        for s in ss[1:]:
            if S.decide(s.n < n):
                n = s.n
        self.n = n

    def at(self, i):
        return tuple(s.at(i) for s in self.ss)





class Fn(PSum, Seq):
    """opaque sequence: element i is mk(i); ``facts`` are element facts, instantiated at every access"""

    def __init__(self, n, mk, name="s", facts=(), countable=False):
        self.n = _t(n)
        self.mk = mk
        self.name = name
        self.facts = list(facts)
        self.cache = {}
        self.pending = set()
        self._cnt = None
        self.pre = None  # fact assumed before the element is built
        self.count_total = None  # fn e -> term: total occurrence count known by contract

    def at(self, i):
        i = _simp(_t(i))
        k = i.get_id()
        if S.evaluating is not None:
            return self.mk(i)
        if k in self.cache and (k not in self.pending or S.inst_depth >= S.max_inst):
            return self.cache[k][0]
        if k in self.cache:
            v = self.cache[k][0]
        else:
            if self.pre is not None:
                S.assume(Implies(And(i >= 0, i < self.n), self.pre(i)))
            v = self.mk(i)
            self.cache[k] = (v, i)
        if S.inst_depth >= S.max_inst:
            # instantiated within (within ...) an instantiation: its facts are only added if it is accessed again
            self.pending.add(k)
            return v
        self.pending.discard(k)
        S.inst_depth += 1
        try:
            for f in list(self.facts):
                S.assume(Implies(And(i >= 0, i < self.n), f(i, v)))
        finally:
            S.inst_depth -= 1
        if self._cnt is not None:
            self._cnt_at(i, v)
        return v

    def add_fact(self, f):
        self.facts.append(f)
        S.inst_depth += 1
        try:
            for k, (v, i) in list(self.cache.items()):
                if k not in self.pending:
                    S.assume(Implies(And(i >= 0, i < self.n), f(i, v)))
        finally:
            S.inst_depth -= 1

    # occurrence counts
    def _ensure_cnt(self):
        if self._cnt is None:
            self._cnt = S.func("cnt_" + self.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
            self._es = {}
            self._ks = {}

    def _fact(self, key, f):
        if key in S.cntfacts:
            return
        S.cntfacts.add(key)
        S.assume(f)

    def cnt(self, e, i):
        self._ensure_cnt()
        e, i = _simp(_t(e)), _simp(_t(i))
        c = self._cnt
        nm = c.name()
        if e.get_id() not in self._es:
            self._es[e.get_id()] = e
            S.assume(c(e, z3.IntVal(0)) == 0)
            if self.count_total is not None:
                S.assume(c(e, self.n) == self.count_total(e))
            S.assume(c(e, self.n) >= 0)
            for v, j in list(self.cache.values()):
                self._cnt_one(e, j, v)
        k = (nm, e.get_id(), i.get_id())
        if k not in S.cntfacts:
            S.cntfacts.add(k)
            S.assume(z3.Implies(z3.And(i >= 0, i <= self.n), z3.And(c(e, i) >= 0, c(e, i) <= i, c(e, i) <= c(e, self.n))))
            # monotone wrt. other known points
            for j in list(self._ks.get(e.get_id(), [])):
                S.assume(z3.Implies(z3.And(0 <= j, j <= i, i <= self.n), c(e, j) <= c(e, i)))
                S.assume(z3.Implies(z3.And(0 <= i, i <= j, j <= self.n), c(e, i) <= c(e, j)))
            self._ks.setdefault(e.get_id(), []).append(i)
        return c(e, i)

    def _cnt_one(self, e, i, v):
        k = (self._cnt.name(), "step", e.get_id(), i.get_id())
        if k in S.cntfacts:
            return
        S.cntfacts.add(k)
        a, b = self.cnt(e, i), self.cnt(e, i + 1)
        S.assume(
            z3.Implies(
                z3.And(i >= 0, i < self.n), b == a + z3.If(bterm(eq(v, e)), z3.IntVal(1), z3.IntVal(0))
            )
        )

    def _cnt_at(self, i, v):
        for e in list(self._es.values()):
            self._cnt_one(e, i, v)


def int_fn(name, n, facts=()):
    f = S.func(name, z3.IntSort(), z3.IntSort())
    return Fn(n, lambda i: SymNum(f(_t(i))), name, facts)


def real_fn(name, n, facts=()):
    f = S.func(name, z3.IntSort(), z3.RealSort())
    return Fn(n, lambda i: SymNum(f(_t(i))), name, facts)


def atom_fn(name, n, facts=(), kind="str"):
    f = S.func(name, z3.IntSort(), z3.IntSort())
    return Fn(n, lambda i: SymAtom(f(_t(i)), kind), name, facts)


def perm_of(s, name="perm"):
    """fresh sequence that is a permutation of the int sequence s (assumed contract of a library call)"""
    r = int_fn(name, s.n)
    r.count_total = lambda e: s.total(e)
    return r


def perm_range(n, name="perm"):
    n = _t(n)
    f = S.func(name, z3.IntSort(), z3.IntSort())
    finv = S.func(name + "_inv", z3.IntSort(), z3.IntSort())
    r = Fn(n, lambda i: SymNum(f(_t(i))), name)
    r.add_fact(lambda i, v: And(v.t >= 0, v.t < n, finv(v.t) == i))
    r.count_total = lambda e: z3.If(z3.And(e >= 0, e < n), z3.IntVal(1), z3.IntVal(0))
    r.inv = finv
    r.is_perm_range = True

    def surj(w):
        """position of value w (0 <= w < n)"""
        w = _t(w)
        S.assume(z3.Implies(z3.And(w >= 0, w < n), z3.And(finv(w) >= 0, finv(w) < n, f(finv(w)) == w)))
        return finv(w)

    r.surj = surj
    return r


def to_seq(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, PList):
        return x.v
    if isinstance(x, (list, tuple)):
        return Conc(x)
    if isinstance(x, range):
        return Range(x.start, x.stop, x.step)
    if isinstance(x, PDict):
        return x.keys_seq()
    if isinstance(x, PSet):
        return x.iter_seq()
    if hasattr(x, "_pv_seq"):
        return x._pv_seq()
    import numpy

    if isinstance(x, numpy.ndarray) and x.ndim == 1:
        return Conc(x.tolist())
    raise Unsupported("not a sequence: %s" % type(x).__name__)


def repeat(x, n):
    s = to_seq(x)
    kind = x.kind if isinstance(x, PList) else ("tuple" if isinstance(x, tuple) else "list")
    if isinstance(x, str):
        raise Unsupported("str * symbolic")
    if not S.decide(_t(n) >= 0):
        return PList(Conc([]), kind)
    if isinstance(s, Conc) and len(s.items) == 1:
        return PList(Rep(s.items[0], n), kind)
    return PList(RepSeq(s, n), kind)


class RepSeq(Seq):
    """s repeated m times"""

    def __init__(self, s, m):
        self.s, self.m = s, _t(m)
        self.n = z3.simplify(s.n * self.m)

    def at(self, i):
        _, r = divmod(SymNum(_t(i)), SymNum(self.s.n) if not z3.is_int_value(self.s.n) else self.s.n.as_long())
        return self.s.at(_t(r))

    def total(self, e):
        return self.m * self.s.total(e)

    def cnt(self, e, i):
        if z3.is_true(z3.simplify(_t(i) == self.n)):
            return self.total(e)
        raise Unsupported("count in repeated seq")


def _norm_bound(b, n, default):
    """python slice bound normalisation for step 1"""
    if b is None:
        return default
    b = _t(b)
    if S.decide(b < 0):
        b = b + n
        if S.decide(b < 0):
            return z3.IntVal(0)
        return b
    if S.decide(b > n):
        return n
    return b


def do_slice(s, sl):
    if sl.step is not None and sl.step != 1:
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return Rev(s)
        step = sl.step
        if isinstance(step, SymNum):
            u = S.unique_value(step.t)
            step = u if u is not None else step
        if isinstance(s, Conc) and isinstance(step, int) and not is_symslice(sl):
            return Conc(s.items[slice(sl.start, sl.stop, step)])
        if sl.stop is None:
            lo = _norm_bound(sl.start, s.n, z3.IntVal(0))
            return StepSlice(s, lo, step)
        raise Unsupported("slice step")
    lo = _norm_bound(sl.start, s.n, z3.IntVal(0))
    hi = _norm_bound(sl.stop, s.n, s.n)
    if isinstance(s, Conc):
        l2, h2 = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(l2) and z3.is_int_value(h2):
            return Conc(s.items[l2.as_long() : h2.as_long()])
    if z3.is_true(z3.simplify(lo == 0)) and z3.is_true(z3.simplify(hi == s.n)):
        return s
    if not S.decide(lo <= hi):
        return Conc([])
    return Slice(s, lo, hi)


class StepSlice(Seq):
    """s[lo::step], step > 0"""

    def __init__(self, s, lo, step):
        self.s, self.lo, self.step = s, lo, _t(step)
        if not S.decide(self.step > 0):
            raise Unsupported("non-positive slice step")
        rest = s.n - lo
        if S.decide(rest <= 0):
            self.n = z3.IntVal(0)
        else:
            q, r = divmod(SymNum(z3.simplify(rest - 1)), step)
            self.n = z3.simplify(_t(q) + 1)

    def at(self, i):
        return self.s.at(_simp(self.lo + self.step * _t(i)))


def is_symslice(sl):
    return any(isinstance(x, Sym) for x in (sl.start, sl.stop, sl.step))


class PIter(Sym):
    """iterator with mutable position over a Seq"""

    def __init__(self, s, pos=0):
        self.s = s
        self.pos = _t(pos)
        self.stamp = S.now()

    def _log(self):
        S.writes.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        if S.decide(self.pos < self.s.n):
            v = self.s.at(self.pos)
            self.pos = _simp(self.pos + 1)
            self._log()
            return v
        raise StopIteration


class PList(Sym):
    def __init__(self, v, kind="list"):
        self.v = v if isinstance(v, Seq) else to_seq(v)
        self.kind = kind
        self.stamp = S.now()

    # engine protocol
    def _pv_len(self):
        return as_int(self.v.n)

    def _pv_repeat(self, n):
        if self.kind == "array":
            return self._arr_op(n, lambda a, b: a * b)
        return repeat(self, n)

    def _pv_eval(self, lim):
        n = ev(SymNum(self.v.n)) if not z3.is_int_value(z3.simplify(self.v.n)) else z3.simplify(self.v.n).as_long()
        if n > lim:
            raise Unsupported("model too large")
        return [ev(self.v.at(z3.IntVal(j))) for j in range(n)]

    def _log(self):
        S.writes.append(self)
        if S.frozen and any(o is self for o in S.frozen):
            S.prove(False, "an object handed out to the consumer is not modified afterwards", kind="frame")

    def set(self, v):
        self.v = v
        self._log()

    def copy(self):
        return PList(self.v, self.kind)

    def tolist(self):
        return PList(self.v, "list")

    @property
    def shape(self):
        return (self._pv_len(),)

    @property
    def size(self):
        return self._pv_len()

    ndim = 1

    def __bool__(self):
        if self.kind == "array":
            raise Unsupported("truth value of array")
        return S.decide(self.v.n > 0)

    def __len__(self):
        c = S.unique_value(self.v.n)
        if c is None:
            raise Unsupported("native len() of a symbolic sequence")
        return c

    def __iter__(self):
        c = self.v.conc_len()
        if c is None:
            if S.unroll:
                return self._iter_unroll()
            raise Unsupported("native iteration over a symbolic sequence")
        return iter([self.v.at(z3.IntVal(k)) for k in range(c)])

    def _iter_unroll(self):
        k = 0
        while S.decide(k < self.v.n):
            if k >= S.unroll:
                raise PathEnd
            yield self.v.at(z3.IntVal(k))
            k += 1

    def _idx(self, i):
        i = _t(i)
        n = self.v.n
        if S.decide(i < 0):
            i = _simp(i + n)
            if S.decide(i < 0):
                raise IndexError("list index out of range")
        if not S.decide(i < n):
            raise IndexError("list index out of range")
        return _simp(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return PList(do_slice(self.v, i), self.kind)
        if isinstance(i, PList):
            if self.kind != "array":
                raise TypeError("list indices must be integers or slices, not list")
            return gather(self, i)
        if isinstance(i, tuple) or not (isinstance(i, (int, SymNum, SymBool)) or hasattr(i, "__index__")):
            raise Unsupported("index %r" % (type(i),))
        return self.v.at(self._idx(i))

    def __setitem__(self, i, x):
        if self.kind == "tuple":
            raise TypeError("'tuple' object does not support item assignment")
        if isinstance(i, slice):
            if i.step is not None or self.kind == "array":
                raise Unsupported("slice assignment")
            lo = _norm_bound(i.start, self.v.n, z3.IntVal(0))
            hi = _norm_bound(i.stop, self.v.n, self.v.n)
            if not S.decide(lo <= hi):
                hi = lo
            self.set(cat(cat(mkslice(self.v, z3.IntVal(0), lo), iter_seq(x)), mkslice(self.v, hi, self.v.n)))
            return
        k = self._idx(i)
        if isinstance(self.v, Conc) and z3.is_int_value(k):
            items = list(self.v.items)
            items[k.as_long()] = x
            self.set(Conc(items))
        else:
            self.set(Upd(self.v, k, x))

    def __delitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("del step slice")
            lo = _norm_bound(i.start, self.v.n, z3.IntVal(0))
            hi = _norm_bound(i.stop, self.v.n, self.v.n)
            if not S.decide(lo <= hi):
                return
            self.set(cat(mkslice(self.v, z3.IntVal(0), lo), mkslice(self.v, hi, self.v.n)))
            return
        k = self._idx(i)
        self.set(cat(mkslice(self.v, z3.IntVal(0), k), mkslice(self.v, _simp(k + 1), self.v.n)))

    def append(self, x):
        self.set(cat(self.v, Conc([x])))

    def extend(self, xs):
        self.set(cat(self.v, iter_seq(xs)))

    def insert(self, i, x):
        k = _norm_bound(i, self.v.n, z3.IntVal(0))
        self.set(cat(cat(mkslice(self.v, z3.IntVal(0), k), Conc([x])), mkslice(self.v, k, self.v.n)))

    def pop(self, i=-1):
        if not S.decide(self.v.n > 0):
            raise IndexError("pop from empty list")
        k = self._idx(i)
        x = self.v.at(k)
        self.set(cat(mkslice(self.v, z3.IntVal(0), k), mkslice(self.v, _simp(k + 1), self.v.n)))
        return x

    def remove(self, x):
        c = self.v.conc_len()
        if c is None:
            raise Unsupported("list.remove")
        for k in range(c):
            if bool(self.v.at(z3.IntVal(k)) == x):
                self.pop(k)
                return
        raise ValueError("list.remove(x): x not in list")

    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.set(cat(Conc([x]), self.v))

    def clear(self):
        self.set(Conc([]))

    def reverse(self):
        self.set(Rev(self.v))

    def sort(self, *, key=None, reverse=False):
        self.set(sorted_seq(self.v, key, reverse))

    def index(self, x):
        s = self.v
        c = s.conc_len()
        if c is not None:
            for k in range(c):
                if s.at(z3.IntVal(k)) == x:
                    return k
            raise ValueError("not in list")
        raise Unsupported("list.index")

    def count(self, x):
        return as_int(self.v.total(x))

    def max(self):
        return seq_extreme(self.v, True)

    def min(self):
        return seq_extreme(self.v, False)

    def sum(self):
        return seq_sum(self.v)

    def astype(self, *a, **k):
        return self

    def repeat(self, n):
        raise Unsupported("array repeat")

    def __contains__(self, x):
        return bool(contains(self.v, x))

    def __add__(self, o):
        if self.kind == "array" or (isinstance(o, PList) and o.kind == "array"):
            return self._arr_op(o, lambda a, b: a + b)
        if isinstance(o, (PList, list, tuple)):
            return PList(cat(self.v, to_seq(o)), self.kind)
        return NotImplemented

    def __radd__(self, o):
        if self.kind == "array":
            return self._arr_op(o, lambda a, b: b + a)
        if isinstance(o, (PList, list, tuple)):
            return PList(cat(to_seq(o), self.v), self.kind)
        return NotImplemented

    def __iadd__(self, o):
        if self.kind == "list":
            self.extend(o)
            return self
        return self.__add__(o)

    def __mul__(self, n):
        if self.kind == "array":
            return self._arr_op(n, lambda a, b: a * b)
        if isinstance(n, int):
            if isinstance(self.v, Conc):
                return PList(Conc(self.v.items * n), self.kind)
            return PList(RepSeq(self.v, n), self.kind) if n > 0 else PList(Conc([]), self.kind)
        return repeat(self, n)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._arr_op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arr_op(o, lambda a, b: b - a)

    def __neg__(self):
        if self.kind != "array":
            raise TypeError("bad operand type for unary -: 'list'")
        return PList(MapSeq(self.v, lambda a: -a), "array")

    def __floordiv__(self, o):
        return self._arr_op(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._arr_op(o, lambda a, b: a % b)

    def _arr_op(self, o, f):
        if self.kind != "array" and not (isinstance(o, PList) and o.kind == "array"):
            return NotImplemented
        if isinstance(o, (PList, list)):
            return PList(MapSeq(ZipSeq([self.v, to_seq(o)]), lambda ab: f(ab[0], ab[1])), "array")
        return PList(MapSeq(self.v, lambda a: f(a, o)), "array")

    def __eq__(self, o):
        if not isinstance(o, (PList, list, tuple)):
            return False
        return seq_eq(self.v, to_seq(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        if self.kind == "tuple":
            return hash(tuple(iter(self)))
        raise TypeError("unhashable type: 'list'")

    def __reversed__(self):
        return iter(PList(Rev(self.v)))

    def __repr__(self):
        return "<sym%s len %s>" % (self.kind, str(self.v.n)[:40])

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return PList(self.v, self.kind)

    def __copy__(self):
        return PList(self.v, self.kind)


def mkslice(s, lo, hi):
    lo, hi = _simp(lo), _simp(hi)
    if z3.is_true(z3.simplify(lo == hi)):
        return Conc([])
    if z3.is_true(z3.simplify(lo == 0)) and z3.is_true(z3.simplify(hi == s.n)):
        return s
    if isinstance(s, Conc) and z3.is_int_value(lo) and z3.is_int_value(hi):
        return Conc(s.items[lo.as_long() : hi.as_long()])
    return Slice(s, lo, hi)


def cat(a, b):
    if isinstance(a, Conc) and not a.items:
        return b
    if isinstance(b, Conc) and not b.items:
        return a
    if isinstance(a, Conc) and isinstance(b, Conc):
        return Conc(a.items + b.items)
    if isinstance(a, Cat) and isinstance(a.b, Conc) and isinstance(b, Conc):
        return Cat(a.a, Conc(a.b.items + b.items))
    if hasattr(a, "append_hook"):
        return a.append_hook(b)
    return Cat(a, b)


def gather(arr, idx):
    s, ix = arr.v, idx.v
    r = MapSeq(ix, lambda j: s.at(_t(j)))
    if getattr(ix, "is_perm_range", False) and S.decide(ix.n == s.n):
        # lemma: gathering through a permutation of range(len) keeps the multiset
        r2 = Fn(ix.n, lambda i: r.at(i), "gather")
        r2.count_total = lambda e: s.total(e)
        return PList(r2, "array")
    return PList(r, "array")


def iter_seq(xs):
    if isinstance(xs, (PList, list, tuple, range, Seq, PDict, PSet)):
        return to_seq(xs)
    if isinstance(xs, PIter):
        s = mkslice(xs.s, xs.pos, xs.s.n)
        xs.pos = xs.s.n
        xs._log()
        return s
    if isinstance(xs, Sym):
        return to_seq(xs)
    return Conc(list(xs))


def contains(s, x):
    """SymBool: x in s"""
    c = s.conc_len()
    if c is not None:
        r = False
        for k in range(c):
            y = s.at(z3.IntVal(k))
            e = y == x
            if e is True:
                return True
            if e is not False:
                r = e if r is False else Or(r, e)
        return r
    if isinstance(s, Rep):
        return And(s.n > 0, eq(s.v, x))
    if isinstance(s, Range) and abs(s.step) == 1:
        return mkbool(s.total(x) == 1)
    if isinstance(s, Cat):
        return Or(contains(s.a, x), contains(s.b, x))
    if not getattr(S, "skolem_in", False):
        return mkbool(_t_i(s.total(x)) > 0)
    # first-order characterisation of membership: a witness position, and every accessed position
    mem = s.__dict__.setdefault("_mem", {})
    kx = x.t.get_id() if isinstance(x, SymNum) else None
    if kx is not None and kx in mem:
        return mem[kx][0]
    b, w = S.bool("in"), S.int("in_w", lo=0)
    if kx is not None:
        mem[kx] = (b, x)
    S.assume(Implies(b, w.t < s.n))
    y = s.at(w.t)
    S.assume(Implies(b, eq(y, x)))
    add_elem_fact(s, lambda j, v: Implies(eq(v, x), b))
    return b


def _t_i(x):
    return _t(x)


def seq_eq(a, b):
    if a is b:
        return True
    ca, cb = a.conc_len(), b.conc_len()
    if ca is not None and cb is not None:
        if ca != cb:
            return False
        r = True
        for k in range(ca):
            e = a.at(z3.IntVal(k)) == b.at(z3.IntVal(k))
            if e is False:
                return False
            r = e if r is True else And(r, e)
        return r
    if ca == 0:
        return mkbool(b.n == 0)
    if cb == 0:
        return mkbool(a.n == 0)
    if not S.decide(a.n == b.n):
        return False
    raise Unsupported("equality of symbolic sequences")


def seq_sum(s, start=0):
    r = s.psum(s.n)
    r = mknum(r) if isinstance(r, z3.ExprRef) else r
    return r + start if not (isinstance(start, int) and start == 0) else r


def seq_extreme(s, is_max, key=None, default=None, has_default=False):
    if S.decide(s.n == 0):
        if has_default:
            return default
        raise ValueError("%s() arg is an empty sequence" % ("max" if is_max else "min"))
    c = s.conc_len()
    kf = key or (lambda v: v)
    if c is not None:
        best = s.at(z3.IntVal(0))
        for k in range(1, c):
            v = s.at(z3.IntVal(k))
            kv, kb = kf(v), kf(best)
            if isinstance(kv, SymNum) or isinstance(kb, SymNum):
                if key is None and isinstance(best, (int, float, SymNum)):
                    best = If(lt(kb, kv) if is_max else lt(kv, kb), v, best)
                    continue
            if (kv > kb) if is_max else (kv < kb):
                best = v
        return best
    # abstract: an element at a fresh index (the first extreme one), every accessed element compares
    w = S.int("argext", lo=0)
    S.assume(w.t < s.n)
    v = s.at(w.t)
    base = s
    kv = kf(v)

    def fact(j, x):
        kx = kf(x)
        r = le(kx, kv) if is_max else le(kv, kx)
        first = Implies(j < w.t, lt(kx, kv) if is_max else lt(kv, kx))
        return And(r, first)

    add_elem_fact(base, fact)
    return v


def add_elem_fact(s, fact):
    """register a fact about all elements of s (instantiated at accesses)"""
    if isinstance(s, Fn):
        s.add_fact(fact)
    elif isinstance(s, MapSeq):
        f = s.f
        add_elem_fact(s.s, lambda j, x: fact(j, f(x)))
    elif isinstance(s, Slice):
        add_elem_fact(
            s.s, lambda j, x: Implies(And(j >= s.lo, j < s.hi), fact(_simp(j - s.lo), x))
        )
    elif isinstance(s, Rev):
        add_elem_fact(s.s, lambda j, x: fact(_simp(s.n - 1 - j), x))
    elif isinstance(s, Cat):
        add_elem_fact(s.a, fact)
        an = s.a.n
        add_elem_fact(s.b, lambda j, x: fact(_simp(j + an), x))
    elif isinstance(s, Conc):
        for k, x in enumerate(s.items):
            S.assume(fact(z3.IntVal(k), x))
    elif isinstance(s, Rep):
        S.assume(Implies(s.n > 0, fact(z3.IntVal(0), s.v)))
    else:
        raise Unsupported("element facts on %s" % type(s).__name__)


def bool_of(_):
    """force evaluation (instantiation) of an element; no fact of its own"""
    return True


def sorted_seq(s, key=None, reverse=False):
    """assumed contract of sorted()/list.sort: stable permutation with ordered keys"""
    c = s.conc_len()
    if c is not None and c <= 1:
        return s
    kf = key or (lambda v: v)
    if c is not None and c <= 4:
        # insertion sort on concrete-length lists (exact)
        out = []
        items = [s.at(z3.IntVal(k)) for k in range(c)]
        for x in items:
            k = len(out)
            while k > 0 and ((kf(out[k - 1]) < kf(x)) if reverse else (kf(out[k - 1]) > kf(x))):
                k -= 1
            out.insert(k, x)
        return Conc(out)
    n = s.n
    p = perm_range(n, "sortperm")
    r = Fn(n, lambda i: s.at(_t(p.at(i))), "sorted")
    r.pre = lambda i: bool_of(p.at(i))
    try:
        if isinstance(s.at(z3.IntVal(0)), (int, SymNum)):
            s.total(z3.IntVal(0))
            r.count_total = lambda e: s.total(e)
    except (Unsupported, LookupError):  # not countable (the probe may lie outside an empty sequence)
        pass
    r.distinct = getattr(s, "distinct", False)
    r.sort_src, r.sort_perm, r.sort_key, r.sort_rev = s, p, kf, reverse
    # pairwise order facts between all accessed positions
    acc = []

    def fact(i, v):
        out = []
        kv = kf(v)
        pi = _t(p.at(i))
        for j, kw, pj in acc:
            if reverse:
                o1, o2 = le(kv, kw), le(kw, kv)
            else:
                o1, o2 = le(kw, kv), le(kv, kw)
            out.append(Implies(j < i, And(o1, Implies(eq(kw, kv), pj < pi))))
            out.append(Implies(i < j, And(o2, Implies(eq(kw, kv), pi < pj))))
        acc.append((i, kv, pi))
        return And(*out) if out else True

    r.add_fact(fact)
    S.sorts.append(r)
    return r


# ------------------------------------------------------------------ sets and dicts


class PSet(Sym):
    """symbolic set: membership predicate base(x) plus log of adds/removes"""

    def __init__(self, items=(), base=None, iter_=None):
        self.items = list(items)  # concretely known distinct-candidate members (only meaningful if base is None)
        self.base = base  # fn x -> SymBool
        self.ops = []  # (kind, x)
        self.iter_ = iter_
        self.stamp = S.now()

    def has(self, x):
        r = False
        for y in self.items:
            e = y == x
            if e is True:
                r = True
                break
            if e is not False:
                r = e if r is False else Or(r, e)
        if r is not True and self.base is not None:
            b = self.base(x)
            r = b if r is False else Or(r, b)
        for kind, y in self.ops:
            e = y == x
            if kind == "add":
                r = Or(r, e)
            else:
                r = And(r, Not(e))
        return r

    def _log(self):
        S.writes.append(self)

    def __contains__(self, x):
        return bool(self.has(x))

    def add(self, x):
        self._log()
        if self.base is None and not self.ops:
            for y in self.items:
                e = y == x
                if e is True or (e is not False and bool(e)):
                    return
            self.items.append(x)
        else:
            self.ops.append(("add", x))

    def remove(self, x):
        if not bool(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def discard(self, x):
        self._log()
        if self.base is None and not self.ops:
            for k, y in enumerate(self.items):
                e = y == x
                if e is True or (e is not False and bool(e)):
                    del self.items[k]
                    return
        else:
            self.ops.append(("del", x))

    def clear(self):
        self._log()
        self.items, self.base, self.ops = [], None, []

    def copy(self):
        r = PSet(self.items, self.base, self.iter_)
        r.ops = list(self.ops)
        return r

    def _conc(self):
        return self.base is None and not self.ops

    def iter_seq(self):
        if self._conc():
            return Conc(self.items)
        if self.iter_ is not None and not self.ops:
            return self.iter_(self)
        raise Unsupported("iteration over abstract set")

    def _pv_len(self):
        if self._conc():
            return len(self.items)
        return as_int(self.iter_seq().n)

    def __len__(self):
        if self._conc():
            return len(self.items)
        raise Unsupported("native len of set")

    def __iter__(self):
        return iter(PList(self.iter_seq()))

    def __bool__(self):
        if self._conc():
            return bool(self.items)
        return S.decide(self.iter_seq().n > 0)

    def update(self, *others):
        for o in others:
            if isinstance(o, PSet) and not o._conc() and (o.iter_ is None or o.ops):
                self._log()
                old, o_ = self.copy(), o.copy()
                self.items, self.ops, self.iter_ = [], [], None
                self.base = lambda x, old=old, o_=o_: Or(old.has(x), o_.has(x))
                continue
            s = o.iter_seq() if isinstance(o, PSet) else iter_seq(o)
            c = s.conc_len()
            if c is None:
                self._log()
                src = s
                old = self.copy()
                o_ = None
                empty = old._conc() and not old.items
                self.items, self.ops = [], []
                if isinstance(o, PSet):
                    o_ = o.copy()
                    self.base = o_.has if empty else lambda x, old=old, o_=o_: Or(old.has(x), o_.has(x))
                else:
                    self.base = (lambda x, src=src: contains(src, x)) if empty else lambda x, old=old, src=src: Or(old.has(x), contains(src, x))
                self.iter_ = (lambda me, src=src: src) if empty and (getattr(src, "distinct", False) or isinstance(o, PSet)) else None
                continue
            for k in range(c):
                self.add(s.at(z3.IntVal(k)))

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    __or__ = union

    def __ior__(self, o):
        self.update(o)
        return self

    def _member(self, o):
        if isinstance(o, PSet):
            return o.has
        if isinstance(o, (set, frozenset)):
            o = list(o)
        s = to_seq(o)
        return lambda x: contains(s, x)

    def difference(self, o):
        f = self._member(o)
        if self._conc():
            return PSet([x for x in self.items if not bool(f(x))])
        if self.iter_ is not None and not self.ops:
            return self._filtered(self.iter_seq(), lambda x: Not(f(x)))
        raise Unsupported("set difference")

    @staticmethod
    def _filtered(seq, cond):
        """the elements of a duplicate-free sequence which satisfy cond"""
        from . import helpers

        fs = helpers.FilterSeq(seq, cond, lambda x: x)
        fs.distinct = True
        fs.count_facts()
        r = PSet((), base=lambda x: And(contains(seq, x), cond(x)), iter_=lambda self: fs)
        return r

    def intersection_update(self, o):
        r = self.intersection(o)
        self._log()
        self.items, self.base, self.ops, self.iter_ = r.items, r.base, r.ops, r.iter_

    def difference_update(self, o):
        r = self.difference(o)
        self._log()
        self.items, self.base, self.ops, self.iter_ = r.items, r.base, r.ops, r.iter_

    __sub__ = difference

    def intersection(self, o):
        if isinstance(o, PSet):
            f = o.has
        else:
            s = to_seq(o)
            f = lambda x: contains(s, x)
        if self._conc():
            return PSet([x for x in self.items if bool(f(x))])
        if self.iter_ is not None and not self.ops:
            return self._filtered(self.iter_seq(), f)
        if not isinstance(o, PSet) and getattr(s, "distinct", False):
            me = self.copy()
            return self._filtered(s, me.has)
        if isinstance(o, PSet) and o.iter_ is not None and not o.ops:
            return self._filtered(o.iter_seq(), self.copy().has)
        raise Unsupported("set intersection")

    __and__ = intersection

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = PSet(list(o))
        if isinstance(o, PSet) and self._conc() and o._conc():
            return all(bool(o.has(x)) for x in self.items) and all(bool(self.has(x)) for x in o.items)
        raise Unsupported("set equality")

    __hash__ = None

    def __repr__(self):
        return "<symset>"


_DEL = object()


class PDict(Sym):
    """symbolic dict: optional abstract base (has/get) + update log; insertion order only if concrete"""

    def __init__(self, items=(), base_has=None, base_get=None, keys=None):
        self.log = []  # (k, v|_DEL)
        self.base_has, self.base_get, self.base_keys = base_has, base_get, keys
        self.stamp = S.now()
        for k, v in dict(items).items() if isinstance(items, dict) else items:
            self._put(k, v)

    def _w(self):
        S.writes.append(self)

    @staticmethod
    def _same(a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        e = a == b
        if e is True or e is False:
            return e
        return bool(e)

    def _find(self, k):
        for j in range(len(self.log) - 1, -1, -1):
            if self._same(self.log[j][0], k):
                return j
        return None

    def _put(self, k, v):
        j = self._find(k)
        if j is not None:
            if self.log[j][1] is _DEL and self.base_has is None:
                del self.log[j]
                self.log.append((k, v))
            else:
                self.log[j] = (self.log[j][0], v)
        else:
            self.log.append((k, v))

    def __setitem__(self, k, v):
        self._w()
        self._put(k, v)

    def lookup(self, k):
        j = self._find(k)
        if j is not None:
            v = self.log[j][1]
            return (False, None) if v is _DEL else (True, v)
        if self.base_has is not None and bool(self.base_has(k)):
            return True, self.base_get(k)
        return False, None

    def __getitem__(self, k):
        ok, v = self.lookup(k)
        if not ok:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        ok, v = self.lookup(k)
        return v if ok else default

    def __contains__(self, k):
        return self.lookup(k)[0]

    def setdefault(self, k, d=None):
        ok, v = self.lookup(k)
        if ok:
            return v
        self[k] = d
        return d

    def pop(self, k, *d):
        ok, v = self.lookup(k)
        if not ok:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return v

    def __delitem__(self, k):
        ok, _ = self.lookup(k)
        if not ok:
            raise KeyError(k)
        self._w()
        j = self._find(k)
        if self.base_has is None:
            del self.log[j]
        elif j is not None:
            self.log[j] = (k, _DEL)
        else:
            self.log.append((k, _DEL))

    def clear(self):
        self._w()
        self.log = []
        self.base_has = self.base_get = self.base_keys = None

    def update(self, *a, **kw):
        for o in a:
            for k, v in o.items() if hasattr(o, "items") else o:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = PDict()
        r.log = list(self.log)
        r.base_has, r.base_get, r.base_keys = self.base_has, self.base_get, self.base_keys
        return r

    def keys_seq(self):
        if self.base_has is None:
            return Conc([k for k, v in self.log])
        if self.base_keys is not None and not self.log:
            return self.base_keys
        raise Unsupported("iteration over abstract dict")

    def _pv_len(self):
        return as_int(self.keys_seq().n)

    def __len__(self):
        return len(PList(self.keys_seq()))

    def __bool__(self):
        return S.decide(self.keys_seq().n > 0)

    def keys(self):
        return PList(self.keys_seq())

    def values(self):
        return PList(MapSeq(self.keys_seq(), lambda k: self[k]) if self.base_has is not None else Conc([v for k, v in self.log]))

    def items(self):
        if self.base_has is None:
            return PList(Conc([(k, v) for k, v in self.log]))
        return PList(MapSeq(self.keys_seq(), lambda k: (k, self[k])))

    def __iter__(self):
        return iter(PList(self.keys_seq()))

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("dict equality")

    __hash__ = None

    def __repr__(self):
        return "<symdict>"


class SymStr(Sym):
    """structured string: pieces are str or (fmt, value)"""

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = out

    def __add__(self, o):
        if isinstance(o, str):
            return SymStr(self.pieces + [o])
        if isinstance(o, SymStr):
            return SymStr(self.pieces + o.pieces)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr([o] + self.pieces)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, str):
            o = SymStr([o])
        if not isinstance(o, SymStr):
            return False
        a, b = list(self.pieces), list(o.pieces)
        if len(a) != len(b):
            # cannot decide in general; strings with different literal skeletons are different when the
            # literal suffix or prefix already differs
            return _skel_diff(a, b)
        r = True
        for x, y in zip(a, b):
            if isinstance(x, str) != isinstance(y, str):
                return _skel_diff(a, b)
            if isinstance(x, str):
                if x != y:
                    return _skel_diff(a, b)
            else:
                if x[0] != y[0]:
                    raise Unsupported("string equality")
                e = x[1] == y[1]
                if e is False:
                    return False
                r = e if r is True else And(r, e)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported("hash of symbolic string")

    def __bool__(self):
        return True

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1:
            raise Unsupported("SymStr.split")
        out, cur = [], []
        for p in self.pieces:
            if isinstance(p, str):
                parts = p.split(sep)
                cur.append(parts[0])
                for q in parts[1:]:
                    out.append(cur)
                    cur = [q]
            else:
                cur.append(p)
        out.append(cur)
        res = []
        for c in out:
            c = [x for x in c if x != ""] if any(not isinstance(x, str) for x in c) else c
            res.append("".join(c) if all(isinstance(x, str) for x in c) else SymStr(c))
        return PList(Conc(res))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.stop is None and i.step is None and isinstance(self.pieces[0], str):
            if isinstance(i.start, int) and 0 <= i.start <= len(self.pieces[0]):
                return SymStr([self.pieces[0][i.start :]] + self.pieces[1:])
        raise Unsupported("SymStr index")

    def to_int(self):
        if len(self.pieces) == 1 and self.pieces[0][0] in ("s", "d", "i"):
            return self.pieces[0][1]
        raise Unsupported("int(SymStr)")

    def endswith(self, suf):
        last = self.pieces[-1]
        if isinstance(last, str) and len(last) >= len(suf):
            return last.endswith(suf)
        raise Unsupported("endswith")

    def startswith(self, pre):
        first = self.pieces[0]
        if isinstance(pre, tuple):
            return any(self.startswith(p) for p in pre)
        if isinstance(first, str):
            if len(first) >= len(pre):
                return first.startswith(pre)
            if not pre.startswith(first):
                return False
        elif pre and not (pre[0].isdigit() or pre[0] == "-"):
            return False  # a formatted int
        raise Unsupported("startswith")

    def __repr__(self):
        return "<symstr %s>" % "".join(p if isinstance(p, str) else "{%s}" % str(getattr(p[1], "t", p[1])) for p in self.pieces)

    def __format__(self, spec):
        return repr(self)


def _skel_diff(a, b):
    if isinstance(a[-1], str) and isinstance(b[-1], str):
        m = min(len(a[-1]), len(b[-1]))
        if a[-1][-m:] != b[-1][-m:]:
            return False
    if isinstance(a[0], str) and isinstance(b[0], str):
        m = min(len(a[0]), len(b[0]))
        if a[0][:m] != b[0][:m]:
            return False
        if (
            len(a) == len(b) == 3 and a[0] == b[0] and all(not isinstance(x[1], str) and x[1][0].endswith("d") for x in (a, b))
            and all(isinstance(x[2], str) and not x[2][0].isdigit() for x in (a, b)) and a[2] != b[2]
        ):
            return False  # the digits end at the same place, what follows is different
        for x, y in ((a, b), (b, a)):
            # literal text in the one where the other has a formatted integer
            if len(x[0]) == m and len(y[0]) > m and len(x) > 1 and not isinstance(x[1], str) and x[1][0].endswith("d"):
                if not (y[0][m].isdigit() or y[0][m] in "- "):
                    return False
    raise Unsupported("equality of differently shaped symbolic strings")
