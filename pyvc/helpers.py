"""runtime helpers the rewritten code calls; on ordinary values they fall through to the native operation"""
from __future__ import annotations
import builtins
import collections
import functools
import itertools
import math
import operator
import sys
import types
import z3
from .core import (
    S, Sym, SymNum, SymBool, SymAtom, Undef, Unsupported, PathEnd, RestartUnit, ProofFailed, term, bterm, mkbool, mknum, And, Or,
    Not, If, Implies, lt, le, eq,
)
from . import seqs
from .seqs import (
    Seq, Conc, Range, SymStepRange, Rep, Cat, Slice, Rev, MapSeq, ZipSeq, Fn, PList, PIter, PSet, PDict, SymStr,
    to_seq, iter_seq, seq_sum, seq_extreme, sorted_seq, contains as seq_contains,
)

_OPS = {
    "Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
    "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow, "BitOr": operator.ior,
    "BitAnd": operator.iand, "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift,
    "MatMult": operator.imatmul,
}


def has_sym(x, d=0):
    if isinstance(x, Sym):
        return True
    if d < 2 and isinstance(x, (list, tuple)):
        return any(has_sym(y, d + 1) for y in x)
    return False


def symlen(x):
    """is x a sequence-like of symbolic (non concrete) length?"""
    if isinstance(x, PList):
        return x.v.conc_len() is None
    if isinstance(x, PIter):
        return z3.simplify(x.s.n - x.pos) is not None and not z3.is_int_value(z3.simplify(x.s.n - x.pos))
    if isinstance(x, (PSet, PDict)):
        return (x.iter_seq() if isinstance(x, PSet) else x.keys_seq()).conc_len() is None
    if isinstance(x, Seq):
        return x.conc_len() is None
    if hasattr(x, "_pv_seq"):
        return x._pv_seq().conc_len() is None
    return False


class _H:
    pass


H = _H()


def h(f):
    setattr(H, f.__name__, f)
    return f


# ---------------------------------------------------------------- containers and subscripts


@h
def mklist(x):
    if not S.active:
        return x
    return PList(Conc(x))


@h
def mkdict(*items):
    if S.active and getattr(S, "use_pdict", False):
        return PDict(items)
    return dict(items)


@h
def mkset(*items):
    if S.active:
        r = PSet()
        for x in items:
            r.add(x)
        return r
    return set(items)


mkslice = h(lambda a, b, c: slice(a, b, c))
H.mkslice = mkslice


@h
def getitem(o, i):
    if not S.active:
        return o[i]
    if isinstance(o, (list, tuple)) and (
        isinstance(i, Sym) or (isinstance(i, slice) and seqs.is_symslice(i)) or isinstance(i, PList)
    ):
        if isinstance(i, SymNum):
            u = S.unique_value(i.t)
            if u is not None:
                return o[u]
        return PList(Conc(o), "tuple" if isinstance(o, tuple) else "list")[i]
    if isinstance(o, range) and (isinstance(i, Sym) or isinstance(i, slice)):
        return PList(to_seq(o))[i]
    if isinstance(o, dict) and isinstance(i, Sym):
        for k in o:
            e = k == i
            if e is True or (e is not False and bool(e)):
                return o[k]
        raise KeyError(i)
    return o[i]


@h
def setitem(o, i, v):
    if S.active and isinstance(i, Sym) and isinstance(o, dict):
        for k in o:
            e = k == i
            if e is True or (e is not False and bool(e)):
                o[k] = v
                return
        raise Unsupported("symbolic key stored in a native dict")
    o[i] = v


@h
def augitem(o, i, op, v):
    if S.active and isinstance(i, slice) and isinstance(o, PList):
        raise Unsupported("augmented slice assignment")
    cur = getitem(o, i)
    setitem(o, i, _OPS[op](cur, v))


@h
def delitem(o, i):
    if S.active and isinstance(i, Sym) and isinstance(o, dict):
        for k in o:
            e = k == i
            if e is True or (e is not False and bool(e)):
                del o[k]
                return
        raise KeyError(i)
    del o[i]


@h
def setattr_(o, name, v):
    if S.active:
        S.attr_log.append((o, name))
    setattr(o, name, v)


@h
def augattr(o, name, op, v):
    if S.active:
        S.attr_log.append((o, name))
    setattr(o, name, _OPS[op](getattr(o, name), v))


@h
def contains(x, o):
    if not S.active:
        return x in o
    if isinstance(o, PList):
        return seq_contains(o.v, x)
    if isinstance(o, PSet):
        return o.has(x)
    if isinstance(x, Sym) and isinstance(o, (set, frozenset, dict, list, tuple)):
        return seq_contains(Conc(list(o)), x)
    if isinstance(x, Sym) and isinstance(o, range):
        return seq_contains(to_seq(o), x)
    return x in o


@h
def iterable(x):
    return x


@h
def fmt(f, a):
    if S.active and has_sym(a):
        args = a if isinstance(a, tuple) else (a,)
        if isinstance(a, dict):
            return "<sym-formatted>"
        return _fmt_struct(f, args)
    if S.active:
        try:
            return f % a
        except TypeError as e:
            if "returned non-string" not in str(e):
                raise
            return SymStr([f.replace("%", ""), ("s", a)])
    return f % a


def _fmt_struct(f, args):
    import re

    pieces = []
    pos = 0
    k = 0
    for m in re.finditer(r"%(%|[-0# +]*\d*(?:\.\d+)?[a-zA-Z])", f):
        pieces.append(f[pos : m.start()])
        pos = m.end()
        if m.group(1) == "%":
            pieces.append("%")
            continue
        if k >= len(args):
            raise TypeError("not enough arguments for format string")
        a = args[k]
        k += 1
        if isinstance(a, SymStr) and m.group(1) == "s":
            pieces.extend(a.pieces)
        elif has_sym(a):
            pieces.append((m.group(1), a))
        else:
            pieces.append(("%" + m.group(1)) % (a,))
    pieces.append(f[pos:])
    if k != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return SymStr(pieces)


@h
def fstr(*parts):
    if S.active and any(isinstance(p, tuple) and has_sym(p[0]) for p in parts):
        pieces = []
        for p in parts:
            if isinstance(p, str):
                pieces.append(p)
            elif isinstance(p[0], SymStr) and not p[2] and p[1] in (-1, 115):
                pieces.extend(p[0].pieces)
            elif has_sym(p[0]):
                pieces.append((p[2] or "s", p[0]))
            else:
                pieces.append(_fmtval(*p))
        return SymStr(pieces)
    try:
        return "".join(p if isinstance(p, str) else _fmtval(*p) for p in parts)
    except TypeError as e:
        if not S.active or "returned non-string" not in str(e):
            raise
        return SymStr([p if isinstance(p, str) else ("s", p[0]) for p in parts])


@h
def strjoin(o, it):
    """o.join(it)"""
    if not S.active or type(o) is not str:
        return o.join(it)
    if symlen(it):
        return SymStr([("join", S.int("joined"))])  # text of unknown length (log output)
    items = list(it)
    if not any(isinstance(x, Sym) for x in items):
        return o.join(items)
    out = SymStr([])
    for k, x in enumerate(items):
        out = out + (o if k else "")
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(x).__name__))
        out = out + x
    return out


def _fmtval(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


# ---------------------------------------------------------------- loops


class NativeLoop:
    cut = False
    __slots__ = ("it", "kind", "where")

    def __init__(self, kind, it, where=None):
        self.kind, self.it, self.where = kind, it, where

    def iter(self):
        if self.kind == "for":
            return iter(self.it)
        if S.active:
            return self._guarded()
        return itertools.repeat(None)

    def _guarded(self):
        k = 0
        p0 = S.pos
        while True:
            k += 1
            if k > 400 or (k > 1 + S.while_unroll and S.pos > p0):
                raise Unsupported("while loop without contract: %s" % (self.where,))
            yield None

    def exit(self):
        pass


class UnrolledLoop(NativeLoop):
    __slots__ = ("seq",)

    def iter(self):
        k = 0
        while S.decide(k < self.seq.n):
            if k >= S.unroll:
                raise PathEnd
            yield self.seq.at(z3.IntVal(k))
            k += 1


class LoopContract:
    """
    subclass/instantiate with:
      match(L) -> bool
      havoc(L) -> dict of new values for locals; may modify declared heap objects in place
      inv(L)   -> iterable of (label, condition)  (condition may be a thunk; L.forall(...) for quantified ones)
    """

    name = "loop"

    def match(self, L):
        return True

    def havoc(self, L):
        return {}

    def inv(self, L):
        return []

    def variant(self, L):
        return None


def _kinds(v):
    """numeric type of a value and the wider one"""
    if isinstance(v, (bool, SymBool)):
        return ("bool",)
    if isinstance(v, int) or (isinstance(v, SymNum) and v.is_int):
        return ("int", "real")
    if isinstance(v, (float, SymNum)):
        return ("real",)
    return ()


class CutLoop:
    cut = True

    def __init__(self, kind, qual, ordn, lineno, seq, names, tnames, env, contract, piter=None):
        self.kind, self.qual, self.ordn, self.lineno = kind, qual, ordn, lineno
        self.seq, self.names, self.tnames, self.env = seq, names, tnames, env
        self.c = contract
        self.piter = piter
        self.base = term(0) if piter is None else piter.pos
        self.i = z3.IntVal(0)
        self.mode = "entry"
        self.pre = dict(env)
        self.allowed = []
        self.allowed_attr = []
        self.ghosts = set()
        self.data = {}
        self.auto = {}

    @property
    def n(self):
        return z3.simplify(self.seq.n - self.base)

    def label(self, what):
        return "%s [%s loop %d, %s]: %s" % (self.qual, self.kind, self.ordn, self.c.name, what)

    # -- contract API
    def __getitem__(self, name):
        try:
            v = self.env[name]
        except KeyError:
            raise Unsupported("loop contract %s: no local %r" % (self.c.name, name))
        return v

    def modifies(self, *objs):
        self.allowed.extend(objs)

    def modifies_attr(self, obj, *names):
        for n in names:
            self.allowed_attr.append((obj, n))

    def ghost(self, *names):
        self.ghosts.update(names)

    def forall(self, seq, pred, label):
        """all elements: pred(j, elem). proved by skolemisation, assumed as element facts."""
        if isinstance(seq, PList):
            seq = seq.v
        if self.mode == "assume":
            seqs.add_elem_fact(seq, pred)
            return
        j = S.int("sk", lo=0)
        if not S.decide(j.t < seq.n):
            # the quantified statement is void on this sub-path
            S.prove(True, self.label(label), kind="invariant")
            return
        S.prove(pred(j.t, seq.at(j.t)), self.label(label), kind="invariant")

    def _run_inv(self, what):
        done = collections.Counter()
        cands = {}
        for item in self.c.inv(self) or ():
            if item is None:
                continue
            lab, cond = item[:2]
            cand = len(item) > 2 and (self.qual, self.ordn, self.c.name, lab)
            if cand and cand in S.dropped:
                continue
            done[lab] += 1
            cands[lab] = cand
            if callable(cond) and not isinstance(cond, (Sym,)):
                cond = cond()
            if self.mode == "assume":
                S.assume(cond)
            elif cand and not S.entails(cond):
                self.drop(cand)
            else:
                S.prove(cond, self.label("%s %s" % (lab, what)), kind="invariant")
        # whatever is assumed for the arbitrary iteration has to be established on entry and re-established:
        # candidates on every path; the other items, which may be guarded by a case distinction, at least on one (see Session.explore)
        key = (self.qual, self.ordn, self.c.name)
        if self.mode == "entry":
            self.proved = done
            S.inv_proved.update(key + (lab,) for lab in done if lab.startswith("initially: "))  # statements about the first iteration only
            return
        if self.mode == "assume":
            self.assumed = (done, cands)
            S.inv_assumed.update(key + (lab,) for lab in done)
            have = self.proved
        else:
            S.inv_ran.add(key)
            S.inv_proved.update(key + (lab,) for lab in done)
            have = done
        for lab, k in self.assumed[0].items():
            if have[lab] < k and self.assumed[1][lab]:
                self.drop(self.assumed[1][lab])

    def drop(self, cand):
        """candidate invariant (an item (label, condition, True) of inv) that does not hold: the unit is explored again without it"""
        S.dropped.add(cand)
        raise RestartUnit

    def shape(self, name, options):
        """candidate shape of a local: the first of options not refuted yet (refute by drop of its key)"""
        for o in options:
            key = (self.qual, self.ordn, self.c.name, "shape", name, o)
            if key not in S.dropped:
                return o, key
        raise Unsupported("no shape for local %s" % name)

    # -- protocol
    def havoc(self):
        key = "%s#%d:%s" % (self.qual, self.ordn, self.c.name)
        S.path_loops.append(key)
        self._run_inv("holds on entry")
        self.mode = "assume"
        S.approx.append("cut " + self.label(""))
        i = S.int("i_" + self.qual.split(".")[-1], lo=0)
        if self.seq is not None:
            S.assume(i.t <= self.n)
        self.i = i.t
        if self.piter is not None:
            self.piter.pos = z3.simplify(self.base + self.i)
            self.modifies(self.piter)
        g0 = dict(S.g.__dict__)
        new = self.c.havoc(self) or {}
        self.env = dict(self.env)
        out = []
        for n in self.names:
            if n in new:
                v = new[n]
            elif n in self.pre and n not in self.tnames:
                v = self._auto(n, self.pre[n])
            else:
                v = Undef(n)
            self.env[n] = v
            out.append(v)
        self._run_inv("assumed")
        if S.evaluating is None and key not in S.loops_passed and S._check(ms=S.prove_ms) != z3.unsat:
            S.loops_passed.add(key)
        S.writes.extend(self.allowed)
        S.attr_log.extend(self.allowed_attr)
        self.w0 = len(S.writes)
        self.a0 = len(S.attr_log)
        self.stamp0 = S.now()
        self.g0 = dict(S.g.__dict__)
        for k, v in g0.items():
            if k not in self.ghosts and S.g.__dict__.get(k) is not v:
                raise Unsupported("ghost %s havocked but not declared" % k)
        self.var0 = self.c.variant(self)
        self.pre_ids = _reach(self.env)
        return tuple(out)

    def _auto(self, n, v):
        """an arbitrary value of the same type, as long as the body keeps the type"""
        for kind in _kinds(v):
            key = (self.qual, self.ordn, self.c.name, "type", n, kind)
            if key not in S.dropped:
                self.auto[n] = kind, key
                return {"bool": S.bool, "int": S.int, "real": S.real}[kind](n)
        return Undef(n)

    def _auto_kept(self):
        for n, (kind, key) in self.auto.items():
            if n in self.env and kind not in _kinds(self.env[n])[: 2 if kind == "real" else 1]:
                self.drop(key)

    def iter(self):
        if self.kind in ("for", "reduce"):
            if not S.decide(self.i < self.n):
                if getattr(self.seq, "infinite", False):
                    raise PathEnd
                if self.piter is not None:
                    self.piter.pos = self.seq.n
                return
            x = self.seq.at(z3.simplify(self.base + self.i))
            if self.piter is not None:
                self.piter.pos = z3.simplify(self.base + self.i + 1)
                S.writes.append(self.piter)
            yield x
        else:
            yield None
        # the body of the arbitrary iteration finished normally (or via continue)
        self.env = dict(sys._getframe(1).f_locals)
        self.i = z3.simplify(self.i + 1)
        self.mode = "prove"
        self._auto_kept()
        self._frame()
        self._run_inv("is preserved")
        if self.var0 is not None:
            v = self.c.variant(self)
            S.prove(And(le(0, self.var0), lt(v, self.var0)), self.label("loop variant decreases"), kind="termination")
        raise PathEnd

    def exit(self):
        pass

    def _frame(self):
        for o in S.writes[self.w0 :]:
            if o.stamp <= self.stamp0 and not any(o is a for a in self.allowed):
                raise Unsupported(self.label("frame: the body writes %s outside the declared frame" % type(o).__name__))
        for o, name in S.attr_log[self.a0 :]:
            if id(o) in self.pre_ids and not any(o is a and name == b for a, b in self.allowed_attr):
                raise Unsupported(self.label("frame: the body assigns .%s outside the declared frame" % name))
        for k, v in S.g.__dict__.items():
            if k not in self.ghosts and self.g0.get(k) is not v:
                raise Unsupported(self.label("frame: ghost %s" % k))


def _reach(env, depth=3):
    seen = {}
    todo = [(v, 0) for v in env.values()]
    while todo:
        o, d = todo.pop()
        if id(o) in seen or isinstance(o, (int, str, float, type(None), type, types.ModuleType, types.FunctionType)):
            continue
        seen[id(o)] = o
        if d >= depth:
            continue
        if isinstance(o, Sym):
            continue
        if isinstance(o, dict):
            todo.extend((x, d + 1) for x in o.values())
        elif isinstance(o, (list, tuple)):
            todo.extend((x, d + 1) for x in o)
        elif hasattr(o, "__dict__"):
            todo.extend((x, d + 1) for x in vars(o).values())
    return seen


def _find_contract(L_args):
    kind, qual, ordn, lineno, seq, names, tnames, env, piter = L_args
    for c in S.loop_contracts:
        L = CutLoop(kind, qual, ordn, lineno, seq, names, tnames, env, c, piter)
        try:
            ok = c.match(L)
        except Unsupported:
            ok = False
        if ok:
            return L
    return None


@h
def loop_begin(kind, qual, ordn, lineno, it, names, tnames):
    if not S.active:
        return NativeLoop(kind, it)
    where = "%s loop %d line %s" % (qual, ordn, lineno)
    if kind in ("for", "reduce"):
        if isinstance(it, LazySum):
            it = it.as_list()
        if not symlen(it):
            if isinstance(it, (PList, PSet, PDict, Seq)) or hasattr(it, "_pv_seq"):
                return NativeLoop("for", list(PList(to_seq(it))), where)
            return NativeLoop("for", it, where)
        piter = it if isinstance(it, PIter) else None
        seq = it.s if piter is not None else to_seq(it)
        env = dict(sys._getframe(1).f_locals)
        L = _find_contract((kind, qual, ordn, lineno, seq, names, tnames, env, piter))
        if L is not None:
            return L
        if isinstance(seq, CountSeq):
            return NativeLoop("for", itertools.count(seq.start0), where)
        if S.unroll:
            S.approx.append("bounded unroll %s" % where)
            u = UnrolledLoop("for", None, where)
            u.seq = seq if piter is None else seqs.mkslice(seq, piter.pos, seq.n)
            return u
        raise Unsupported("no loop contract for %s" % where)
    env = dict(sys._getframe(1).f_locals)
    L = _find_contract((kind, qual, ordn, lineno, None, names, tnames, env, None))
    if L is not None:
        return L
    return NativeLoop("while", None, where)


def reduce_(f, xs, *init):
    if not S.active or not symlen(xs):
        if S.active and isinstance(xs, PList):
            xs = list(xs)
        return functools.reduce(f, xs, *init)
    if not init:
        raise Unsupported("reduce without init over a symbolic sequence")
    acc = init[0]
    L = loop_begin("reduce", "functools.reduce", 1, 0, xs, ("acc",), ())
    if L.cut:
        (acc,) = L.havoc()
    for x in L.iter():
        acc = f(acc, x)
    return acc


# ---------------------------------------------------------------- comprehensions


class LazySum(Sym):
    """a sum nothing is known about: may be added up further, anything decided from it is outside the subset"""

    def _same(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = _same

    def _no(self, *a):
        raise Unsupported("decision on a symbolic sum")

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __index__ = __int__ = __float__ = _no
    __hash__ = object.__hash__


def _probe(s, f, what):
    """safety + purity of the element expression at an arbitrary index; the probe path ends here"""
    if S.evaluating is not None:
        return
    b = S.bool("probe")
    if S.decide(b):
        g = S.int("gen_idx", lo=0)
        S.assume(g.t < s.n)
        w0, t0, a0 = len(S.writes), S.now(), len(S.attr_log)
        g0 = dict(S.g.__dict__)
        f(s.at(g.t))
        for o in S.writes[w0:]:
            if o.stamp <= t0:
                raise Unsupported("comprehension with side effects: " + what)
        if len(S.attr_log) > a0 or S.g.__dict__ != g0:
            raise Unsupported("comprehension with side effects (attr): " + what)
        raise PathEnd


class FilterSeq(Fn):
    """[elt(x) for x in src if cond(x)]: order preserving, exactly the elements with cond"""

    def __init__(self, src, cond, elt):
        self.src, self.cond = src, cond
        n = S.int("filter_n", lo=0)
        S.assume(n.t <= src.n)
        idx = S.func("filter_idx", z3.IntSort(), z3.IntSort())
        rank = S.func("filter_rank", z3.IntSort(), z3.IntSort())
        self.idx, self.rank = idx, rank
        acc = []

        def mk(k):
            return elt(src.at(idx(k)))

        super().__init__(n.t, mk, "filtered")
        self.pre = lambda k: And(idx(k) >= 0, idx(k) < src.n)

        def fact(k, v):
            j = idx(k)
            out = [j >= 0, j < src.n, bterm(cond(src.at(j))), rank(j) == k, j >= k]
            for k2 in acc:
                out.append(z3.Implies(k2 < k, idx(k2) < j))
                out.append(z3.Implies(k < k2, j < idx(k2)))
            acc.append(k)
            return And(*out)

        self.add_fact(fact)
        S.filters.append(self)

        for w in getattr(S.g, "filter_witness", ()):
            self.instantiate(w(src) if callable(w) else w)
        if getattr(S.g, "filter_monotone", False):
            self.monotone()

    def monotone(self):
        """if cond, once true, stays true (or once false, stays false) along the source, by induction the result is a
        suffix (prefix) of the source"""
        n, m = SymNum(self.n), SymNum(self.src.n)
        if S.decide(m >= 2):
            j = S.int("filter_mono", lo=0)
            S.assume(j + 1 < m)
            x, y = self.cond(self.src.at(j.t)), self.cond(self.src.at(seqs._simp(j.t + 1)))
            up, down = S.entails(Implies(x, y)), S.entails(Implies(y, x))
        else:
            up, down = False, True
        if up:
            self.add_fact(lambda k, v: self.idx(k) == m.t - n.t + k)
            out, inn = m - n - 1, m - n
        elif down:
            self.add_fact(lambda k, v: self.idx(k) == k)
            out, inn = n, n - 1
        else:
            return
        if S.decide(And(inn >= 0, inn < m, n > 0)):
            S.assume(self.cond(self.src.at(seqs._simp(inn.t))))
        if S.decide(And(out >= 0, out < m)):
            S.assume(Not(self.cond(self.src.at(seqs._simp(out.t)))))

    def count_facts(self):
        """as many elements as the source iff all of them satisfy cond"""
        w = S.int("filter_out", lo=0)
        S.assume(Implies(self.n < self.src.n, w.t < self.src.n))
        x = self.src.at(w.t)
        S.assume(Implies(self.n < self.src.n, Not(self.cond(x))))
        seqs.add_elem_fact(self.src, lambda j, v: Implies(self.n == self.src.n, self.cond(v)))
        wit = self.src.__dict__.setdefault("_witnesses", [])
        for j in wit:
            self.instantiate(j)
        self.instantiate(w.t)
        wit.append(w.t)

    def instantiate(self, j):
        """completeness at source position j: an element that satisfies cond is in the result"""
        j = term(j)
        c = self.cond(self.src.at(j))
        r = self.rank(j)
        S.assume(Implies(And(j >= 0, j < self.src.n, c), And(r >= 0, r < self.n, self.idx(r) == j)))
        return c, r

    def after(self, j):
        """a kept element at source position j that is not as far from the end in the result: some element after it is not kept"""
        j = term(j)
        c, r = self.instantiate(j)
        w = S.int("filter_gap", lo=0).t
        k = And(j >= 0, j < self.src.n, c, self.n - r != self.src.n - j)
        S.assume(Implies(k, And(self.n - r < self.src.n - j, w > j, w < self.src.n)))
        if S.decide(And(w >= 0, w < self.src.n)):
            S.assume(Implies(k, Not(self.cond(self.src.at(w)))))
        else:
            S.assume(Not(k))

    def before(self, j):
        """a kept element at source position j that is not at j in the result: some element before it is not kept"""
        j = term(j)
        c, r = self.instantiate(j)
        w = S.int("filter_gap", lo=0).t
        k = And(j >= 0, j < self.src.n, c, r != j)
        S.assume(Implies(k, And(r < j, w < j)))
        if S.decide(And(w >= 0, w < self.src.n)):
            S.assume(Implies(k, Not(self.cond(self.src.at(w)))))
        else:
            S.assume(Not(k))


def _freeze(f):
    """the element expression with the variables it captures as they are now (it is evaluated later, on demand)"""
    import types

    if f is None or not getattr(f, "__closure__", None):
        return f
    cells, objs = [], []
    names = set(f.__code__.co_names)
    for c in f.__closure__:
        try:
            v = c.cell_contents
        except ValueError:
            cells.append(c)
            continue
        if isinstance(v, types.FunctionType) and v.__closure__ and v.__name__ == "<lambda>":
            v = _freeze(v)
        cells.append(types.CellType(v))
        objs.append(v)
    new = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    new.__kwdefaults__ = f.__kwdefaults__
    watch = [v for v in objs if isinstance(v, (PList, PSet, PDict))]
    for v in objs:
        if hasattr(v, "__dict__"):
            watch += [x for n, x in list(vars(v).items()) if n in names and isinstance(x, (PList, PSet, PDict))]
    w0, a0 = len(S.writes), len(S.attr_log)

    def call(x):
        if len(S.writes) > w0 and watch:
            for o in S.writes[w0:]:
                if any(o is y for y in watch):
                    raise Unsupported("comprehension reads a container that is changed later")
        if len(S.attr_log) > a0:
            for o, n in S.attr_log[a0:]:
                if n in names and any(o is y for y in objs):
                    raise Unsupported("comprehension reads an attribute that is changed later")
        return new(x)

    return call


@h
def comp(kind, it, elt, cond, qual, lineno):
    if not S.active or not isinstance(it, (Sym, Seq)) and not hasattr(it, "_pv_seq"):
        if kind == "list":
            r = [elt(x) for x in it] if cond is None else [elt(x) for x in it if cond(x)]
            return mklist(r)
        if kind == "gen":
            return (elt(x) for x in it) if cond is None else (elt(x) for x in it if cond(x))
        if kind == "set":
            return mkset(*([elt(x) for x in it] if cond is None else [elt(x) for x in it if cond(x)]))
        items = [elt(x) for x in it] if cond is None else [elt(x) for x in it if cond(x)]
        return mkdict(*items)
    s = iter_seq(it) if isinstance(it, PIter) else to_seq(it)
    c = s.conc_len()
    if c is not None:
        items = [s.at(z3.IntVal(k)) for k in range(c)]
        return comp(kind, items, elt, cond, qual, lineno)
    if S.unroll and not getattr(S, "comp_lazy", True):
        items = list(PList(s)._iter_unroll())
        return comp(kind, items, elt, cond, qual, lineno)
    # user provided contract for a comprehension with effects?
    for cc in S.loop_contracts:
        cm = getattr(cc, "comp", None)
        if cm is not None:
            r = cm(kind, s, elt, cond, qual)
            if r is not None:
                return r
    what = "%s line %s" % (qual, lineno)
    elt, cond = _freeze(elt), _freeze(cond)
    if cond is None:
        _probe(s, elt, what)
        m = MapSeq(s, elt)
    else:
        _probe(s, lambda x: elt(x) if cond(x) else None, what)
        m = FilterSeq(s, lambda x: bsym(cond(x)), elt)
    if kind in ("list", "gen"):
        return PList(m, "list" if kind == "list" else "gen")
    if kind == "set":
        return PSet(base=lambda x: seq_contains(m, x))
    raise Unsupported("dict comprehension over a symbolic iterable")


def bsym(x):
    return x


# ---------------------------------------------------------------- builtins


def _b(name):
    def deco(f):
        setattr(H, "b_" + name, f)
        return f

    return deco


for _n in list(__import__("pyvc.transform", fromlist=["SHADOW"]).SHADOW):
    setattr(H, "b_" + _n, getattr(builtins, _n))


@_b("len")
def b_len(x):
    if S.active and hasattr(x, "_pv_len"):
        return x._pv_len()
    return len(x)


@_b("range")
def b_range(*a):
    if S.active and any(isinstance(x, Sym) for x in a):
        start, stop, step = 0, None, 1
        if len(a) == 1:
            stop = a[0]
        elif len(a) == 2:
            start, stop = a
        else:
            start, stop, step = a
        for x in (start, stop, step):
            if isinstance(x, SymNum) and not x.is_int:
                raise TypeError("'float' object cannot be interpreted as an integer")
            if isinstance(x, float):
                raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(step, SymNum):
            u = S.unique_value(step.t)
            if u is None:
                return PList(SymStepRange(start, stop, step), "range")
            step = u
        return PList(Range(start, stop, step), "range")
    return range(*a)


@_b("int")
def b_int(*a, **k):
    x = a[0] if a else 0
    if isinstance(x, SymNum):
        if x.is_int:
            return x
        return mknum(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if isinstance(x, SymBool):
        return mknum(term(x))
    if isinstance(x, SymStr):
        return x.to_int()
    return int(*a, **k)


@_b("float")
def b_float(*a):
    x = a[0] if a else 0.0
    if isinstance(x, (SymNum, SymBool)):
        t = term(x)
        return SymNum(z3.ToReal(t) if t.sort() == z3.IntSort() else t)
    return float(*a)


@_b("bool")
def b_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], SymNum):
        return mkbool(a[0].t != 0)
    return bool(*a)


@_b("str")
def b_str(*a, **k):
    if a and isinstance(a[0], (SymStr, SymAtom)):
        return a[0]
    if a and isinstance(a[0], Sym):
        return SymStr([("s", a[0])])
    return str(*a, **k)


@_b("repr")
def b_repr(x):
    return repr(x)


@_b("hash")
def b_hash(x):
    return hash(x)


def _extreme(is_max, a, k):
    key = k.get("key")
    if len(a) == 1:
        it = a[0]
        if S.active and isinstance(it, Sym):
            s = iter_seq(it)
            return seq_extreme(s, is_max, key, k.get("default"), "default" in k)
        if S.active:
            it = list(it)
            if any(isinstance(x, Sym) for x in it) or (key and it):
                return seq_extreme(Conc(it), is_max, key, k.get("default"), "default" in k)
        return (max if is_max else min)(it, **k)
    if S.active and any(isinstance(x, Sym) for x in a):
        if any(isinstance(x, float) and math.isinf(x) for x in a):
            out = []
            for x in a:
                if isinstance(x, float) and math.isinf(x):
                    if (x > 0) == is_max:
                        return x
                    continue
                out.append(x)
            a = tuple(out)
            if len(a) == 1:
                return a[0]
        return seq_extreme(Conc(list(a)), is_max, key)
    return (max if is_max else min)(*a, **k)


@_b("min")
def b_min(*a, **k):
    return _extreme(False, a, k)


@_b("max")
def b_max(*a, **k):
    return _extreme(True, a, k)


@_b("sum")
def b_sum(it, start=0):
    if S.active and isinstance(it, Sym):
        s = iter_seq(it)
        if s.conc_len() is None:
            try:
                return seq_sum(s, start)
            except Unsupported:
                return LazySum()
        it = list(PList(s))
    r = start
    for x in it:
        r = r + x
    return r


@_b("sorted")
def b_sorted(it, *, key=None, reverse=False):
    if S.active:
        s = iter_seq(it)
        if s.conc_len() is not None and not has_sym([s.at(z3.IntVal(k)) for k in range(s.conc_len())]):
            return PList(Conc(sorted([s.at(z3.IntVal(k)) for k in range(s.conc_len())], key=key, reverse=bool(reverse))))
        return PList(sorted_seq(s, key, bool(reverse)))
    return sorted(it, key=key, reverse=reverse)


@_b("abs")
def b_abs(x):
    return abs(x)


@_b("list")
def b_list(*a):
    if S.active:
        return PList(iter_seq(a[0]) if a else Conc([]))
    return list(*a)


@_b("tuple")
def b_tuple(*a):
    if S.active and a and isinstance(a[0], Sym):
        s = iter_seq(a[0])
        c = s.conc_len()
        if c is not None:
            return tuple(s.at(z3.IntVal(k)) for k in range(c))
        return PList(s, "tuple")
    return tuple(*a)


@_b("set")
def b_set(*a):
    if S.active:
        r = PSet()
        if a:
            r.update(a[0])
        return r
    return set(*a)


@_b("frozenset")
def b_frozenset(*a):
    if S.active:
        return b_set(*a)
    return frozenset(*a)


@_b("dict")
def b_dict(*a, **k):
    if S.active and (getattr(S, "use_pdict", False) or (a and isinstance(a[0], PDict))):
        r = PDict()
        for o in a:
            r.update(o)
        r.update(**k)
        return r
    return dict(*a, **k)


@_b("enumerate")
def b_enumerate(it, start=0):
    if S.active and isinstance(it, Sym) and not isinstance(it, PIter):
        s = to_seq(it)
        return PList(ZipSeq2([Range(start, SymNum(z3.simplify(term(start) + s.n)), 1), s], s.n))
    return enumerate(it, start)


class ZipSeq2(ZipSeq):
    def __init__(self, ss, n):
        self.ss = ss
        self.n = n


@_b("zip")
def b_zip(*its, **kw):
    if S.active and any(symlen(x) for x in its):
        return PList(ZipSeq([iter_seq(x) for x in its]))
    return zip(*its, **kw)


@_b("reversed")
def b_reversed(x):
    if S.active and isinstance(x, Sym):
        return PList(Rev(to_seq(x)))
    return reversed(x)


def _bool_list(it):
    return iter_seq(it)


@_b("any")
def b_any(it):
    if S.active and isinstance(it, Sym):
        s = iter_seq(it)
        if s.conc_len() is None:
            b = S.bool("any")
            if S.decide(b):
                w = S.int("any_w", lo=0)
                S.assume(w.t < s.n)
                S.assume(bterm(_truth(s.at(w.t))))
                return True
            seqs.add_elem_fact(s, lambda j, x: Not(_truth(x)))
            return False
        it = list(PList(s))
    for x in it:
        if x:
            return True
    return False


@_b("all")
def b_all(it):
    if S.active and isinstance(it, Sym):
        s = iter_seq(it)
        if s.conc_len() is None:
            b = S.bool("all")
            if S.decide(b):
                seqs.add_elem_fact(s, lambda j, x: _truth(x))
                return True
            w = S.int("all_w", lo=0)
            S.assume(w.t < s.n)
            S.assume(Not(_truth(s.at(w.t))))
            return False
        it = list(PList(s))
    for x in it:
        if not x:
            return False
    return True


def _truth(x):
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, SymNum):
        return mkbool(x.t != 0)
    if hasattr(x, "_pv_truth"):
        return x._pv_truth()
    return bool(x)


@_b("map")
def b_map(f, *its):
    if S.active and any(symlen(x) for x in its):
        if len(its) == 1:
            s = iter_seq(its[0])
            _probe(s, f, "map")
            return PList(MapSeq(s, f), "gen")
        z = ZipSeq([iter_seq(x) for x in its])
        g = lambda t: f(*t)
        _probe(z, g, "map")
        return PList(MapSeq(z, g), "gen")
    return map(f, *its)


@_b("filter")
def b_filter(f, it):
    if S.active and symlen(it):
        s = iter_seq(it)
        if f is None:
            f = _truth
        _probe(s, f, "filter")
        return PList(FilterSeq(s, f, lambda x: x), "gen")
    return filter(f, it)


@_b("iter")
def b_iter(*a):
    x = a[0]
    if S.active and isinstance(x, (PList, PSet, PDict)):
        return PIter(to_seq(x))
    if S.active and hasattr(x, "_pv_seq"):
        return PIter(x._pv_seq())
    return iter(*a)


@_b("next")
def b_next(*a):
    if S.active and isinstance(a[0], PList) and a[0].kind == "gen":
        s = a[0].v
        fs = s if isinstance(s, FilterSeq) else None
        if fs is not None and S.decide(fs.src.n > 0):
            fs.instantiate(seqs._simp(fs.src.n - 1))
        if S.decide(s.n > 0):
            r = s.at(z3.IntVal(0))
            if fs is not None:  # nothing before the first element of the result is in it
                w = fs.idx(z3.IntVal(0))
                if S.decide(w > 0):
                    S.assume(Not(fs.cond(fs.src.at(seqs._simp(w - 1)))))
            return r
        if len(a) > 1:
            return a[1]
        raise StopIteration
    return next(*a)


_TYPES = {}


def sym_types(x):
    import numpy

    if isinstance(x, SymNum):
        return (int, numpy.integer) if x.is_int else (float,)
    if isinstance(x, SymBool):
        return (bool, int)
    if isinstance(x, PList):
        import collections.abc

        return {"list": (list, collections.abc.Sequence), "tuple": (tuple, collections.abc.Sequence), "array": (numpy.ndarray,), "range": (range,), "gen": (types.GeneratorType,),
                "deque": (__import__("collections").deque,)}.get(
            x.kind, (list,)
        )
    if isinstance(x, PDict):
        return (dict,)
    if isinstance(x, PSet):
        return (set,)
    if isinstance(x, SymStr):
        return (str,)
    if isinstance(x, SymAtom):
        return (str,) if x.kind == "str" else ()
    if isinstance(x, Undef):
        x._no()
    if hasattr(x, "_pv_types"):
        return x._pv_types()
    return ()


@_b("isinstance")
def b_isinstance(x, t):
    if isinstance(x, Sym):
        ts = sym_types(x)
        flat = []

        def fl(t):
            if isinstance(t, tuple):
                for y in t:
                    fl(y)
            else:
                t = getattr(t, "_pv_real", t)
                flat.append(t if isinstance(t, type) else getattr(t, "__origin__", t))

        fl(t)
        return any(isinstance(c, type) and issubclass(a, c) for a in ts for c in flat)
    if isinstance(t, tuple):
        t = tuple(getattr(y, "_pv_real", y) for y in t)
    else:
        t = getattr(t, "_pv_real", t)
    return isinstance(x, t)


@_b("type")
def b_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        ts = sym_types(a[0])
        if ts:
            return ts[0]
    return type(*a)


@_b("print")
def b_print(*a, **k):
    if S.active:
        return
    print(*a, **k)


@_b("round")
def b_round(x, *a):
    return round(x, *a)


@_b("divmod")
def b_divmod(a, b):
    return divmod(a, b)


@_b("open")
def b_open(*a, **k):
    if S.active and getattr(S, "fs", None) is not None:
        return S.fs.open(*a, **k)
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if S.active and (not isinstance(mode, str) or any(c in mode for c in "wax+")):
        raise Unsupported("open for writing during symbolic execution")
    return open(*a, **k)


# ---------------------------------------------------------------- module stand-ins


class ModProxy:
    """stand-in for a library module: overridden names, everything else is the real module"""

    def __init__(self, real, over):
        object.__setattr__(self, "_pv_mod", real)
        object.__setattr__(self, "_pv_over", over)

    def __getattr__(self, n):
        if S.active:
            o = self._pv_over.get(n)
            if o is None and getattr(S, "mod_over", None):
                o = S.mod_over.get((self._pv_mod.__name__, n))
            if o is not None:
                return o
        return getattr(self._pv_mod, n)

    def __setattr__(self, n, v):
        setattr(self._pv_mod, n, v)

    def __repr__(self):
        return "<proxy %r>" % self._pv_mod


_PROX = {}


@h
def proxied(x):
    if isinstance(x, types.ModuleType):
        p = _PROX.get(x.__name__)
        if p is not None:
            return p
    elif callable(x):
        try:
            p = _PROXF.get(id(x))
        except Exception:
            return x
        if p is not None:
            return p
    return x


_PROXF = {}


def _np_seq(x, kind="array"):
    return PList(iter_seq(x), "array")


def np_arange(*a, **k):
    if any(isinstance(x, Sym) for x in a):
        r = b_range(*a)
        return PList(r.v, "array")
    import numpy

    return numpy.arange(*a, **k)


def np_array(x, *a, **k):
    if isinstance(x, PList) and (x.v.conc_len() is None or has_sym([x.v.at(z3.IntVal(i)) for i in range(x.v.conc_len())])):
        return PList(x.v, "array")
    if isinstance(x, PList):
        x = list(x)
    import numpy

    return numpy.array(x, *a, **k)


def np_concatenate(xs, *a, **k):
    if isinstance(xs, PList):
        s = xs.v
        fl = getattr(s, "flatten", None)
        if fl is not None:
            return PList(fl(), "array")
        if s.conc_len() is not None:
            r = Conc([])
            for i in range(s.conc_len()):
                r = seqs.cat(r, to_seq(s.at(z3.IntVal(i))))
            return PList(r, "array")
        raise Unsupported("concatenate of an abstract list")
    import numpy

    return numpy.concatenate(xs, *a, **k)


def np_argsort(x, *a, kind=None, **k):
    if isinstance(x, PList):
        s = x.v
        src = Range(0, SymNum(s.n), 1) if not z3.is_int_value(s.n) else Range(0, s.n.as_long(), 1)
        p = perm_argsort(s, stable=kind in ("stable", "mergesort"))
        return PList(p, "array")
    import numpy

    return numpy.argsort(x, *a, kind=kind, **k)


def perm_argsort(s, stable):
    """assumed contract of numpy.argsort: permutation of range(len) with keys ordered (ties by index if stable)"""
    p = seqs.perm_range(s.n, "argsort")
    acc = []

    def fact(i, v):
        out = []
        kv = s.at(v.t)
        for j, w, kw in acc:
            out.append(Implies(j < i, And(le(kw, kv), Implies(eq(kw, kv), w.t < v.t) if stable else True)))
            out.append(Implies(i < j, And(le(kv, kw), Implies(eq(kw, kv), v.t < w.t) if stable else True)))
        acc.append((i, v, kv))
        return And(*out) if out else True

    p.add_fact(fact)
    p.argsort_src = s
    return p


def np_cumsum(x, *a, **k):
    if isinstance(x, PList):
        s = x.v
        return PList(Fn(s.n, lambda i: mknum(s.psum(z3.simplify(i + 1))), "cumsum"), "array")
    import numpy

    return numpy.cumsum(x, *a, **k)


class SymRandomState(Sym):
    """numpy.random.RandomState / random.Random with assumed contracts; draws are arbitrary values in range"""

    def __init__(self, seed=None):
        self.seed_ = seed
        self.stamp = 0
        self.draws = 0

    def seed(self, seed=None):
        self.seed_ = seed
        self.draws = 0

    def _det(self, what, arg, mk):
        """a draw is a function of (seed, history): the same first draw for the same seed gives the same value"""
        k = self.draws
        self.draws += 1
        if k == 0 and self.seed_ is not None and isinstance(self.seed_, (int, SymNum)):
            cache = S.divcache.setdefault("rng", [])
            for w, sd, a, r in cache:
                if w == what and S.decide(eq(sd, self.seed_)) and S.decide(eq(a, arg)):
                    return r
            r = mk()
            cache.append((what, self.seed_, arg, r))
            return r
        return mk()

    def permutation(self, x):
        if isinstance(x, (int, SymNum)):
            if not S.decide(term(x) >= 0):
                raise ValueError("negative dimensions")
            return PList(self._det("permutation", x, lambda: seqs.perm_range(term(x), "rndperm")), "array")
        self.draws += 1
        return PList(seqs.perm_of(to_seq(x), "rndperm"), "array")

    def shuffle(self, x):
        self.draws += 1
        if not isinstance(x, PList):
            raise Unsupported("shuffle of %s" % type(x).__name__)
        x.set(perm_generic(x.v))

    def randint(self, lo, hi=None, size=None, **k):
        if size is not None:
            raise Unsupported("randint size")
        if hi is None:
            lo, hi = 0, lo
        r = S.int("rnd")
        S.assume(And(le(lo, r), lt(r, hi)))
        return r

    def randrange(self, lo, hi=None):
        return self.randint(lo, hi)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        r = S.real("rndu")
        S.assume(And(le(lo, r), le(r, hi)))
        return r

    def random(self):
        r = S.real("rndu")
        S.assume(And(le(0, r), lt(r, 1)))
        return r

    random_sample = rand = random


def perm_generic(s):
    p = seqs.perm_range(s.n, "shuf")
    r = Fn(s.n, lambda i: s.at(term(p.at(i))), "shuffled")
    r.perm_src, r.perm = s, p
    r.count_total = lambda e: s.total(e)
    return r


class _NpRandom:
    RandomState = SymRandomState
    default_rng = SymRandomState

    def __getattr__(self, n):
        import numpy

        return getattr(numpy.random, n)


def _np_minmax(is_max):
    def f(a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return _extreme(is_max, (a, b), {})
        import numpy

        return (numpy.maximum if is_max else numpy.minimum)(a, b)

    return f


def np_isnan(x):
    if isinstance(x, SymNum):
        return False
    import numpy

    return numpy.isnan(x)


def np_iinfo(*a):
    import numpy

    return numpy.iinfo(*a)


def m_ceil(x):
    if isinstance(x, SymNum):
        if x.is_int:
            return x
        return mknum(-z3.ToInt(-x.t))
    return math.ceil(x)


def m_floor(x):
    if isinstance(x, SymNum):
        if x.is_int:
            return x
        return mknum(z3.ToInt(x.t))
    return math.floor(x)


def m_isfalse(real):
    def f(x):
        if isinstance(x, SymNum):
            return False
        return real(x)

    return f


def m_isfinite(x):
    if isinstance(x, SymNum):
        return True
    return math.isfinite(x)


def bisect_right(a, x, lo=0, hi=None, *, key=None):
    """assumed contract of bisect.bisect_right: insertion point in a sorted sequence"""
    import bisect

    if not (isinstance(a, PList) or isinstance(x, Sym)):
        return bisect.bisect_right(a, x, lo, hi, key=key)
    return _bisect(to_seq(a), x, lo, hi, True, key)


def bisect_left(a, x, lo=0, hi=None, *, key=None):
    import bisect

    if not (isinstance(a, PList) or isinstance(x, Sym)):
        return bisect.bisect_left(a, x, lo, hi, key=key)
    return _bisect(to_seq(a), x, lo, hi, False, key)


def _bisect(s, x, lo, hi, right, key):
    if hi is not None or lo != 0:
        raise Unsupported("bisect lo/hi")
    kf = key or (lambda v: v)
    c = s.conc_len()
    if c is not None and c <= 4:  # exact for short lists (in a sorted list it is the first position not before x)
        k = 0
        while k < c and (le(kf(s.at(z3.IntVal(k))), x) if right else lt(kf(s.at(z3.IntVal(k))), x)):
            k += 1
        return k
    k = S.int("bisect", lo=0)
    S.assume(k.t <= s.n)
    if S.decide(k.t > 0):
        v = kf(s.at(z3.simplify(k.t - 1)))
        S.assume(le(v, x) if right else lt(v, x))
    if S.decide(k.t < s.n):
        v = kf(s.at(k.t))
        S.assume(lt(x, v) if right else le(x, v))
    return k


def it_accumulate(xs, func=None, *, initial=None):
    if S.active and symlen(xs):
        if func is not None and func is not operator.add:
            raise Unsupported("accumulate func")
        s = iter_seq(xs)
        if initial is None:
            return PList(Fn(s.n, lambda i: mknum(s.psum(z3.simplify(i + 1))), "acc"), "gen")
        return PList(Fn(z3.simplify(s.n + 1), lambda i: mknum(s.psum(i) + term(initial)), "acc"), "gen")
    return itertools.accumulate(xs, func, initial=initial)


class CountSeq(Range):
    """itertools.count: unbounded"""

    infinite = True

    def __init__(self, start):
        n = S.int("count_n", lo=0)
        super().__init__(start, SymNum(z3.simplify(term(start) + n.t)), 1)
        self.start0 = start


def it_count(start=0, step=1):
    if S.active and isinstance(step, int) and step == 1:
        return PList(CountSeq(start), "gen")
    return itertools.count(start, step)


def it_islice(it, *a):
    """islice(it, stop), consumed at once (list(...) or extend(...))"""
    if S.active and len(a) == 1 and isinstance(it, (PIter, PList)):
        if isinstance(it, PList):
            it = PIter(it.v)
        rest = seqs._simp(it.s.n - it.pos)
        m = term(a[0])
        if S.decide(m < 0):
            raise ValueError("Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
        end = it.s.n if S.decide(m >= rest) else seqs._simp(it.pos + m)
        r = seqs.mkslice(it.s, it.pos, end)
        it.pos = end
        it._log()
        return PList(r, "gen")
    return itertools.islice(it, *a)


def collections_deque(*a, maxlen=None):
    if maxlen is not None:
        raise Unsupported("deque maxlen")
    return PList(iter_seq(a[0]) if a else Conc([]), "deque")


def _setup():
    import numpy
    import functools as ft
    import bisect
    import random
    import copy
    import collections
    import os
    import shutil
    import time
    import tempfile

    _PROX["numpy"] = ModProxy(
        numpy,
        {
            "arange": np_arange, "array": np_array, "asarray": np_array, "concatenate": np_concatenate,
            "argsort": np_argsort, "cumsum": np_cumsum, "random": _NpRandom(), "maximum": _np_minmax(True),
            "minimum": _np_minmax(False), "isnan": np_isnan,
            "max": lambda x, *a, **k: b_max(x) if isinstance(x, PList) else numpy.max(x, *a, **k),
            "min": lambda x, *a, **k: b_min(x) if isinstance(x, PList) else numpy.min(x, *a, **k),
            "sum": lambda x, *a, **k: b_sum(x) if isinstance(x, PList) else numpy.sum(x, *a, **k),
        },
    )
    _PROX["functools"] = ModProxy(ft, {"reduce": reduce_})
    _PROX["math"] = ModProxy(
        math,
        {
            "ceil": m_ceil, "floor": m_floor, "isinf": m_isfalse(math.isinf), "isnan": m_isfalse(math.isnan),
            "isfinite": m_isfinite,
        },
    )
    _PROX["bisect"] = ModProxy(
        bisect, {"bisect": bisect_right, "bisect_right": bisect_right, "bisect_left": bisect_left}
    )
    _PROX["itertools"] = ModProxy(itertools, {"accumulate": it_accumulate, "count": it_count, "islice": it_islice})
    _PROX["random"] = ModProxy(random, {"Random": SymRandomState})
    _PROX["collections"] = ModProxy(collections, {"deque": collections_deque})
    for m in (os, shutil, time, tempfile, os.path):
        nm = m.__name__ if m is not os.path else "os.path"
        _PROX[m.__name__] = ModProxy(m, {})
    _PROX["os"]._pv_over["path"] = ModProxy(os.path, {})
    for mod, names in (("functools", ["reduce"]), ("random", ["Random"])):
        pass

    class RandomClassProxy:
        _pv_real = random.Random

        def __call__(self, *a):
            if S.active:
                return SymRandomState(*a)
            return random.Random(*a)

    _PROXF[id(random.Random)] = RandomClassProxy()
    _PROXF[id(functools.reduce)] = reduce_
    _PROXF[id(bisect.bisect_right)] = lambda *a, **k: (bisect_right if S.active else bisect.bisect_right)(*a, **k)
    _PROXF[id(bisect.bisect_left)] = lambda *a, **k: (bisect_left if S.active else bisect.bisect_left)(*a, **k)
    _PROXF[id(itertools.accumulate)] = it_accumulate
    _PROXF[id(itertools.count)] = it_count
    _PROXF[id(itertools.islice)] = it_islice
    _PROXF[id(math.ceil)] = m_ceil

    class DequeProxy:
        _pv_real = collections.deque

        def __call__(self, *a, **k):
            if S.active:
                return collections_deque(*a, **k)
            return collections.deque(*a, **k)

        def __getitem__(self, k):
            return collections.deque[k]

    _PROXF[id(collections.deque)] = DequeProxy()


_setup()
