"""loop contracts and helpers shared by the symbolic property files (s_*.py)"""
from __future__ import annotations
import z3
from pyvc.core import *
from pyvc.core import _coerce
from pyvc.seqs import *
from pyvc.seqs import _simp, _t
from pyvc.helpers import *
from pyvc.helpers import LoopContract, H, SymRandomState
from pyvc.seqs import mkslice, cat


class CumSum(LoopContract):
    """acc (list) is the running cumulative sum of the iterated sequence, starting with one element"""

    name = "cumulative sum"

    def match(self, L):
        self.var = None
        if L.kind not in ("reduce", "for") or L.seq is None:
            return False
        try:
            L.seq.psum(z3.IntVal(0))
        except Unsupported:
            return False
        for k, v in L.env.items():
            if isinstance(v, PList) and v.kind == "list" and v.v.conc_len() == 1:
                if L.kind == "reduce" or k not in L.tnames:
                    self.var = k
                    return True
        return False

    def havoc(self, L):
        old = L[self.var]
        L.ghost("cumsum_src")
        S.g.cumsum_src = L.seq
        if hasattr(L.seq, "psum_step") and S.decide(L.i < L.n):
            L.seq.psum_step(L.i)
        if "start" not in L.data:
            L.data["start"] = old.v.at(z3.IntVal(0))
        new = int_fn("acc", L.i + 1)
        if L.kind == "reduce":
            return {self.var: PList(new)}
        L.modifies(old)
        old.v = new
        return {self.var: old}

    def inv(self, L):
        acc = L[self.var]
        if not isinstance(acc, PList):
            raise Unsupported("cumsum accumulator")
        if "start" not in L.data:
            L.data["start"] = acc.v.at(z3.IntVal(0))
        st = term(L.data["start"])
        yield "length", SymNum(acc.v.n) == SymNum(L.i) + 1
        L.forall(acc, lambda j, v: eq(v, SymNum(st + L.seq.psum(j))), "accumulator is the prefix-sum list")


class Nested(Seq):
    """abstract list of int sequences, known only through the occurrence counts of its concatenation"""

    def __init__(self, n, flat_n, flat_total):
        self.n, self.flat_n, self.flat_total = _t(n), _t(flat_n), flat_total

    def at(self, i):
        raise Unsupported("element of an abstract nested list")

    def append_hook(self, b):
        if not isinstance(b, Conc):
            raise Unsupported("extend of nested list")
        r = self
        for part in b.items:
            p = to_seq(part)
            prev = r

            def ft(e, prev=prev, p=p):
                return prev.flat_total(e) + p.total(e)

            r = Nested(z3.simplify(prev.n + 1), z3.simplify(prev.flat_n + p.n), ft)
        return r

    def flatten(self):
        r = int_fn("concat", self.flat_n)
        ft = self.flat_total
        r.count_total = lambda e: ft(e)
        return r


def nested_of(v):
    """Nested view of a concrete list of sequences"""
    if isinstance(v, Nested):
        return v
    if isinstance(v, Conc):
        return Nested(0, z3.IntVal(0), lambda e: z3.IntVal(0)).append_hook(v)
    raise Unsupported("nested view")


class SymMethodObj:
    """plain attribute bag"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def view_of(res, seq):
    """(lo, hi) such that res == seq[lo:hi]; None for an empty literal; Unsupported if not visibly a slice"""
    v = to_seq(res)
    if v is seq:
        return z3.IntVal(0), seq.n
    if isinstance(v, Slice) and v.s is seq:
        return v.lo, v.hi
    if v.conc_len() == 0:
        return None
    raise Unsupported("result is not visibly a contiguous part of the order")


def skolem_same(a, b, n, label):
    """prove element-wise equality of two sequences of length n by skolemisation"""
    j = S.int("sk", lo=0)
    S.assume(j.t < n)
    S.prove(eq(a.at(j.t), b.at(j.t)), label)


def touch(src, j):
    """
    instantiate what is known about the element at position j of src in everything derived from src on this path
    (filtered, mapped and sorted sequences); returns {id(seq): positions}
    """
    pos = {id(src): [_simp(_t(j))]}
    keep = [src]
    done = set()

    def at(s, d=0):
        if d > 6:
            return []
        if id(s) in pos:
            return pos[id(s)]
        if isinstance(s, MapSeq):
            return at(s.s, d + 1)
        if isinstance(s, Slice):
            return [_simp(p - s.lo) for p in at(s.s, d + 1)]
        if isinstance(s, Rev):
            return [_simp(s.n - 1 - p) for p in at(s.s, d + 1)]
        return []

    for p in pos[id(src)]:
        src.at(p)
    for _ in range(6):
        n = len(done)
        for f in list(S.filters):
            if id(f) in done:
                continue
            ps = at(f.src)
            if ps:
                done.add(id(f))
                pos[id(f)] = []
                for p in ps:
                    f.instantiate(p)
                    f.at(f.rank(p))
                    pos[id(f)].append(_simp(f.rank(p)))
        for r in list(S.sorts):
            if id(r) in done:
                continue
            ps = at(r.sort_src)
            if ps:
                done.add(id(r))
                pos[id(r)] = []
                for p in ps:
                    q = _simp(r.sort_perm.surj(p))
                    r.at(q)
                    pos[id(r)].append(q)
        if len(done) == n:
            break
    return pos
