from props.lib import *
from props.lib import _t, _simp
from props.s_P04 import Arr, Scalar, Rec, stream, NDF
import returnn.torch.data.pipeline as TP
import returnn.torch.data.returnn_dataset_wrapper as TW
import returnn.datasets.postprocessing as PP
from returnn.util.basic import NumbersDict
from pyvc.seqs import PIter
import sys as _sys

F = "returnn/torch/data/pipeline.py:"
PF = "returnn/datasets/postprocessing.py:"


# ---------------------------------------------------------------- length filter


class Filter(LoopContract):
    """every iteration gives out the current sequence exactly if it is within the limits"""

    name = "length filter"

    def match(self, L):
        return L.kind == "for" and L.seq is S.g.stream

    def havoc(self, L):
        S.g.i = L.i
        S.g.out = 0
        L.ghost("i", "out")
        return {}

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            yield "a sequence is given out exactly if it is within the limits", eq(g.out, If(g.passes(g.i), 1, 0))


def u_filter(keys, mins, maxs):
    def un():
        g = S.g
        n = S.int("n", lo=0)
        S.inputs["n"] = n
        g.stream, g.ln = stream(n, keys)
        g.i, g.out = z3.IntVal(0), 0
        g.mn = {k: S.int("min_" + k, lo=0) for k in mins}
        g.mx = {k: S.int("max_" + k, lo=0) for k in maxs}
        S.inputs.update({"min_" + k: v for k, v in g.mn.items()})
        S.inputs.update({"max_" + k: v for k, v in g.mx.items()})
        lo = lambda k: g.mn.get(k, g.mn.get("*"))
        hi = lambda k: g.mx.get(k, g.mx.get("*"))
        g.passes = lambda i: And(*[x for k in keys for x in
                                   ([g.ln(k, i) >= lo(k)] if lo(k) is not None else []) + ([g.ln(k, i) <= hi(k)] if hi(k) is not None else [])])
        if not maxs:  # "no limit" is sys.maxsize
            add_elem_fact(g.stream, lambda j, v: And(*[g.ln(k, j) <= _sys.maxsize for k in keys]))
        arg = lambda d: None if not d else d["*"] if "*" in d else dict(d)
        pipe = TP.LenFilterDataPipe(PList(g.stream), min_seq_length=arg(g.mn), max_seq_length=arg(g.mx))
        S.reachable()
        for d in TP.LenFilterDataPipe.__iter__(pipe):
            S.prove(d.k == g.i, "the current sequence is given out")
            g.out += 1
        S.prove(_t(g.i) == n.t, "the whole stream is read")

    return un


# ---------------------------------------------------------------- bucket batching


class Buckets(LoopContract):
    """
    ghost: K_b(j) is the position in the stream of the j-th sequence put in bucket b, c_b of them so far, E_b given out.
    bucket b holds K_b[E_b:c_b]
    """

    name = "buckets"

    def match(self, L):
        if L.kind != "for" or L.seq is not S.g.stream:
            return False
        bs = [k for k, v in L.pre.items() if isinstance(v, PList) and v.v.conc_len() == S.g.nb and all(isinstance(x, PList) for x in v.v.items)]
        if len(bs) != 1:
            return False
        self.b = bs[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("E", "c", "i", "put", "given")
        g.i, g.put, g.given = L.i, 0, []
        g.E = [S.int("E%d" % b, lo=0).t for b in range(g.nb)]
        g.c = [S.int("c%d" % b, lo=0).t for b in range(g.nb)]
        lists = L.pre[self.b]
        new = []
        for b in range(g.nb):
            S.assume(And(g.E[b] <= g.c[b], g.c[b] - g.E[b] < _t(g.size[b])))
            E, c = g.E[b], g.c[b]

            def mk(j, b=b, E=E, c=c):
                q = g.K[b](_simp(E + j))
                S.assume(And(q >= 0, q < L.i))
                S.assume(g.ln(g.key, q) <= g.lim[b])
                return g.stream.at(q)

            pl = PList(Fn(_simp(c - E), mk, "bucket%d" % b))
            L.modifies(pl)
            new.append(pl)
        lists.v = Conc(new)
        L.modifies(lists)
        out = {}
        for k, v in L.pre.items():  # statistics: counters per bucket
            if isinstance(v, PList) and v is not lists and v.v.conc_len() == g.nb and all(isinstance(x, (int, SymNum)) for x in v.v.items):
                L.modifies(v)
                v.v = Conc([S.int("cnt") for _ in range(g.nb)])
        return out

    def inv(self, L):
        g = S.g
        lists = L[self.b]
        v = to_seq(lists)
        if v.conc_len() != g.nb:
            raise Unsupported("buckets")
        for b in range(g.nb):
            s = to_seq(v.at(z3.IntVal(b)))
            if L.mode == "prove":
                added = _simp(s.n - (g.c[b] - g.E[b]))
                if S.decide(added > 0):
                    S.assume(g.K[b](g.c[b]) == g.i)
                    g.put = g.put + 1
                    g.c[b] = _simp(g.c[b] + 1)
            if L.mode != "assume":
                yield "number of sequences waiting in a bucket", s.n == g.c[b] - g.E[b]
                yield "a bucket never waits full", s.n < _t(g.size[b])
                j = S.int("skb", lo=0)
                if S.decide(j.t < s.n):
                    e = s.at(j.t)
                    yield "a bucket holds the sequences put in it and not yet given out, in order", e.k == g.K[b](_simp(g.E[b] + j.t))
                    yield "sequences fit their bucket", g.ln(g.key, e.k) <= g.lim[b]
        if L.mode == "prove":
            yield "a batch given out is not touched any more", all(b.v is v_ and all(v.at(z3.IntVal(q)) is not b for q in range(g.nb)) for b, v_ in g.given)
            yield "every sequence that fits some bucket is put in exactly one", eq(g.put, If(g.ln(g.key, g.i) <= g.lim[-1], 1, 0))


def u_buckets(nb, rnd):
    def un():
        g = S.g
        n = S.int("n", lo=0)
        S.inputs["n"] = n
        g.nb, g.key = nb, "data"
        g.stream, g.ln = stream(n, ["data"])
        g.lim = [S.int("lim%d" % b, lo=1) for b in range(nb)]
        g.size = [S.int("size%d" % b, lo=1) for b in range(nb)]
        for a, b in zip(g.lim, g.lim[1:]):
            S.assume(a < b)
        S.inputs.update({"lim%d" % b: v for b, v in enumerate(g.lim)})
        S.inputs.update({"size%d" % b: v for b, v in enumerate(g.size)})
        g.K = [S.func("K%d" % b, z3.IntSort(), z3.IntSort()) for b in range(nb)]
        g.E, g.c, g.i, g.put, g.given = [z3.IntVal(0)] * nb, [z3.IntVal(0)] * nb, z3.IntVal(0), 0, []
        prob = S.real("prob") if rnd else 0.0
        if rnd:
            S.assume(And(prob > 0, prob <= 1))
        order = list(zip(g.lim, g.size))
        pipe = TP.BucketOrderingIterDataPipe(PList(g.stream), buckets=order[::-1], length_key="data", random_bucket_prob=prob, seed=3)
        S.reachable()
        for batch in TP.BucketOrderingIterDataPipe.__iter__(pipe):
            on_bucket(batch)
            if isinstance(batch, PList):
                g.given = g.given + [(batch, batch.v)]
        S.prove(_t(g.i) == n.t, "the whole stream is read")
        untouched()
        for b in range(nb):
            S.prove(g.E[b] == g.c[b], "every sequence put in a bucket is given out")

    return un


def untouched():
    S.prove(all(b.v is v for b, v in S.g.given), "a batch given out is not touched any more")


def can_prove(c):
    """does c hold on this path (a query, no obligation)"""
    c = And(c)
    if isinstance(c, bool):
        return c
    return S.entails(c)


def on_bucket(batch):
    g = S.g
    v = to_seq(batch)
    S.prove(v.n >= 1, "no empty batch")
    j = S.int("jb", lo=0)
    S.assume(j.t < v.n)
    e = v.at(j.t)
    # which bucket: the one whose waiting sequences (possibly with the current one) these are
    first = v.at(z3.IntVal(0))
    for b in range(g.nb):
        for extra in (0, 1):
            if can_prove(And(v.n == _simp(g.c[b] + extra - g.E[b]), And(first.k == g.K[b](g.E[b])) if not (extra and can_prove(g.c[b] == g.E[b])) else first.k == g.i)):
                if extra:
                    if not can_prove(v.at(_simp(v.n - 1)).k == g.i):
                        continue
                    S.assume(g.K[b](g.c[b]) == g.i)
                    g.put = g.put + 1
                    g.c = [x if q != b else _simp(x + 1) for q, x in enumerate(g.c)]
                S.prove(e.k == g.K[b](_simp(g.E[b] + j.t)), "a batch is the content of one bucket, in order")
                S.prove(v.n <= _t(g.size[b]), "at most the configured number of sequences of the bucket")
                S.prove(g.ln(g.key, e.k) <= g.lim[b], "only sequences within the length of the bucket")
                g.E = [x if q != b else _simp(x + v.n) for q, x in enumerate(g.E)]
                return
    S.prove(False, "a batch is the content of one bucket")


# ---------------------------------------------------------------- windowed reordering (ShufflingDataPipe, LaplaceOrdering)


class Window(LoopContract):
    """outer loop: the window holds stream[out:pos] unchanged, at most size, less only at the end of the stream; nothing else is pending"""

    name = "window"

    def match(self, L):
        if L.kind != "while":
            return False
        its = [k for k, v in L.pre.items() if isinstance(v, PIter) and v.s is S.g.stream]
        if len(its) != 1:
            return False
        self.it = its[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("out", "p", "down", "blk", "i", "q", "written")
        it = L.pre[self.it]
        g.out, g.p = S.int("out", lo=0).t, S.int("pos", lo=0).t
        S.assume(And(g.out <= g.p, g.p <= g.stream.n))
        it.pos = g.p
        L.modifies(it)
        g.down = S.bool("down")
        new = g.set_window(L, mkslice(g.stream, g.out, g.p))
        if self.flag(L):
            new[self.flag(L)] = S.bool("ended")
        return new

    def flag(self, L):
        fl = [k for k in L.names if isinstance(L.pre.get(k), (bool, SymBool))]
        if len(fl) > 1:
            fl = [k for k in fl if any(w in k.lower() for w in ("end", "done", "finish", "stop", "exhaust", "eof"))]
        return fl[0] if len(fl) == 1 else None

    def inv(self, L):
        g = S.g
        it = L[self.it]
        p = it.pos
        m = SymNum(_simp(p - g.out))
        yield "given out is a prefix of what is read", And(g.out >= 0, g.out <= p, p <= g.stream.n)
        yield "the window is at most the buffer size", m <= g.size
        yield "a smaller window only at the end of the stream", Or(m >= g.size, p == g.stream.n)
        if L.mode != "assume":
            w = to_seq(g.get_window(L))
            yield "the window holds what is read and not given out", eq(SymNum(w.n), m)
            j = S.int("skw", lo=0)
            if S.decide(j.t < w.n):
                yield "the window is the pending part of the stream", w.at(j.t).k == _simp(g.out + j.t)
            nxt = g.get_next(L)
            if nxt is not None:
                yield "nothing else is pending", SymNum(to_seq(nxt).n) == 0
        f = self.flag(L)
        if f:
            yield "end flag only at the end", Implies(L[f], p == g.stream.n)
        for x in g.extra_inv(L):
            yield x


class Emit(LoopContract):
    """inner loop: block[0:i] given out; the next window is what was read meanwhile"""

    name = "give out a window"

    def match(self, L):
        g = S.g
        if L.kind != "for" or not isinstance(L.seq, Seq):
            return False
        its = [k for k, v in L.pre.items() if isinstance(v, PIter) and v.s is g.stream]
        if len(its) != 1 or getattr(g, "zip_", None) is not None and isinstance(L.seq, ZipSeq):
            return False
        self.it = its[0]
        flags = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), (bool, SymBool))]
        if len(flags) > 1:
            return False
        self.flag = flags[0] if flags else None
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("out", "blk", "i", "q")
        it = L.pre[self.it]
        p0 = it.pos
        L.data.update(p0=p0, out0=g.out)
        m = S.int("read", lo=0).t
        S.assume(And(m <= L.i, p0 + m <= g.stream.n))
        it.pos = _simp(p0 + m)
        L.modifies(it)
        g.blk, g.i, g.q = L.seq, L.i, g.out
        g.out = _simp(g.q + L.i)
        new = g.set_next(L, mkslice(g.stream, p0, _simp(p0 + m)))
        L.data["m"] = m
        if self.flag:
            new[self.flag] = S.bool("ended")
        return new

    def inv(self, L):
        g = S.g
        if L.mode == "entry":
            check_block(L.seq, g.out, L[self.it].pos)
            L.data.update(p0=L[self.it].pos, out0=g.out)
        p0 = L.data["p0"]
        pos = L[self.it].pos
        m = _simp(pos - p0)
        i = L.i
        yield "each of the window given out once", g.out == _simp(L.data["out0"] + i)
        yield "one sequence is read per sequence given out, until the end", Or(m == i, And(m <= i, pos == g.stream.n))
        if self.flag:
            f = L[self.flag]
            yield "end flag only at the end", Implies(f, pos == g.stream.n)
            yield "the end is noticed when a read fails", Implies(mkbool(m < i), f)
        nxt = g.get_next(L)
        if L.mode != "assume":
            s = to_seq(nxt)
            yield "what is read goes to the next window", s.n == m
            j = S.int("skn", lo=0)
            if S.decide(j.t < s.n):
                yield "what is read goes to the next window, in order", s.at(j.t).k == _simp(p0 + j.t)


def check_block(s, q, p):
    """s is a rearrangement of stream[q:p]"""
    g = S.g
    src = getattr(s, "perm_src", None)
    if src is None:
        src = getattr(s, "sort_src", None)
    if src is None:
        src = s
    if getattr(g, "zip_", None) and src is not s and hasattr(s, "sort_rev"):
        S.prove(eq(mkbool(z3.BoolVal(bool(s.sort_rev))), g.down), "sorted up and down alternating")
        g.down = Not(g.down)
    S.prove(src.n == _simp(p - q), "the window is given out completely")
    j = S.int("skblk", lo=0)
    if S.decide(j.t < src.n):
        S.prove(src.at(j.t).k == _simp(q + j.t), "a window is given out as a rearrangement of its sequences")


def on_item(x):
    g = S.g
    S.prove(x.k == g.blk.at(g.i).k, "the sequences of the window are given out one by one")
    g.out = _simp(g.out + 1)


def u_shuffle():
    g = S.g
    n, size = S.int("n", lo=0), S.int("buffer_size", lo=1)
    S.inputs.update(n=n, buffer_size=size)
    g.size = size
    g.stream, g.ln = stream(n, ["data"])
    g.out, g.p, g.blk, g.i, g.q, g.down = z3.IntVal(0), z3.IntVal(0), None, None, None, None
    g.extra_inv = lambda L: ()
    pipe = TP.ShufflingDataPipe(PList(g.stream), buffer_size=size, monotonic_data_keys=[], seed=5)
    names = ("_buffer", "_next_buffer")

    def setw(L, s):
        for k in names:
            if not hasattr(pipe, k):
                raise Unsupported("buffers of the shuffling")
            L.modifies_attr(pipe, k)
        pipe._buffer, pipe._next_buffer = PList(s), PList(Conc([]))
        L.modifies(pipe._buffer, pipe._next_buffer)
        return {}

    def setn(L, s):
        pipe._next_buffer.v = s
        L.modifies(pipe._next_buffer)
        return {}

    g.set_window, g.set_next = setw, setn
    g.get_window = lambda L: pipe._buffer
    g.get_next = lambda L: pipe._next_buffer
    S.reachable()
    for x in TP.ShufflingDataPipe.__iter__(pipe):
        on_item(x)
    S.prove(g.out == g.stream.n, "every sequence of the stream is given out")


class Frac:
    """data["complete_frac"] of an abstract sequence: value is a stream position, writes are recorded"""

    def __init__(self, k):
        self.__dict__["k"] = k

    def __getattr__(self, a):
        if a == "raw_tensor":
            return SymNum(self.k)
        raise AttributeError(a)

    def __setattr__(self, a, v):
        if a != "raw_tensor":
            raise Unsupported("write to complete_frac.%s" % a)
        S.g.written.append((self.k, v))


class TD:
    def __init__(self, k, n):
        self.k = k
        self.data = {"complete_frac": Frac(k), "data": SymMethodObj(raw_tensor=Arr(n))}


class KeepFrac(LoopContract):
    """the j-th sequence of the sorted window gets the j-th complete_frac value"""

    name = "complete_frac keeps its order"

    def match(self, L):
        return L.kind == "for" and isinstance(L.seq, ZipSeq)

    def havoc(self, L):
        S.g.written = []
        L.ghost("written")
        return {}

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            j = _simp(L.i - 1)
            a = L.seq.at(j)
            td = [x for x in a if isinstance(x, TD)]
            if len(td) != 1:
                raise Unsupported("complete_frac loop")
            yield "one value is set per sequence", len(g.written) == 1
            if len(g.written) == 1:
                k, v = g.written[0]
                yield "on the sequence at this position", k == td[0].k
                yield "the value at this position before reordering", eq(v, SymNum(_simp(g.out + j)))


def u_laplace():
    g = S.g
    n, size = S.int("n", lo=0), S.int("num_seqs_per_bin", lo=1)
    S.inputs.update(n=n, buffer_size=size)
    g.size = size
    ln = S.func("len", z3.IntSort(), z3.IntSort())

    def mk(k):
        S.assume(ln(_t(k)) >= 0)
        return TD(_t(k), SymNum(ln(_t(k))))

    g.stream = Fn(n.t, mk, "stream")
    g.ln = lambda k: SymNum(ln(_t(k)))
    g.out, g.p, g.blk, g.i, g.q, g.down, g.written, g.zip_ = z3.IntVal(0), z3.IntVal(0), None, None, None, False, [], True

    def find(L, kind):
        ls = [k for k, v in L.pre.items() if isinstance(v, PList) and not k.startswith("complete")]
        return ls

    def setw(L, s):
        cand = [k for k in L.names if isinstance(L.pre.get(k), PList)]
        fl = [k for k in L.names if isinstance(L.pre.get(k), (bool, SymBool))]
        if len(cand) != 1:
            raise Unsupported("window of the ordering")
        g.__dict__["wname"] = cand[0]
        new = {cand[0]: PList(s)}
        L.modifies(new[cand[0]])
        for k in fl:
            new[k] = S.bool(k)
        L.ghost("wname")
        return new

    def getw(L):
        w = getattr(g, "wname", None)
        if w is None:
            cand = [k for k in L.names if isinstance(L.pre.get(k), PList)]
            if len(cand) != 1:
                raise Unsupported("window of the ordering")
            w = cand[0]
        return L[w]

    g.set_window, g.get_window = setw, getw
    g.get_next_outer = None

    def nname(L):
        # the list being filled in the inner loop: empty before it
        c = [k for k, v in L.pre.items() if isinstance(v, PList) and v.v.conc_len() == 0]
        if len(c) != 1:
            raise Unsupported("next window of the ordering")
        return c[0]

    def setn(L, s):
        k = nname(L)
        L.pre[k].v = s
        L.modifies(L.pre[k])
        L.data["nn"] = k
        return {}

    def getn(L):
        if L.kind == "while":
            return None
        k = L.data.get("nn")
        return L[k] if k else L[nname(L)]

    g.set_next, g.get_next = setn, getn

    def phase(L):
        fl = [k for k in L.names if isinstance(L.pre.get(k), (bool, SymBool)) and k != Window.flag(None, L)]
        if len(fl) == 1:
            yield "sorted up and down alternating", eq(L[fl[0]], g.down)

    g.extra_inv = phase
    lo = PP.LaplaceOrdering(num_seqs_per_bin=size, length_key="data")
    S.reachable()
    for x in lo(PList(g.stream)):
        on_item(x)
        # within a window: monotone, direction alternating
        s = g.blk
        if getattr(s, "sort_src", None) is not None:
            if S.decide(And(g.i + 1 < s.n)):
                a, b = g.ln(s.at(g.i).k), g.ln(s.at(_simp(g.i + 1)).k)
                S.prove(Or(And(Not(mkbool(z3.BoolVal(bool(s.sort_rev)))), a <= b), And(mkbool(z3.BoolVal(bool(s.sort_rev))), a >= b)), "a bin is sorted by length")
    S.prove(g.out == g.stream.n, "every sequence of the stream is given out")


# ---------------------------------------------------------------- dataset wrapper


class ReadAll(LoopContract):
    name = "all sequences of the dataset"

    def match(self, L):
        if L.kind != "while":
            return False
        c = [k for k in L.names if isinstance(L.pre.get(k), (int, SymNum)) and not isinstance(L.pre.get(k), bool)]
        return len(c) >= 1

    def havoc(self, L):
        g = S.g
        L.ghost("out", "frac", "loaded")
        g.out = S.int("out", lo=0).t
        g.loaded = None
        g.frac = S.real("lastfrac")
        S.assume(Or(g.frac == -1, And(g.frac >= 0, g.frac <= 1)))
        new = {}
        for k in L.names:
            v = L.pre.get(k)
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, SymNum)):
                new[k] = SymNum(g.out) if eq_is(v, 0) else g.frac
        return new

    def inv(self, L):
        g = S.g
        yield "given out is a prefix of the sequences", And(g.out >= 0, g.out <= _t(g.n))
        if L.mode != "assume":
            vs = [L[k] for k in L.names if isinstance(L.pre.get(k), (int, SymNum)) and not isinstance(L.pre.get(k), bool) and eq_is(L.pre.get(k), 0)]
            for v in vs:
                yield "next sequence is the number given out", eq(v, SymNum(g.out))


def eq_is(v, c):
    r = eq(v, c)
    return r is True or (isinstance(r, SymBool) and z3.is_true(z3.simplify(r.t)))


class ArrData:
    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def u_wrapper(known):
    """ReturnnDatasetIterDataPipe: every sequence once, in order, with its own data, tag and index"""

    def un():
        g = S.g
        g.n = S.int("num_seqs", lo=0)
        S.inputs["n"] = g.n
        g.out, g.frac, g.loaded = z3.IntVal(0), SymNum(z3.RealVal(-1)), None
        nonef = S.bool("no_frac")
        fr = S.func("frac", z3.IntSort(), z3.RealSort())

        class DS:
            epoch = 3

            @property
            def num_seqs(self):
                if not known:
                    raise NotImplementedError
                return g.n

            def get_data_keys(self):
                return ["data", "classes"]

            def is_less_than_num_seqs(self, i):
                return i < g.n

            def load_seqs(self, a, b):
                S.prove(And(a >= 0, a <= SymNum(g.out), b >= SymNum(g.out) + 1), "the sequence is loaded before it is read")
                g.loaded = (a, b)

            def get_data(self, i, key):
                S.prove(g.loaded is not None, "loaded before reading")
                return ArrData(("data", key), i)

            def get_tag(self, i):
                return ArrData(("tag",), i)

            def get_complete_frac(self, i, **kw):
                S.prove(kw == dict(allow_only_lr_suitable=True), "only fractions suitable for the learning rate")
                if S.decide(nonef):
                    return None
                r = SymNum(fr(_t(i)))
                S.assume(And(r >= 0, r <= 1, r >= g.frac))
                g.frac = r
                return r

        pipe = TW.ReturnnDatasetIterDataPipe(DS(), reset_callback=lambda: None)
        saved = TW.str_to_numpy_array, TW.numpy, TW.better_exchook
        TW.better_exchook = lambda *a, **k: None
        TW.str_to_numpy_array = lambda x: ArrData(("np",) + x.kind, x.v)
        TW.numpy = SymMethodObj(array=lambda x, dtype=None: ArrData(("array",), x), float32="float32")
        try:
            S.reachable()
            for d in TW.ReturnnDatasetIterDataPipe.__iter__(pipe):
                o = SymNum(g.out)
                for k in ("data", "classes"):
                    S.prove(d[k].kind == ("data", k), "data under its own key")
                    S.prove(eq(d[k].v, o), "sequences in order, each with its own data")
                S.prove(eq(d["seq_tag"].v, o), "with its own tag")
                S.prove(d["seq_tag"].kind == ("np", "tag"), "as tag")
                S.prove(eq(d["seq_idx"].v, o), "with its own index")
                S.prove(eq(d["complete_frac"].v, SymNum(fr(g.out)) if not S.decide(nonef) else -1), "with the fraction after this sequence, -1 if unknown")
                S.prove(d["epoch"].v == 3, "epoch")
                S.prove(eq(d["num_seqs"].v, g.n if known else -1), "number of sequences, -1 if unknown")
                g.out = _simp(g.out + 1)
            S.prove(g.out == g.n.t, "every sequence is given out")
        finally:
            TW.str_to_numpy_array, TW.numpy, TW.better_exchook = saved

    return un


# ---------------------------------------------------------------- collate


class AbsT:
    """abstract tensor: row k of the batch under a key"""

    def __init__(self, k, key, n, ndim):
        self.k, self.key, self.n, self.ndim = k, key, n, ndim
        self.shape = (n,) if ndim else ()


def u_collate():
    g = S.g
    n = S.int("num", lo=1)
    ln = S.func("len", z3.IntSort(), z3.IntSort())
    fr = S.func("frac", z3.IntSort(), z3.RealSort())
    g.dtype = S.choose(2, "scalar or sequence")

    class NP:
        def __init__(self, k, key):
            self.k, self.key = _t(k), key

    def mk(k):
        S.assume(ln(_t(k)) >= 0)
        return {"data": NP(k, "data"), "tag": NP(k, "tag"), "seq_idx": NP(k, "seq_idx"), "complete_frac": SymNum(fr(_t(k))), "num_seqs": "N", "epoch": "E"}

    batch = PList(Fn(n.t, mk, "batch"))
    saved = TP.torch, TP.create_tensor, TP.numpy

    class NPArr:
        def __init__(self, k, key):
            self.k, self.key = k, key

    def create(a):
        if a.key == "tag":
            return NPArr(a.k, "tag")
        return AbsT(a.k, a.key, SymNum(ln(a.k)) if a.key == "data" else None, 1 if a.key == "data" else 0)

    TP.create_tensor = create
    TP.torch = SymMethodObj(
        Tensor=AbsT, int32="int32", tensor=lambda x, dtype=None: ("tensor", x, dtype), stack=lambda ls, dim=0: ("stack", ls, dim),
        nn=SymMethodObj(utils=SymMethodObj(rnn=SymMethodObj(pad_sequence=lambda ls, batch_first=False, padding_value=0.0: ("pad", ls, batch_first, padding_value)))))
    TP.numpy = SymMethodObj(ndarray=NPArr, stack=lambda ls, axis=0: ("npstack", ls, axis))
    try:
        S.reachable()
        r = TP.collate_batch(batch)
        S.prove(set(r) == {"data", "data:seq_len", "tag", "seq_idx", "complete_frac", "num_seqs", "epoch"}, "all data keys")
        j = S.int("j", lo=0)
        S.assume(j < n)
        batch.v.at(j.t)
        for key, kind in (("data", "pad"), ("tag", "npstack"), ("seq_idx", "stack")):
            S.prove(r[key][0] == kind, "kind of the batch of " + key)
            s = to_seq(r[key][1])
            S.prove(s.n == n.t, "one row per sequence")
            S.prove(And(s.at(j.t).k == j.t, s.at(j.t).key == key), "row j is sequence j")
        S.prove(r["data"][2] is True and r["data"][3] == 0, "batch first, padded with 0")
        S.prove(r["seq_idx"][2] == 0 and r["tag"][2] == 0, "stacked in the first axis")
        s = to_seq(r["data:seq_len"][1])
        S.prove(And(s.n == n.t, eq(s.at(j.t), SymNum(ln(j.t)))), "the lengths of the sequences before padding")
        S.prove(r["num_seqs"] == "N" and r["epoch"] == "E", "constant entries")
        S.prove(r["complete_frac"] >= SymNum(fr(j.t)), "complete_frac after the whole batch")
    finally:
        TP.torch, TP.create_tensor, TP.numpy = saved


def units(tier):
    for keys, mn, mx in ((["data"], ["*"], ["*"]), (["data"], [], ["*"]), (["data"], ["*"], []), (["data", "classes"], ["*"], ["*"]), (["data", "classes"], ["data"], ["classes"]), (["data", "classes"], [], ["data", "classes"])):
        yield "length filter %s min %s max %s" % (keys, mn, mx), u_filter(keys, mn, mx), dict(functions=[F + "LenFilterDataPipe.__init__", F + "LenFilterDataPipe.__iter__"] + NDF, loops=[Filter()])
    for nb in (1, 2, 3):
        for rnd in (False, True):
            yield "%d buckets, random=%s" % (nb, rnd), u_buckets(nb, rnd), dict(functions=[F + "BucketOrderingIterDataPipe.__init__", F + "BucketOrderingIterDataPipe.__iter__"], loops=[Buckets()], bounded="1 to 3 buckets")
    yield "shuffling", u_shuffle, dict(functions=[F + "ShufflingDataPipe.__init__", F + "ShufflingDataPipe.__iter__", F + "ShufflingDataPipe.reset"], loops=[Window(), Emit()])
    yield "laplace ordering of a stream", u_laplace, dict(functions=[PF + "LaplaceOrdering.__init__", PF + "LaplaceOrdering.__call__", PF + "LaplaceOrdering._get_seq_len"], loops=[Window(), KeepFrac(), Emit()])
    for k in (True, False):
        yield "dataset wrapper, num_seqs known=%s" % k, u_wrapper(k), dict(functions=["returnn/torch/data/returnn_dataset_wrapper.py:ReturnnDatasetIterDataPipe.__iter__"], loops=[ReadAll()])
    yield "collate", u_collate, dict(functions=[F + "collate_batch"])
    S.assumptions += [
        "RandomState.shuffle: an arbitrary permutation; rand in [0,1); randint(a, b) in [a, b)",
        "torch pad_sequence / stack / tensor and numpy.stack: row j is argument j (padded with the value given)",
        "itertools.islice is consumed at once (list / extend)",
        "ShufflingDataPipe with monotonic_data_keys: run-time checked only; create_tensor: run-time checked only",
    ]
