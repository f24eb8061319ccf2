from props.lib import *
from props.lib import _t, _simp
from pyvc.helpers import FilterSeq
import returnn.torch.data.pipeline as TP
import returnn.datasets.basic as B
from returnn.util.basic import NumbersDict

F = "returnn/torch/data/pipeline.py:ChunkingIterDataPipe."
BF = "returnn/datasets/basic.py:Dataset."
NF = "returnn/util/basic.py:NumbersDict."
NDF = [NF + x for x in ("__init__", "bin_op", "bin_op_scalar_optional", "keys_union", "get", "__getitem__", "__setitem__", "min", "_min", "constant_like", "__iadd__", "__add__", "__eq__", "elem_eq")]


# ---------------------------------------------------------------- Dataset.iterate_seqs


class Outer(LoopContract):
    name = "all sequences"

    def match(self, L):
        if L.kind != "while" or getattr(S.g, "in_seq", None) is None:
            return False
        vs = [k for k in L.names if isinstance(L.pre.get(k), (int, SymNum)) and not isinstance(L.pre.get(k), bool)]
        if len(vs) != 1 or not isinstance(L.env.get("self"), B.Dataset) or S.g.outer is not None and S.g.outer != L.ordn:
            return False
        self.s = vs[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("s", "t", "cnt")
        g.s, g.t, g.cnt = SymNum(L.i), SymNum(z3.IntVal(0)), SymNum(z3.IntVal(0))
        return {self.s: SymNum(L.i)}

    def inv(self, L):
        g = S.g
        yield "sequence counter", eq(L[self.s], SymNum(L.i))
        yield "within the dataset", And(L.i >= 0, L.i <= _t(g.n))
        if L.mode == "prove":
            # the sequence which was just finished
            done = SymNum(_simp(L.i - 1))
            S.prove(eq(g.s, done), "chunks of the sequences come in sequence order")
            for k in g.keys:
                if k in g.full_keys:
                    continue
                if g.size is None:
                    S.prove(eq(g.cnt, 1), "without chunking every sequence is given once")
                else:
                    S.prove(g.length(k, done) - g.t <= g.minc, "at most min_chunk_size frames remain after the last chunk of a sequence") if k == g.keys[0] else None
            g.s, g.t, g.cnt = SymNum(L.i), SymNum(z3.IntVal(0)), SymNum(z3.IntVal(0))

    def variant(self, L):
        return S.g.n - L[self.s]


class Inner(LoopContract):
    name = "chunks of a sequence"

    def match(self, L):
        if L.kind != "while":
            return False
        ts = [k for k in L.names if isinstance(L.pre.get(k), NumbersDict)]
        if len(ts) != 1:
            return False
        self.t = ts[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("t", "cnt")
        g.t, g.cnt = S.int("t", lo=0), S.int("cnt", lo=0)
        t = NumbersDict({k: g.t for k in g.keys})
        if L.pre[self.t].value is not None:
            raise Unsupported("broadcast value")
        if S.choose(2, "broadcast value of t"):
            t.value = S.int("tv")
            S.assume(g.cnt > 0)
        L.modifies_attr(t, "value")
        return {self.t: t}

    def inv(self, L):
        g = S.g
        t = L[self.t]
        k0 = g.keys[0]
        for k in g.keys:
            yield "position of %s is the start of the next chunk" % k, eq(t[k], g.t)
        yield "chunk count", And(g.cnt >= 0, g.t >= 0, Implies(eq(g.cnt, 0), eq(g.t, 0)), Implies(g.cnt > 0, g.t >= g.step))
        yield "more than min_chunk_size frames are left", Or(eq(g.cnt, 0), g.length(k0, g.s) - g.t > g.minc)

    def variant(self, L):
        g = S.g
        return Max(g.length(g.keys[0], g.s) - g.t, 0)


def on_chunk(item):
    g = S.g
    s, a, b = item
    S.prove(eq(s, g.s), "the chunk belongs to the current sequence")
    for k in g.keys:
        ln = g.length(k, g.s)
        if g.size is None or k in g.full_keys:
            S.prove(And(eq(a[k], 0), eq(b[k], ln)), "unchunked data is given in full")
        else:
            S.prove(eq(a[k], g.t), "a chunk starts exactly chunk_step after the previous one, the first one at 0")
            S.prove(eq(b[k], Min(g.t + g.size, ln)), "a chunk has chunk_size frames, cut off at the end of the sequence")
            S.prove(a[k] < b[k], "no empty chunk")
    g.cnt = g.cnt + 1
    if g.size is not None:
        g.t = g.t + g.step


def u_iter(keys, chunked, full_keys=(), used=False):
    def u():
        g = S.g
        g.in_seq = True
        g.outer = None
        g.keys, g.full_keys = keys, full_keys
        g.n = S.int("n", lo=0)
        S.inputs["n"] = g.n
        lf, lf1 = S.func("len", z3.IntSort(), z3.IntSort()), S.func("len1", z3.IntSort(), z3.IntSort())

        def length(k, s):
            f = lf1 if k in full_keys else lf
            r = f(_t(s))
            S.assume(r >= 0)
            if k in full_keys:
                S.assume(r <= 1)
            return SymNum(r)

        g.length = length
        g.s, g.t, g.cnt = SymNum(z3.IntVal(0)), SymNum(z3.IntVal(0)), SymNum(z3.IntVal(0))
        if chunked:
            g.size, g.step, g.minc = S.int("size", lo=1), S.int("step", lo=1), S.int("minc", lo=0)
            S.inputs.update(size=g.size, step=g.step, minc=g.minc)
        else:
            g.size, g.step, g.minc = None, 0, 0
        ds = object.__new__(B.Dataset)
        cs, cst, _ = B.Dataset._parse_chunking((g.size, g.step) if chunked else None)
        ds.__dict__.update(
            custom_chunking_func=None, chunk_size=cs, chunk_step=cst, min_chunk_size=NumbersDict(g.minc), chunking_variance=0, name="ds")
        ds.is_less_than_num_seqs = lambda s: s < g.n
        ds.get_seq_length = lambda s: NumbersDict({k: length(k, s) for k in keys})
        S.reachable()
        kw = dict(used_data_keys=set(keys)) if used else {}
        for item in B.Dataset.iterate_seqs(ds, **kw):
            on_chunk(item)
        S.prove(eq(g.s, g.n), "all sequences are given")

    return u


def u_parse():
    a, b = S.int("a", lo=1), S.int("b", lo=1)
    p = B.Dataset._parse_chunking
    for arg, ea, eb in [((a, b), a, b), (a, a, a), ((a, None), a, a), ((a, 0), a, a), (SymStr([("d", a), ":", ("d", b)]), a, b)]:
        try:
            sz, st, f = p(arg)
        except Unsupported:
            continue
        S.prove(f is None, "no custom function")
        S.prove(And(eq(sz["data"], ea), eq(st["data"], eb)), "chunk size and step as configured; step defaults to size")
    sz, st, f = p(({"data": a, "classes": b}, {"data": b, "classes": a}))
    S.prove(And(eq(sz["data"], a), eq(sz["classes"], b), eq(st["data"], b), eq(st["classes"], a)), "per-key chunk size and step")
    sz, st, f = p(None)
    S.prove(eq(sz["data"], 0), "no chunking")
    fn = lambda **k: None
    S.prove(p(fn)[2] is fn, "custom function is kept")


# ---------------------------------------------------------------- torch ChunkingIterDataPipe


class Frames(PList):
    """abstract array: frame f of key k of sequence s"""

    def __init__(self, s, key, n):
        super().__init__(Fn(n, lambda f: (s, key, _t(f)), "frames"), "array")
        self.key = key


class Rec(dict):
    k = None


class Stream(LoopContract):
    name = "all sequences (stream)"

    def match(self, L):
        if L.kind != "for" or L.seq is not S.g.stream:
            return False
        self.ks = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), (PList, list))]
        return len(self.ks) <= 1

    def havoc(self, L):
        g = S.g
        L.ghost("s", "cnt")
        g.s, g.cnt = L.i, z3.IntVal(0)
        if not self.ks:
            return {}
        v0 = L.pre[self.ks[0]]
        if len(list(v0)):
            return {self.ks[0]: v0}  # keys were configured, never reassigned
        if S.decide(L.i == 0):
            return {self.ks[0]: PList(Conc([]))}
        return {self.ks[0]: PList(Conc(list(g.keys)))}

    def inv(self, L):
        g = S.g
        if self.ks:
            v = L[self.ks[0]]
            items = list(v) if not isinstance(v, Undef) else None
            exp = list(g.keys) if (L.mode == "prove" or g.explicit) else None
            if exp is not None:
                yield "the chunked keys are the data keys", items == exp
        if L.mode == "prove":
            done = _simp(L.i - 1)
            S.prove(SymNum(g.s) == SymNum(done), "chunks come in sequence order")
            if g.filters[g.keys[0]]:
                fs = g.filters[g.keys[0]][-1]
                j = S.int("cand", lo=0)
                st = j * g.step
                ln = g.length(SymNum(done))
                if S.decide(And(st < ln, Min(g.size, ln - st) >= g.minc)):
                    fs.instantiate(j)
                    r = fs.rank(j.t)
                    S.prove(And(r >= 0, r < fs.n, fs.idx(r) == j.t), "every candidate chunk of at least min_chunk_size frames is kept")
            # all candidate chunks of this sequence which are long enough were emitted
            S.prove(eq(SymNum(g.cnt), SymNum(g.expected(done))), "all chunks of the sequence which are long enough are given")
            g.s, g.cnt = L.i, z3.IntVal(0)


class Chunks(LoopContract):
    name = "chunks"

    def match(self, L):
        return L.kind == "for" and isinstance(L.seq, Range) and L.seq is not S.g.stream

    def havoc(self, L):
        L.ghost("cnt")
        S.g.cnt = L.i
        return {}

    def inv(self, L):
        yield "chunk index", eq(SymNum(S.g.cnt), SymNum(L.i))


def on_tchunk(d):
    g = S.g
    key = g.keys[0]
    v = to_seq(d[key])
    fs = g.filters[key]
    if fs is None:
        raise Unsupported("chunks are not a filtered list")
    fs = fs[-1]
    pos = fs.idx(g.cnt)
    fs.at(g.cnt)
    start = SymNum(pos) * g.step
    ln = g.length(SymNum(g.s))
    n = Min(g.size, ln - start)
    S.prove(eq(SymNum(v.n), n), "chunk j has chunk_size frames, cut off at the end of the sequence")
    S.prove(And(n >= g.minc, n >= 1), "no chunk is shorter than min_chunk_size")
    j = S.int("fj", lo=0)
    S.assume(j.t < v.n)
    s, k, f = v.at(j.t)
    S.prove(And(k == key, eq(SymNum(s), SymNum(g.s)), eq(SymNum(f), start + j)), "chunk j consists of the frames from j*chunk_step on")
    for k in g.rest:
        S.prove(d[k] is not None and to_seq(d[k]).at(z3.IntVal(0))[1] == k, "other data is given in full with every chunk")
    g.cnt = _simp(g.cnt + 1)


def u_torch(explicit):
    def u():
        g = S.g
        key = "data"
        g.keys, g.rest, g.explicit = [key], (["other"] if explicit else []), explicit
        n = S.int("n", lo=0)
        g.size, g.step, g.minc = S.int("size", lo=1), S.int("step", lo=1), S.int("minc", lo=0)
        S.inputs.update(n=n, size=g.size, step=g.step, minc=g.minc)
        lf = S.func("len", z3.IntSort(), z3.IntSort())

        def length(s):
            S.assume(lf(_t(s)) >= 0)
            return SymNum(lf(_t(s)))

        g.length = length
        g.filters = {key: []}

        def mk(s):
            r = Rec({k: Frames(s, k, _t(length(s))) for k in g.keys + g.rest})
            r.k = s
            return r

        g.stream = Fn(n.t, mk, "stream")
        g.s, g.cnt = z3.IntVal(0), z3.IntVal(0)
        orig = FilterSeq.__init__

        def init(self, src, cond, elt):
            orig(self, src, cond, elt)
            g.filters[key].append(self)

        def expected(s):
            if not g.filters[key]:
                return z3.IntVal(0)
            return g.filters[key][-1].n

        g.expected = expected
        FilterSeq.__init__ = init
        try:
            ch = ({key: g.size}, {key: g.step}) if explicit else (g.size, g.step)
            pipe = TP.ChunkingIterDataPipe(PList(g.stream), ch, min_chunk_size=g.minc)
            S.reachable()
            for d in TP.ChunkingIterDataPipe.__iter__(pipe):
                on_tchunk(d)
        finally:
            FilterSeq.__init__ = orig
        S.prove(eq(SymNum(g.s), SymNum(g.stream.n)), "all sequences are processed")

    return u


def units(tier):
    fi = [BF + "iterate_seqs", BF + "_parse_chunking"] + NDF
    L = [Outer(), Inner()]
    yield "no chunking", u_iter(["data", "classes"], False), dict(loops=L, functions=fi)
    yield "chunking, one key", u_iter(["data"], True), dict(loops=L, functions=fi)
    yield "chunking, two keys", u_iter(["data", "classes"], True), dict(loops=L, functions=fi)
    yield "chunking, used keys given", u_iter(["data", "classes"], True, used=True), dict(loops=L, functions=fi)
    yield "chunking, key with at most one frame", u_iter(["data", "classes"], True, full_keys=("classes",)), dict(loops=L, functions=fi)
    yield "parse chunking", u_parse, dict(functions=[BF + "_parse_chunking"])
    ft = [F + "__init__", F + "__iter__", BF + "_parse_chunking"]
    yield "torch chunking, all keys", u_torch(False), dict(loops=[Stream(), Chunks()], functions=ft)
    yield "torch chunking, given keys", u_torch(True), dict(loops=[Stream(), Chunks()], functions=ft)
    S.assumptions.extend([
        "data keys: proved for the key sets {data}, {data, classes} (equal lengths, or one key with at most one frame), one chunked key in the torch pipe",
        "chunking_variance = 0 (random chunk sizes only in the bounded run-time check)",
    ])
