from props.lib import *
from props.lib import _t, _simp
import returnn.torch.data.pipeline as TP
from returnn.util.basic import NumbersDict

F = "returnn/torch/data/pipeline.py:"
NF = "returnn/util/basic.py:NumbersDict."
NDF = [NF + x for x in ("__init__", "bin_op", "bin_op_scalar_optional", "keys_union", "get", "__getitem__", "__setitem__", "max", "_max", "any_compare", "__mul__", "constant_like", "min_value", "values")]


class Arr:
    """abstract array of which only the length matters"""

    def __init__(self, n, k=None, key=None):
        self.n, self.k, self.key = n, k, key
        self.shape = (n,)


class Scalar:
    shape = ()


class Rec(dict):
    k = None


def stream(n, keys, scalar_keys=("seq_idx",)):
    """abstract stream of sequences: element k is a dict key -> array of (unknown) length len_key(k)"""
    fs = {key: S.func("len_" + key, z3.IntSort(), z3.IntSort()) for key in keys}

    def ln(key, k):
        t = fs[key](_t(k))
        S.assume(t >= 0)
        return SymNum(t)

    def mk(k):
        r = Rec({key: Arr(ln(key, k), k, key) for key in keys})
        for s in scalar_keys:
            r[s] = Scalar()
        r.k = _t(k)
        return r

    return Fn(n.t, mk, "stream"), ln


class TorchBatching(LoopContract):
    """
    emitted batches so far = stream[0:E] cut in consecutive pieces; the open batch is stream[E:i];
    the tracked lengths are the maxima over the open batch; the open batch respects the limits
    """

    name = "greedy batching"

    def match(self, L):
        g = S.g
        if L.kind != "for" or L.seq is not g.stream:
            return False
        bs = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), PList)]
        ms = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), NumbersDict)]
        if len(bs) != 1 or len(ms) != 1:
            return False
        self.b, self.m = bs[0], ms[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("E", "w")
        g.E = S.int("E", lo=0).t
        S.assume(g.E <= L.i)
        g.w = {k: S.int("w_" + k, lo=0).t for k in g.keys}
        if S.decide(g.E == L.i):
            m = NumbersDict(0)
        else:
            m = NumbersDict({k: g.ln(k, g.w[k]) for k in g.keys})
            m.value = 0 if S.choose(2, "broadcast value of the tracked maxima") else None
        pl = PList(mkslice(g.stream, g.E, L.i))
        L.modifies(pl)
        return {self.b: pl, self.m: m}

    def inv(self, L):
        g = S.g
        b, m = L[self.b], L[self.m]
        if not isinstance(m, NumbersDict) or not (m.value is None or eq(m.value, 0) is True or isinstance(m.value, int) and m.value == 0):
            raise Unsupported("representation of the tracked maxima")
        cur = SymNum(_simp(L.i - g.E))
        yield "emitted part is a prefix", And(g.E >= 0, g.E <= L.i)
        if L.mode == "entry" or L.mode == "prove":
            s = to_seq(b)
            yield "open batch has one entry per pending sequence", eq(SymNum(s.n), cur)
            j = S.int("skb", lo=0)
            if S.decide(j.t < s.n):
                yield "open batch is the pending part of the stream, in order", s.at(j.t).k == _simp(g.E + j.t)
        if S.decide(cur.t > 0):
            if set(m.dict.keys()) != set(g.keys):
                raise Unsupported("representation of the tracked maxima")
            for k in g.keys:
                if L.mode == "prove":
                    # witness of the maximum: the old one or the sequence just added
                    last = _simp(L.i - 1)
                    yield "tracked length of %s is attained in the open batch" % k, Or(
                        And(g.w[k] >= g.E, g.w[k] < L.i, eq(m[k], g.ln(k, g.w[k]))), eq(m[k], g.ln(k, last)))
                elif L.mode == "assume":
                    yield "tracked length of %s is attained in the open batch" % k, And(g.w[k] >= g.E, g.w[k] < L.i)
                j = S.int("skj", lo=0).t if L.mode != "assume" else None
                if j is None:
                    mk_, E, i = m[k], g.E, L.i
                    add_elem_fact(g.stream, lambda jj, v, k=k, mk_=mk_, E=E, i=i: Implies(And(jj >= E, jj < i), le(g.ln(k, jj), mk_)))
                else:
                    g.stream.at(j)
                    yield "tracked length of %s bounds the open batch" % k, Implies(And(j >= g.E, j < L.i), le(g.ln(k, j), m[k]))
                if k in g.limit:
                    yield "open batch respects the size limit of %s" % k, Or(cur <= 1, m[k] * cur <= g.limit[k])
            yield "open batch respects max_seqs", cur <= g.max_seqs
        elif L.mode != "entry" or True:
            for k in g.keys:
                yield "initially: no pending sequences: tracked length 0", eq(m[k], 0)


def on_batch(b, final):
    g = S.g
    v = to_seq(b)
    m = SymNum(v.n)
    S.prove(m >= 1, "no empty batch")
    S.prove(m <= g.max_seqs, "a batch has at most max_seqs sequences")
    j = S.int("jb", lo=0)
    S.assume(j.t < v.n)
    e = v.at(j.t)
    S.prove(e.k == _simp(g.E + j.t), "a batch continues the stream exactly where the previous one ended, in order")
    for k in g.keys:
        if k in g.limit:
            S.prove(Or(m <= 1, g.ln(k, e.k) * m <= g.limit[k]), "padded size of a batch with several sequences is within the limit")
    E2 = _simp(g.E + v.n)
    if S.decide(E2 < g.stream.n):
        g.stream.at(E2)
        cond = [m >= g.max_seqs]
        for k in g.keys:
            if k in g.limit:
                nx = g.ln(k, E2)
                cond.append(nx * (m + 1) > g.limit[k])
                cond.append(g.ln(k, g.w[k]) * (m + 1) > g.limit[k])
        S.prove(Or(*cond), "a batch is closed only if the next sequence does not fit")
    g.E = E2
    if isinstance(b, PList):
        S.frozen.append(b)


def u_torch(keys, limits, broadcast):
    def u():
        g = S.g
        n, mx = S.int("n", lo=0), S.int("max_seqs", lo=1)
        S.inputs.update(n=n, max_seqs=mx)
        g.keys = keys
        g.stream, g.ln = stream(n, keys)
        g.E, g.w = z3.IntVal(0), {k: z3.IntVal(0) for k in keys}
        g.max_seqs = mx
        if broadcast:
            b = S.int("batch_size", lo=1)
            S.inputs["batch_size"] = b
            g.limit = {k: b for k in keys}
            bs = b
        else:
            g.limit = {k: S.int("limit_" + k, lo=1) for k in limits}
            S.inputs.update({"limit_" + k: v for k, v in g.limit.items()})
            bs = dict(g.limit)
        pipe = TP.BatchingIterDataPipe(PList(g.stream), batch_size=bs, max_seqs=mx)
        S.reachable()
        for b in TP.BatchingIterDataPipe.__iter__(pipe):
            on_batch(b, False)
        S.prove(g.E == g.stream.n, "every sequence of the stream is in some batch")

    return u


# ---------------------------------------------------------------- Dataset._generate_batches

import sys as _sys
import returnn.datasets.basic as B
import returnn.engine.batch as EB

BF = "returnn/datasets/basic.py:Dataset."
EF = "returnn/engine/batch.py:"


def slices(n, keys):
    """contract of iterate_seqs: a stream of (seq_idx, start, end) with 0 <= start, at least one frame in the first key"""
    st = {k: S.func("start_" + k, z3.IntSort(), z3.IntSort()) for k in keys}
    ln = {k: S.func("len_" + k, z3.IntSort(), z3.IntSort()) for k in keys}
    sidx = S.func("sidx", z3.IntSort(), z3.IntSort())

    def start(k, j):
        S.assume(st[k](_t(j)) >= 0)
        return SymNum(st[k](_t(j)))

    def length(k, j):
        S.assume(ln[k](_t(j)) >= (1 if k == keys[0] else 0))
        return SymNum(ln[k](_t(j)))

    def mk(j):
        a = NumbersDict({k: start(k, j) for k in keys})
        b = NumbersDict({k: start(k, j) + length(k, j) for k in keys})
        S.assume(sidx(_t(j)) >= 0)
        return (SymNum(sidx(_t(j))), a, b)

    # always fresh NumbersDict objects, the consumer may modify them
    s = Fn(n.t, mk, "slices")
    return s, start, length, lambda j: SymNum(sidx(_t(j)))


def mkds(**kw):
    ds = object.__new__(B.Dataset)
    attrs = dict(weights={}, ctx_left=NumbersDict(), ctx_right=NumbersDict(), rnd_seq_drop=SymRandomState(S.int("rs")), name="ds")
    attrs.update(kw)
    ds.__dict__.update(attrs)
    return ds


def part(seq_idx, start, end, sl, off):
    p = object.__new__(EB.BatchSeqCopyPart)
    p.__dict__.update(seq_idx=seq_idx, seq_start_frame=start, seq_end_frame=end, batch_slice=sl, batch_frame_offset=off)
    return p


def mkbatch(m, n, seqs):
    b = object.__new__(EB.Batch)
    b.__dict__.update(max_num_frames_per_slice=m, num_slices=n, seqs=seqs)
    return b


class RecBatching(LoopContract):
    """
    kept slices K(0), K(1), ... (ghost: positions in the stream of the slices passing the length filters, r of them so far);
    emitted so far = K[0:E] in consecutive batches, the open batch is K[E:r]
    """

    name = "greedy batching of slices"

    def match(self, L):
        if L.kind != "for" or L.seq is not S.g.stream or not S.g.recurrent:
            return False
        bs = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), EB.Batch)]
        if len(bs) != 1:
            return False
        self.b = bs[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("E", "w", "r", "cur", "i")
        g.E, g.r = S.int("E", lo=0).t, S.int("r", lo=0).t
        g.i = L.i
        S.assume(And(g.E <= g.r, g.r <= L.i))
        g.w = {k: S.int("w_" + k, lo=0).t for k in g.keys}
        E, r = g.E, g.r

        def mkpart(j):
            q = g.K(_simp(E + j))
            S.assume(Implies(And(j >= 0, E + j < r), And(q >= 0, q < L.i)))
            return part(
                g.sidx(q), NumbersDict({k: g.start(k, q) - g.ctxl for k in g.keys}),
                NumbersDict({k: g.start(k, q) + g.length(k, q) + g.ctxr for k in g.keys}), SymNum(j), NumbersDict(0))

        if S.decide(g.E == g.r):
            b = EB.Batch()
        else:
            m = NumbersDict({k: g.full(k, g.w[k]) for k in g.keys})
            m.value = 0
            for k in g.keys:
                for q in (g.w[k],):
                    S.assume(And(q >= 0, q < L.i))
            b = mkbatch(m, SymNum(_simp(g.r - g.E)), PList(Fn(_simp(g.r - g.E), mkpart, "open")))
        g.cur = b
        L.modifies(b.seqs)
        L.modifies_attr(b, "max_num_frames_per_slice", "num_slices", "seqs")
        return {self.b: b}

    def inv(self, L):
        g = S.g
        b = L[self.b]
        if L.mode == "prove":
            i = _simp(L.i - 1)
            if S.decide(g.kept(i)):
                S.assume(g.K(g.r) == i)
                for k in g.keys:
                    S.assume(g.PS[k](_simp(g.r + 1)) == g.PS[k](g.r) + _t(g.full(k, i)))
                g.r = _simp(g.r + 1)
        m = b.max_num_frames_per_slice
        cur = SymNum(_simp(g.r - g.E))
        yield "emitted part is a prefix of the kept slices", And(g.E >= 0, g.E <= g.r, g.r <= L.i)
        yield "slice count of the open batch", eq(b.num_slices, cur)
        if not (isinstance(m, NumbersDict) and not isinstance(m.value, type(None)) and isinstance(m.value, (int, SymNum))):
            raise Unsupported("representation of max_num_frames_per_slice")
        yield "broadcast value is no real length", eq(m.value, 0)
        if L.mode != "assume":
            s = to_seq(b.seqs)
            yield "open batch has one part per pending slice", eq(SymNum(s.n), cur)
            j = S.int("skb", lo=0)
            if S.decide(j.t < s.n):
                check_part(s.at(j.t), j.t, "open batch")
        if S.decide(cur.t > 0):
            if set(m.dict.keys()) != set(g.keys):
                raise Unsupported("representation of max_num_frames_per_slice")
            for k in g.keys:
                if L.mode == "prove":
                    yield "tracked length of %s is attained" % k, Or(eq(m[k], g.full(k, g.w[k])), eq(m[k], g.full(k, _simp(L.i - 1))))
                if L.mode == "assume":
                    mk_, E, r = m[k], g.E, g.r
                    g.kfacts.append(lambda t, k=k, mk_=mk_, E=E, r=r: Implies(And(t >= E, t < r), le(g.full(k, g.K(t)), mk_)))
                else:
                    t = S.int("skt", lo=0).t
                    for f in g.kfacts:
                        S.assume(f(t))
                    yield "tracked length of %s bounds the open batch" % k, Implies(And(t >= g.E, t < g.r), le(g.full(k, g.K(t)), m[k]))
                if k in g.limit:
                    yield "open batch respects the size limit of %s" % k, Or(cur <= 1, m[k] * cur <= g.limit[k])
                if g.maxpad is not None:
                    yield "open batch respects the padding limit", Or(cur <= 1, m[k] * cur - SymNum(g.PS[k](g.r) - g.PS[k](g.E)) <= g.maxpad)
            yield "open batch respects max_seqs", cur <= g.max_seqs
        else:
            for k in g.keys:
                yield "no pending slices: tracked length 0", eq(m[k], 0)


def check_part(p, j, what):
    g = S.g
    q = g.K(_simp(g.E + j))
    S.prove(eq(p.seq_idx, g.sidx(q)), what + ": part j is the j-th pending slice (sequence)")
    for k in g.keys:
        S.prove(eq(p.seq_start_frame[k], g.start(k, q) - g.ctxl), what + ": part j is the j-th pending slice (start)")
        S.prove(eq(p.seq_end_frame[k], g.start(k, q) + g.length(k, q) + g.ctxr), what + ": part j is the j-th pending slice (end)")
        S.prove(eq(p.batch_frame_offset[k], 0), what + ": parts start at frame 0 of their slice")
    S.prove(eq(p.batch_slice, SymNum(j)), what + ": part j is in slice j")


def on_rec_batch(b):
    g = S.g
    v = to_seq(b.seqs)
    m = SymNum(v.n)
    S.prove(m >= 1, "no empty batch")
    S.prove(eq(b.num_slices, m), "one slice per part")
    S.prove(m <= g.max_seqs, "a batch has at most max_seqs slices")
    j = S.int("jb", lo=0)
    S.assume(j.t < v.n)
    for f in g.kfacts:
        S.assume(f(_simp(g.E + j.t)))
    check_part(v.at(j.t), j.t, "batch")
    q = g.K(_simp(g.E + j.t))
    for k in g.keys:
        if k in g.limit:
            S.prove(Or(m <= 1, g.full(k, q) * m <= g.limit[k]), "padded size of a batch with several slices is within the limit")
        S.prove(ge_(b.max_num_frames_per_slice[k], g.full(k, q)), "the declared frame count covers every part")
        if g.maxpad is not None:
            S.prove(Or(m <= 1, b.max_num_frames_per_slice[k] * m - SymNum(g.PS[k](_simp(g.E + v.n)) - g.PS[k](g.E)) <= g.maxpad), "padding of a batch with several slices is within the limit")
    if g.i is not None and S.decide(g.i < g.stream.n):
        cond = [m + 1 > g.max_seqs]
        for k in g.keys:
            mx = Max(b.max_num_frames_per_slice[k], g.full(k, g.i))
            if k in g.limit:
                cond.append(mx * (m + 1) > g.limit[k])
            if g.maxpad is not None:
                cond.append(mx * (m + 1) - SymNum(g.PS[k](_simp(g.E + v.n)) - g.PS[k](g.E)) - g.full(k, g.i) > g.maxpad)
        S.prove(Or(*cond), "a batch is closed only if the next slice does not fit")
    g.E = _simp(g.E + v.n)
    g.cur = None
    if isinstance(b.seqs, PList):
        S.frozen.append(b.seqs)


def ge_(a, b):
    return le(b, a)


def u_rec(keys, maxpad=False, filters=False, ctx=False):
    def u():
        g = S.g
        n, mx, bs = S.int("n", lo=0), S.int("max_seqs", lo=1), S.int("batch_size", lo=1)
        S.inputs.update(n=n, max_seqs=mx, batch_size=bs)
        g.recurrent, g.keys, g.max_seqs = True, keys, mx
        g.limit = {k: bs for k in keys}
        g.maxpad = S.int("max_pad", lo=0) if maxpad else None
        g.hasctx = ctx
        g.ctxl, g.ctxr = (S.int("ctxl", lo=0), S.int("ctxr", lo=0)) if ctx else (0, 0)
        g.stream, g.start, g.length, g.sidx = slices(n, keys)
        g.full = lambda k, q: g.length(k, q) + g.ctxl + g.ctxr
        g.K = S.func("K", z3.IntSort(), z3.IntSort())
        g.PS = {k: S.func("PS_" + k, z3.IntSort(), z3.IntSort()) for k in keys}
        g.E = g.r = z3.IntVal(0)
        g.w = {k: z3.IntVal(0) for k in keys}
        g.cur = g.i = None
        g.kfacts = []
        kw = {}
        lo, hi = S.int("min_len", lo=0), S.int("max_len", lo=1)
        if filters:
            kw.update(min_seq_length=lo, max_seq_length=hi)
            S.inputs.update(min_len=lo, max_len=hi)
            g.kept = lambda q: And(*[And(g.full(k, q) <= hi, g.full(k, q) >= lo) for k in keys])
        else:
            big = _sys.maxsize
            g.kept = lambda q: And(*[And(g.full(k, q) <= big, g.full(k, q) >= 0) for k in keys])
        if maxpad:
            kw["max_pad_size"] = g.maxpad
            S.inputs["max_pad"] = g.maxpad
        ds = mkds(ctx_left=NumbersDict({'data': g.ctxl}), ctx_right=NumbersDict({'data': g.ctxr})) if ctx else mkds()
        ds.iterate_seqs = lambda **k: PList(g.stream)

        def total(self):
            if self is not g.cur:
                raise Unsupported("get_total_num_frames of another batch")
            return NumbersDict({k: SymNum(g.PS[k](g.r) - g.PS[k](g.E)) for k in keys})

        orig = EB.Batch.get_total_num_frames
        EB.Batch.get_total_num_frames = total
        try:
            S.reachable()
            for b in B.Dataset._generate_batches(ds, recurrent_net=True, batch_size=bs, max_seqs=mx, **kw):
                on_rec_batch(b)
        finally:
            EB.Batch.get_total_num_frames = orig
        S.prove(g.E == g.r, "every slice that passes the length filters is in some batch")

    return u


def u_total(m):
    """contract of get_total_num_frames for batches of m parts (bounded)"""

    def u():
        keys = ["data", "classes"]
        ls = [{k: S.int("l%i_%s" % (i, k), lo=0) for k in keys} for i in range(m)]
        b = EB.Batch()
        for i in range(m):
            b.add_sequence_as_slice(seq_idx=i, seq_start_frame=NumbersDict({k: S.int("s", lo=0) for k in keys}), length=NumbersDict(ls[i]))
        t = b.get_total_num_frames()
        for k in keys:
            S.prove(eq(t[k], sum([l[k] for l in ls])), "total number of frames is the sum over the parts")
        S.prove(eq(b.get_all_slices_num_frames()["data"], m * seq_extreme(Conc([l["data"] for l in ls]), True)), "padded size is slices times longest part")

    return u


# ---- frame-wise batching (recurrent_net=False)


class FrameSlices(LoopContract):
    """outer loop of the frame-wise mode: all frames of the first i slices are emitted or in the open batch"""

    name = "frame-wise batching, slices"

    def match(self, L):
        if L.kind != "for" or L.seq is not S.g.stream or S.g.recurrent:
            return False
        bs = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), EB.Batch)]
        if len(bs) != 1:
            return False
        self.b = bs[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("G", "T", "slice")
        g.G = S.int("G", lo=0).t  # frames emitted
        g.T = S.int("T", lo=0).t  # frames put into batches (emitted or open)
        g.slice = L.i
        b = open_batch(L)
        return {self.b: b}

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            yield "all frames of the slices so far are put into batches", eq(SymNum(g.T), SymNum(g.base(L.i)))
            g.slice = L.i
        elif L.mode == "assume":
            yield "all frames of the slices so far are put into batches", eq(SymNum(g.T), SymNum(g.base(L.i)))
            S.assume(g.base(L.i) >= 0)
            S.assume(g.base(_simp(L.i + 1)) == g.base(L.i) + _t(g.length("data", L.i)))
        else:
            yield "starts empty", eq(SymNum(g.T), 0)
        for x in batch_inv(L, L[self.b]):
            yield x


def open_batch(L):
    g = S.g
    f = SymNum(_simp(g.T - g.G))
    S.assume(f >= 0)
    if S.decide(f.t == 0):
        b = EB.Batch()
    else:
        m = NumbersDict(0)
        m.dict["data"] = f
        npart = S.int("nparts", lo=1)
        gs = S.func("gs", z3.IntSort(), z3.IntSort())
        qs = S.func("qs", z3.IntSort(), z3.IntSort())
        S.assume(And(gs(z3.IntVal(0)) == g.G, gs(npart.t) == g.T))
        G = g.G

        def mkpart(j):
            q = qs(j)
            st = SymNum(gs(j) - g.base(q)) + g.start("data", q)
            en = SymNum(gs(_simp(j + 1)) - g.base(q)) + g.start("data", q)
            S.assume(Implies(And(j >= 0, j < npart.t), And(q >= 0, q < g.stream.n, gs(_simp(j + 1)) > gs(j), st >= g.start("data", q), en <= g.start("data", q) + g.length("data", q))))
            return part(g.sidx(q), NumbersDict({"data": st}), NumbersDict({"data": en}), 0, NumbersDict(SymNum(gs(j) - G)))

        b = mkbatch(m, 1, PList(Fn(npart.t, mkpart, "parts")))
        b.seqs.v.q = qs
    L.modifies(b.seqs)
    L.modifies_attr(b, "max_num_frames_per_slice", "num_slices", "seqs")
    return b


def part_q(v, j):
    """ghost: which slice of the stream part j of the batch comes from"""
    if isinstance(v, Cat):
        if S.decide(j < v.a.n):
            return part_q(v.a, j)
        return S.g.slice
    if isinstance(v, Conc):
        return S.g.slice
    return v.q(j)


def frame_parts(b, what):
    """the parts of the batch are consecutive pieces of the frame stream, starting at G"""
    g = S.g
    v = to_seq(b.seqs)
    j = S.int("jp", lo=0)
    if S.decide(j.t < v.n):
        p = v.at(j.t)
        q = part_q(v, j.t)
        off = p.batch_frame_offset["data"]
        S.prove(eq(p.seq_idx, g.sidx(q)), what + ": a part names the sequence it comes from")
        S.prove(eq(SymNum(g.base(q)) + p.seq_start_frame["data"] - g.start("data", q), SymNum(g.G) + off), what + ": a part starts where the frame stream stands at its offset")
        S.prove(And(p.seq_start_frame["data"] >= g.start("data", q), p.seq_end_frame["data"] <= g.start("data", q) + g.length("data", q), p.seq_end_frame["data"] > p.seq_start_frame["data"]), what + ": a part is a non-empty piece of its slice")
        S.prove(eq(p.batch_slice, 0), what + ": one slice")
        if S.decide(j.t + 1 < v.n):
            p2 = v.at(_simp(j.t + 1))
            S.prove(eq(p2.batch_frame_offset["data"], off + (p.seq_end_frame["data"] - p.seq_start_frame["data"])), what + ": parts follow each other without gap or overlap")
        else:
            S.prove(eq(off + (p.seq_end_frame["data"] - p.seq_start_frame["data"]), b.max_num_frames_per_slice["data"]), what + ": the last part ends at the frame count of the batch")
        if S.decide(j.t == 0):
            S.prove(eq(off, 0), what + ": the first part starts at offset 0")


def batch_inv(L, b):
    g = S.g
    f = SymNum(_simp(g.T - g.G))
    yield "frames of the open batch", And(f >= 0, eq(b.get_all_slices_num_frames()["data"], f))
    yield "open batch is not full", f < g.limit
    if L.mode != "assume":
        yield "slices", le(b.num_slices, 1)
        if S.decide(f.t == 0):
            yield "no parts without frames", eq(SymNum(to_seq(b.seqs).n), 0)
        frame_parts(b, "open batch")


class FrameLoop(LoopContract):
    """inner loop of the frame-wise mode"""

    name = "frame-wise batching, frames"

    def match(self, L):
        if L.kind != "while" or S.g.recurrent:
            return False
        bs = [k for k, v in L.env.items() if isinstance(v, EB.Batch)]
        ts = [k for k in ("t_start",) if isinstance(L.env.get(k), NumbersDict)]
        if len(bs) != 1 or len(ts) != 1:
            return False
        self.b, self.t = bs[0], ts[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("G", "T")
        g.G, g.T = S.int("G", lo=0).t, S.int("T", lo=0).t
        b = open_batch(L)
        ts = NumbersDict({"data": SymNum(g.T - g.base(g.slice)) + g.start("data", g.slice)})
        L.modifies_attr(ts, "value")
        return {self.b: b, self.t: ts}

    def inv(self, L):
        g = S.g
        ts = L[self.t]
        if L.mode == "prove":
            g.T = _simp(_t(ts["data"] - g.start("data", g.slice)) + g.base(g.slice))
        yield "position in the slice", eq(ts["data"], SymNum(g.T - g.base(g.slice)) + g.start("data", g.slice))
        yield "position is within the slice", And(g.T >= g.base(g.slice), g.T <= g.base(_simp(g.slice + 1)))
        for x in batch_inv(L, L[self.b]):
            yield x

    def variant(self, L):
        g = S.g
        return SymNum(g.base(_simp(g.slice + 1)) - g.T)


def on_frame_batch(b):
    g = S.g
    f = b.get_all_slices_num_frames()["data"]
    S.prove(And(f > 0, f <= g.limit), "a batch has at least one and at most batch_size frames")
    frame_parts(b, "batch")
    g.G = _simp(g.G + _t(f))
    if isinstance(b.seqs, PList):
        S.frozen.append(b.seqs)


def u_frames():
    g = S.g
    n, mx, bs = S.int("n", lo=0), S.int("max_seqs", lo=1), S.int("batch_size", lo=1)
    S.inputs.update(n=n, max_seqs=mx, batch_size=bs)
    g.recurrent, g.keys, g.limit = False, ["data"], bs
    g.stream, g.start, g.length, g.sidx = slices(n, ["data"])
    bf = S.func("base", z3.IntSort(), z3.IntSort())
    S.assume(bf(z3.IntVal(0)) == 0)
    g.base = lambda q: bf(_t(q))
    g.G = g.T = z3.IntVal(0)
    g.slice = None
    ds = mkds()
    ds.iterate_seqs = lambda **k: PList(g.stream)
    orig = EB.Batch.get_num_seqs
    EB.Batch.get_num_seqs = lambda self: S.int("num_seqs_in_batch", lo=0)
    try:
        S.reachable()
        for b in B.Dataset._generate_batches(ds, recurrent_net=False, batch_size=bs, max_seqs=mx):
            on_frame_batch(b)
    finally:
        EB.Batch.get_num_seqs = orig
    S.prove(g.G == g.base(g.stream.n), "every frame of every slice is in exactly one batch")


# ---- BatchSetGenerator: class invariant  buffer == gen[pos : pos + len(buffer)]


class GenIter:
    def __init__(self, s):
        self.it = PIter(s)

    def __next__(self):
        return next(self.it)

    def __iter__(self):
        return self


class ReadUpTo(LoopContract):
    name = "fill buffer"

    def match(self, L):
        o = L.env.get("self")
        return L.kind == "for" and isinstance(o, EB.BatchSetGenerator)

    def havoc(self, L):
        o = L["self"]
        g = S.g
        set_state(o)
        L.modifies(o.buffer, o.cache, g.it)
        L.modifies_attr(o, "buffer", "cache", "reached_end")
        L.data["n"] = L.env.get("n")
        return {}

    def inv(self, L):
        for x in gen_inv(L["self"], L.mode):
            yield x
        if L.mode == "entry":
            L.data["len0"] = to_seq(L["self"].buffer).n
        b = to_seq(L["self"].buffer).n
        n = L.env.get("n")
        yield "after i reads at least i batches are buffered", Or(b >= L.i, L["self"].reached_end)
        yield "the buffer never shrinks, and is filled up to n at most", And(b >= L.data["len0"], Or(b <= _t(n), b == L.data["len0"]))


def set_state(o):
    g = S.g
    k = S.int("read", lo=0).t  # batches read from the generator so far
    S.assume(And(k >= g.pos, k <= g.gen.n))
    g.it.pos = k
    o.buffer = PList(mkslice(g.gen, g.pos, k))
    o.cache = PList(mkslice(g.gen, z3.IntVal(0), k)) if o.cache_whole_epoch else PList(Conc([]))
    o.reached_end = S.bool("reached_end")


def gen_inv(o, mode):
    g = S.g
    b = to_seq(o.buffer)
    yield "buffer length", And(eq(SymNum(b.n), SymNum(g.it.pos - g.pos)), b.n >= 0)
    if mode != "assume":
        j = S.int("skg", lo=0)
        if S.decide(j.t < b.n):
            yield "the buffer holds the next batches in order", b.at(j.t).k == _simp(g.pos + j.t)
        c = to_seq(o.cache)
        if o.cache_whole_epoch:
            yield "the cache holds everything read so far", eq(SymNum(c.n), SymNum(g.it.pos))
            j = S.int("skg", lo=0)
            if S.decide(j.t < c.n):
                yield "the cache keeps the order", c.at(j.t).k == j.t
    yield "end of the generator is reported only when it is exhausted", Implies(o.reached_end, g.it.pos == g.gen.n)


class Tok:
    def __init__(self, k):
        self.k = k


def mkgen(cache):
    g = S.g
    n, pos = S.int("n", lo=0), S.int("pos", lo=0)
    S.assume(pos <= n)
    S.inputs.update(n=n, pos=pos)
    g.gen = Fn(n.t, lambda k: Tok(_t(k)), "gen")
    g.it = PIter(g.gen)
    g.pos = pos.t
    o = object.__new__(EB.BatchSetGenerator)
    o.__dict__.update(dataset=None, generator=g.it, shuffle_batches=False, cache_whole_epoch=cache, last_batch=None, cache_active=False, current_batch_idx=pos)
    set_state(o)
    for lab, c in gen_inv(o, "assume"):
        S.assume(c)
    S.reachable()
    return o


def gen_post(o):
    for lab, c in gen_inv(o, "prove"):
        S.prove(c, "class invariant: " + lab)


def u_gen_advance(cache):
    def u():
        o = mkgen(cache)
        g = S.g
        m = S.int("m", lo=1)
        S.inputs["m"] = m
        S.assume(g.pos + m.t <= g.gen.n)
        o.advance(m)
        g.pos = _simp(g.pos + m.t)
        gen_post(o)
        S.prove(eq(SymNum(o.last_batch.k), SymNum(g.pos - 1)), "the last batch is the one just passed")
        S.prove(eq(o.current_batch_idx, SymNum(g.pos)), "the batch counter counts the batches passed")

    return u


def u_gen_peek(cache):
    def u():
        o = mkgen(cache)
        g = S.g
        m = S.int("m", lo=0)
        S.inputs["m"] = m
        r = to_seq(o.peek_next_n(m))
        S.prove(eq(SymNum(r.n), Min(m, SymNum(g.gen.n - g.pos))), "peek gives the next n batches, or all that are left")
        j = S.int("j", lo=0)
        if S.decide(j.t < r.n):
            S.prove(r.at(j.t).k == _simp(g.pos + j.t), "peek gives the next batches in order")
        gen_post(o)

    return u


def u_gen_more():
    o = mkgen(True)
    g = S.g
    r = o.has_more()
    S.prove(Iff(r, g.pos < g.gen.n), "has_more iff a batch is left")
    gen_post(o)


def units(tier):
    f = [F + "BatchingIterDataPipe.__init__", F + "BatchingIterDataPipe.__iter__", F + "BatchingIterDataPipe._parse_batch_size", F + "BatchingIterDataPipe._parse_max_seqs"] + NDF
    yield "torch batching, one key", u_torch(["data"], None, True), dict(loops=[TorchBatching()], functions=f)
    yield "torch batching, two keys", u_torch(["data", "classes"], None, True), dict(loops=[TorchBatching()], functions=f)
    yield "torch batching, limit per key", u_torch(["data", "classes"], ["data"], False), dict(loops=[TorchBatching()], functions=f)
    fb = [BF + "_generate_batches", EF + "Batch.try_sequence_as_slice", EF + "Batch.add_sequence_as_slice", EF + "BatchSeqCopyPart.__init__", EF + "Batch.get_all_slices_num_frames"] + NDF
    yield "sequence batching, one key", u_rec(["data"]), dict(loops=[RecBatching()], functions=fb)
    yield "sequence batching, two keys", u_rec(["data", "classes"]), dict(loops=[RecBatching()], functions=fb)
    yield "sequence batching, padding limit", u_rec(["data"], maxpad=True), dict(loops=[RecBatching()], functions=fb)
    yield "sequence batching, length filters", u_rec(["data"], filters=True), dict(loops=[RecBatching()], functions=fb)
    yield "sequence batching, context window", u_rec(["data"], ctx=True), dict(loops=[RecBatching()], functions=fb)
    for m in (1, 3):
        yield "total frames, %i parts" % m, u_total(m), dict(functions=[EF + "Batch.get_total_num_frames"], bounded="batches of %i parts" % m)
    yield "frame-wise batching", u_frames, dict(loops=[FrameSlices(), FrameLoop()], functions=[BF + "_generate_batches", EF + "Batch.add_frames", EF + "BatchSeqCopyPart.__init__", NF + "copy_like", NF + "min"])
    fg = [EF + "BatchSetGenerator." + x for x in ("_read_next", "_read_next_up_to_n", "peek_next_n", "advance", "has_more")]
    for c in (False, True):
        yield "batch buffer: advance, cache=%s" % c, u_gen_advance(c), dict(loops=[ReadUpTo()], functions=fg)
        yield "batch buffer: peek, cache=%s" % c, u_gen_peek(c), dict(loops=[ReadUpTo()], functions=fg)
    yield "batch buffer: has_more", u_gen_more, dict(loops=[ReadUpTo()], functions=fg)
    S.assumptions.extend([
        "iterate_seqs is used through its contract (P03): a stream of (sequence, start, end) with start <= end",
        "data keys: proved for the key sets {data} and {data, classes}",
        "K (positions of the slices passing the filters) and PS (prefix sums of their lengths) are ghost functions defined by recursion over the stream",
        "frame-wise mode: the early close after max_seqs is modelled as an arbitrary decision",
    ])
