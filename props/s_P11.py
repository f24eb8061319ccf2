from props.lib import *
from props.lib import _t, _simp
import returnn.datasets.meta as M
from returnn.datasets.cached2 import CachedDataset2
from returnn.datasets.basic import Dataset, DatasetSeq
from returnn.datasets.meta import ConcatDataset, CombinedDataset, MetaDataset, MultiEpochDataset, ConcatSeqsDataset

F = "returnn/datasets/meta.py:"


class Seq1:
    """a sequence as given to the consumer (DatasetSeq without its checks that the data are numpy arrays)"""

    def __init__(self, seq_idx, features, targets=None, seq_tag=None):
        self.seq_idx, self.seq_tag = seq_idx, seq_tag
        self.features = features if isinstance(features, dict) else {"data": features, **(targets or {})}


M.DatasetSeq = Seq1


class Part(Dataset, Sym):
    """
    a part of a dataset, by the contract of P10: n sequences; load_seqs with increasing starts, then the window
    holds [lo, hi) of those that exist; data and tag of the sequences in the window
    """

    def __init__(self, d, n=None):
        self.d = d
        self.n = S.int("n%s" % d, lo=0) if n is None else n
        self.lo, self.hi = SymNum(z3.IntVal(0)), SymNum(z3.IntVal(0))
        self.inits = []

    def __bool__(self):
        return True

    def _pv_truth(self):
        return True

    def _pv_types(self):
        return (Dataset,)

    def load_seqs(self, a, b):
        S.prove(And(SymNum(_t(a)) >= self.lo, SymNum(_t(b)) >= SymNum(_t(a))), "a part is loaded with increasing starts")
        self.hi = If(SymNum(_t(b)) > self.hi, SymNum(_t(b)), self.hi)
        self.lo = SymNum(_t(a))

    @property
    def num_seqs(self):
        return self.n

    def is_less_than_num_seqs(self, i):
        return mkbool(_t(i) < _t(self.n))

    def get_data(self, i, key):
        i = SymNum(_t(i))
        S.prove(And(i >= self.lo, i < self.hi, i < self.n, i >= 0), "only loaded sequences of a part are accessed")
        return ("data", self.d, i, key, len(self.inits))

    def get_tag(self, i):
        i = SymNum(_t(i))
        S.prove(And(i >= 0, i < self.n), "only existing sequences of a part are accessed")
        return ("tag", self.d, i)

    def get_data_keys(self):
        return ["data", "classes"]

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        self.inits.append((epoch, seq_list, seq_order))
        self.lo, self.hi = SymNum(z3.IntVal(0)), SymNum(z3.IntVal(0))
        return True


class Window(CachedDataset2):
    """CachedDataset2._load_seqs by contract (P10): collects some of the sequences of the range, each at most once"""

    def _load_seqs(self, start, end):
        g = S.g
        S.prove(And(eq(start, g.a), eq(end, g.b)), "the range asked for is handed on")
        i = S.int("idx", lo=0)
        if S.decide(And(i >= start, i < end, i >= g.fresh)):
            S.inputs["idx"] = i
            g.on_collect(self, i)


def part_of(i, ns):
    """case split over the part that global sequence i is in: (part, local index), None beyond the end"""
    at = SymNum(z3.IntVal(0))
    for d, n in enumerate(ns):
        if S.decide(i < at + n):
            return d, i - at
        at = at + n
    return None


def check_seq(seq, i, exp, keys, inits=None):
    d, loc = exp
    S.prove(eq(seq.seq_idx, i), "index of the sequence")
    S.prove(seq.seq_tag[1] == d, "tag of the right part")
    S.prove(eq(seq.seq_tag[2], loc), "tag of the right sequence")
    S.prove(set(seq.features) == set(keys), "data keys")
    for k, src in keys.items():
        x = seq.features[k]
        S.prove(x[1] == d and x[3] == src, "data of the right part and key")
        S.prove(eq(x[2], loc), "data of the right sequence")


# ---------------------------------------------------------------- ConcatDataset


class XConcat(ConcatDataset, Window):
    pass


def concat_state(k, r):
    """offsets of the first r+1 parts are known"""
    g = S.g
    S.while_unroll = 8
    ds = XConcat.__new__(XConcat)
    CachedDataset2.__init__(ds)
    ds.epoch = S.int("epoch", lo=1)
    ds.datasets = [Part(d) for d in range(k)]
    g.ns = [p.n for p in ds.datasets]
    S.inputs.update({"n%d" % d: n for d, n in enumerate(g.ns)})
    offs, at = [], SymNum(z3.IntVal(0))
    for d in range(r + 1):
        offs.append(-at if d else 0)
        at = at + g.ns[d]
    ds.dataset_seq_idx_offsets = PList(Conc(offs))
    return ds


def u_concat_lookup(k, r):
    def un():
        g = S.g
        ds = concat_state(k, r)
        i = S.int("idx", lo=0)
        S.inputs["idx"] = i
        S.reachable()
        d = ds._get_dataset_for_seq_idx(i)
        at = SymNum(z3.IntVal(0))
        for q in range(r + 1):
            nxt = at + g.ns[q]
            if q < r:
                S.prove(Implies(And(i >= at, i < nxt), eq(d, q)), "the part that has the sequence")
            else:
                S.prove(Implies(i >= at, eq(d, q)), "the last known part otherwise")
            at = nxt

    return un


def u_concat_load(k, r):
    def un():
        g = S.g
        ds = concat_state(k, r)
        g.start, g.fresh = S.int("start", lo=0), S.int("fresh", lo=0)
        g.a, g.b = S.int("a", lo=0), S.int("b", lo=0)
        S.inputs.update(start=g.start, a=g.a, b=g.b, fresh=g.fresh)
        S.assume(And(g.a >= g.start, g.b >= g.a))
        at = SymNum(z3.IntVal(0))
        for d, p in enumerate(ds.datasets):
            # windows of the parts: never ahead of the global window
            p.lo, p.hi = S.int("lo%d" % d, lo=0), S.int("hi%d" % d, lo=0)
            S.assume(And(p.lo <= If(g.start > at, g.start - at, 0), p.hi >= p.lo))
            if d > r:  # not reached before
                S.assume(And(p.lo == 0, p.hi == 0, Or(g.start <= at, d == r + 1)))
            at = at + p.n
        ds.expected_load_seq_start = g.start
        ds.added_data = PList(Conc([]))

        def on_collect(self, i):
            seq = ConcatDataset._collect_single_seq(self, i)
            exp = part_of(i, g.ns)
            if exp is None:
                S.prove(seq is None, "nothing beyond the end")
                return
            S.prove(seq is not None, "every existing sequence is given")
            check_seq(seq, i, exp, {"data": "data", "classes": "classes"})

        g.on_collect = on_collect
        S.reachable()
        ConcatDataset._load_seqs(ds, g.a, g.b)
        offs = to_seq(ds.dataset_seq_idx_offsets)
        c = offs.conc_len()
        at = SymNum(z3.IntVal(0))
        S.prove(c is not None and c <= k, "at most one offset per part")
        for d in range(c):
            S.prove(eq(offs.at(z3.IntVal(d)), -at), "known offsets are the number of sequences before the part")
            at = at + g.ns[d]
        at = SymNum(z3.IntVal(0))
        for d, p in enumerate(ds.datasets):
            S.prove(p.lo <= If(g.a > at, g.a - at, 0), "the window of a part is never ahead")
            if d >= c:
                S.prove(And(p.lo == 0, p.hi == 0, Or(d == c, g.a <= at)), "parts that are not reached are not loaded")
            at = at + p.n

    return un


def u_concat_init(k):
    def un():
        g = S.g
        ds = concat_state(k, k - 1)
        e = S.int("ep", lo=1)
        started = S.bool("started")
        ds.expected_load_seq_start = S.int("st", lo=0)
        S.reachable()
        moved = ds.expected_load_seq_start > 0
        other = Not(eq(ds.epoch, e))
        ConcatDataset.init_seq_order(ds, epoch=e)
        n = {len(p.inits) for p in ds.datasets}
        S.prove(len(n) == 1 and max(n) <= 1, "all parts or none are started again")
        S.prove(Implies(Or(moved, other), max(n) == 1), "a new epoch, or an epoch that was read, starts all parts again")
        for p in ds.datasets:
            for ep, sl, so in p.inits:
                S.prove(eq(ep, e), "with that epoch")
                S.prove(sl is None and so is None, "in their own order")
        o = to_seq(ds.dataset_seq_idx_offsets)
        S.prove(o.conc_len() == 1, "offsets start again")
        S.prove(eq(o.at(z3.IntVal(0)), 0), "offsets start again")

    return un


# ---------------------------------------------------------------- CombinedDataset: which part


class Parts(Sym):
    """the dict of parts, any number of them (key i for part i)"""

    def __init__(self, k, n):
        self.k, self.nf = k, n

    def _pv_len(self):
        return self.k

    def __getitem__(self, d):
        d = _t(d)
        S.prove(And(d >= 0, d < self.k.t), "existing part", kind="safety")
        return Part(SymNum(d), SymNum(self.nf(d)))


class Ident(Sym):
    def __getitem__(self, i):
        return i


def comb_state():
    g = S.g
    ds = CombinedDataset.__new__(CombinedDataset)
    CachedDataset2.__init__(ds)
    g.k = S.int("k", lo=1)
    g.n = S.func("n", z3.IntSort(), z3.IntSort())
    g.ns = Fn(g.k.t, lambda d: SymNum(g.n(d)), "num_seqs")
    add_elem_fact(g.ns, lambda j, v: SymNum(g.n(j)) >= 0)
    ds.datasets = Parts(g.k, g.n)
    ds.dataset_idx2key_map = Ident()
    return ds


def u_comb_bound():
    g = S.g
    ds = comb_state()
    S.reachable()
    r = CombinedDataset._create_dataset_seq_idx_boundaries(ds)
    v = to_seq(r)
    S.prove(v.n == g.k.t + 1, "one boundary more than parts")
    S.prove(eq(v.at(z3.IntVal(0)), 0), "the first part starts at 0")
    j = S.int("j", lo=0)
    S.assume(j < g.k)
    if getattr(g, "cumsum_src", None) is not None:
        g.cumsum_src.psum_step(j.t)
    S.prove(eq(v.at(_simp(j.t + 1)), SymNum(_t(v.at(j.t)) + g.n(j.t))), "every part takes its number of sequences")


class Search(LoopContract):
    """the sequence is not before the current part"""

    name = "search part"

    def match(self, L):
        c = [k for k in L.names if isinstance(L.pre.get(k), (int, SymNum)) and not isinstance(L.pre.get(k), bool)]
        if L.kind != "while" or len(c) != 1:
            return False
        self.d = c[0]
        return True

    def havoc(self, L):
        return {self.d: S.int("d", lo=0)}

    def inv(self, L):
        g = S.g
        d = SymNum(_t(L[self.d]))
        yield "an existing part", And(d >= 0, d < g.k)
        yield "the sequence is not before the part", SymNum(_t(g.bound.at(d.t))) <= g.i


def u_comb_map():
    g = S.g
    ds = comb_state()
    g.bound = int_fn("bound", _simp(g.k.t + 1))
    b0, bk = g.bound.at(z3.IntVal(0)), g.bound.at(g.k.t)
    S.assume(eq(b0, 0))
    ds.dataset_seq_idx_boundaries = PList(g.bound)
    g.i = S.int("idx", lo=0)
    S.inputs["idx"] = g.i
    S.assume(g.i < bk)
    S.reachable()
    d, loc = CombinedDataset._seq_idx_to_dataset_seq_idx(ds, g.i)
    d = SymNum(_t(d))
    S.prove(And(d >= 0, d < g.k), "an existing part")
    lo, hi = g.bound.at(d.t), g.bound.at(_simp(d.t + 1))
    S.prove(And(g.i >= lo, g.i < hi), "the part that has the sequence")
    S.prove(eq(loc, g.i - lo), "the position within the part")


# ---------------------------------------------------------------- CombinedDataset: order and loading


class Count:
    """
    ghost: for an order of m sequences, part(j) is the part of entry j, C_d(j) the number of entries of part d before j,
    W_d(c) what was selected for the c-th entry of part d
    """

    def __init__(self, k, m):
        self.k, self.m = k, m
        self.part = S.func("part", z3.IntSort(), z3.IntSort())
        self.C = [S.func("C%d" % d, z3.IntSort(), z3.IntSort()) for d in range(k)]
        self.W = [S.func("W%d" % d, z3.IntSort(), z3.IntSort()) for d in range(k)]
        self.known = []
        for d in range(k):
            S.assume(self.C[d](z3.IntVal(0)) == 0)
        self.know(m.t)

    def know(self, j):
        """unfold the definition at position j"""
        j = _simp(_t(j))
        if any(z3.eq(j, x) for x in self.known):
            return
        self.known.append(j)
        S.assume(Implies(And(j >= 0, j < self.m.t), And(self.part(j) >= 0, self.part(j) < self.k)))
        nxt = _simp(j + 1)
        for d, C in enumerate(self.C):
            S.assume(Implies(And(j >= 0, j < self.m.t), C(nxt) == C(j) + z3.If(self.part(j) == d, 1, 0)))
            S.assume(Implies(j >= 0, And(C(j) >= 0, C(j) <= j)))
            for x in self.known[:-1]:  # C is monotonic
                for u in (x, _simp(x + 1)):
                    for v in (j, nxt):
                        S.assume(And(Implies(And(u <= v, u >= 0, v <= self.m.t), C(u) <= C(v)), Implies(And(v <= u, v >= 0, u <= self.m.t), C(v) <= C(u))))

    def local(self, j):
        j = _simp(_t(j))
        r = self.C[-1](j)
        for d in reversed(range(self.k - 1)):
            r = z3.If(self.part(j) == d, self.C[d](j), r)
        return r


class PartC(Part):
    def __init__(self, d):
        super().__init__(d)
        self.corpus = S.func("corpus%d" % d, z3.IntSort(), z3.IntSort())
        self.n0 = self.n
        self.partition_epoch = S.int("partition_epoch%d" % d, lo=1)
        self.repeat_epoch = 1

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        super().init_seq_order(epoch, seq_list, seq_order)
        if seq_order is not None:
            self.n = SymNum(to_seq(seq_order).n)

    def have_corpus_seq_idx(self):
        return True

    def get_corpus_seq_idx(self, i):
        i = SymNum(_t(i))
        S.prove(And(i >= 0, i < self.n0), "an existing sequence of the part")
        return SymNum(self.corpus(i.t))

    def __lt__(self, o):
        return NotImplemented


class XComb(CombinedDataset, Window):
    pass


# data key of the consumer -> data key of the part, other for every part
KEYS = [{"data": "data", "classes": "classes"}, {"data": "classes", "classes": "data"}, {"data": "data", "classes": "data"}]


def comb_conc(k):
    g = S.g
    S.while_unroll = 8
    ds = XComb.__new__(XComb)
    CachedDataset2.__init__(ds)
    names = "abc"[:k]
    ds.datasets = {x: PartC(d) for d, x in reversed(list(enumerate(names)))}
    ds.dataset_keys = set(names)
    ds.dataset_idx2key_map = dict(enumerate(names))
    g.parts = [ds.datasets[x] for x in names]
    g.k = k
    ds.sampling_sizes = None
    ds.data_dtypes = {"data": "float32", "classes": "int32"}
    ds.target_list = ["classes"]
    ds.target_lookup_table = {x: dict(KEYS[d]) for d, x in enumerate(names)}
    ds.dataset_sorted_seq_idx_list = None
    ds.used_num_seqs_per_subset = None
    ds.dataset_seq_idx_boundaries = None
    return ds


class Distribute(LoopContract):
    """for over the order: what is counted, listed and collected per part so far is given by the ghost counts"""

    name = "distribute over parts"

    def match(self, L):
        g = S.g
        if L.kind != "for" or getattr(g, "order", None) is None or L.seq is not g.order:
            return False
        self.pairs, self.counters, self.lists = None, None, None
        cand = {k: v for k, v in L.pre.items() if isinstance(v, PList)}
        x = g.ds.dataset_sorted_seq_idx_list
        if isinstance(x, PList):
            cand.setdefault(".sorted", x)
        seen = []
        for k, v in cand.items():
            if any(v is y for y in seen):
                continue
            seen.append(v)
            c = v.v.conc_len()
            if v.v is g.order:
                continue
            if c == g.k and all(isinstance(y, PList) for y in v.v.items):
                self.lists = v
            elif c == g.k and all(isinstance(y, int) and y == 0 for y in v.v.items):
                self.counters = v
            elif c == 0 and self.pairs is None:  # locals first
                self.pairs = v
        return True

    def havoc(self, L):
        g = S.g
        G = g.G
        i = L.i
        G.know(i)
        if self.counters is not None:
            self.counters.v = Conc([SymNum(G.C[d](i)) for d in range(g.k)])
            L.modifies(self.counters)
        if self.pairs is not None:
            self.pairs.v = pairs(i)
            L.modifies(self.pairs)
        if self.lists is not None:
            items = []
            for d in range(g.k):
                pl = PList(Fn(G.C[d](i), lambda c, d=d: SymNum(G.W[d](_simp(_t(c)))), "sel%d" % d))
                L.modifies(pl)
                items.append(pl)
            self.lists.v = Conc(items)
            L.modifies(self.lists)
        return {}

    def inv(self, L):
        g = S.g
        G = g.G
        i = L.i
        if L.mode == "assume":
            return
        if L.mode == "prove":
            last = _simp(i - 1)
            G.know(last)
            for d, p in enumerate(g.parts):  # definition of W
                S.assume(Implies(G.part(last) == d, G.W[d](G.C[d](last)) == p.corpus(g.local(last))))
        if self.counters is not None:
            v = self.counters.v
            for d in range(g.k):
                yield "counted per part", eq(v.at(z3.IntVal(d)), SymNum(G.C[d](i)))
        if self.pairs is not None:
            v = self.pairs.v
            yield "one entry per sequence", v.n == i
            j = S.int("skp", lo=0)
            if S.decide(And(j.t < v.n, j.t < i)):
                e, x = v.at(j.t), pairs(i).at(j.t)
                yield "every entry names its part", eq(e[0], x[0])
                yield "every entry is the next of its part", eq(e[1], x[1])
        if self.lists is not None:
            v = self.lists.v
            for d in range(g.k):
                s = to_seq(v.at(z3.IntVal(d)))
                yield "selected per part", s.n == G.C[d](i)
                j = S.int("skl", lo=0)
                if S.decide(And(j.t < s.n, j.t < G.C[d](i))):
                    yield "the selected sequences, in order", eq(s.at(j.t), SymNum(G.W[d](j.t)))


def pairs(n):
    G = S.g.G

    def mk(j):
        j = _simp(_t(j))
        G.know(j)
        return (SymNum(G.part(j)), SymNum(G.local(j)))

    return Fn(n, mk, "pairs")


def u_comb_init(k, how):
    def un():
        g = S.g
        ds = g.ds = comb_conc(k)
        e = S.int("ep", lo=1)
        ds.epoch = S.int("old_ep", lo=1)
        ds.expected_load_seq_start = S.int("st", lo=0)
        S.assume(Or(Not(eq(ds.epoch, e)), ds.expected_load_seq_start > 0))
        m = S.int("m", lo=0)
        S.inputs["m"] = m
        G = g.G = Count(k, m)
        o = S.func("order", z3.IntSort(), z3.IntSort())
        starts = [SymNum(z3.IntVal(0))]
        for p in g.parts:
            starts.append(starts[-1] + p.n)

        def fact(j, v):
            return And(v >= 0, v < starts[-1], *[Implies(And(v >= starts[d], v < starts[d + 1]), G.part(_t(j)) == d) for d in range(k)])

        g.order = Fn(m.t, lambda j: SymNum(o(_t(j))), "order", [fact])

        def local(j):
            v = SymNum(o(_simp(_t(j))))
            r = v - starts[k - 1]
            for d in reversed(range(k - 1)):
                r = If(mkbool(G.part(_simp(_t(j))) == d), v - starts[d], r)
            return _t(r)

        g.local = local

        def give(*a, **kw):
            for p in g.parts:
                S.prove(len(p.inits) == 1, "the order is chosen from the sequences of the new epoch")
            return PList(g.order)

        ds.get_seq_order_for_epoch = give
        ds._get_random_dataset_seq_order = give
        ds._get_sampling_seq_order = give
        ds.seq_ordering = "random_dataset" if how == "random_dataset" else "default"
        ds.sampling_sizes = {"a": 3} if how == "sampling" else None
        S.reachable()
        CombinedDataset.init_seq_order(ds, epoch=e)
        S.prove(eq(ds._num_seqs, m), "number of sequences of the epoch")
        v = to_seq(ds.dataset_sorted_seq_idx_list)
        S.prove(v.n == m.t, "one entry per sequence of the order")
        for d, p in enumerate(g.parts):
            S.prove(len(p.inits) == 2, "every part is started, and again with its selection")
            S.prove(And(eq(p.inits[0][0], e), eq(p.inits[1][0], e)), "with that epoch")
            S.prove(p.inits[0][1] is None and p.inits[0][2] is None and p.inits[1][1] is None, "its own order first")
            u = to_seq(ds.used_num_seqs_per_subset)
            S.prove(eq(u.at(z3.IntVal(d)), SymNum(to_seq(p.inits[1][2]).n)), "all selected sequences count as used")
        j = S.int("j", lo=0)
        if S.decide(j < m):
            g.order.at(j.t)
            G.know(j.t)
            for d in range(k):
                if S.decide(G.part(j.t) == d):
                    pd, c = v.at(j.t)
                    S.prove(eq(pd, d), "the part of the sequence")
                    sel = to_seq(g.parts[d].inits[1][2])
                    S.prove(And(SymNum(_t(c)) >= 0, SymNum(_t(c)) < SymNum(sel.n)), "the sequence is selected in the part")
                    for f, x in ((g.parts[d], local(j.t)),):
                        S.assume(G.W[d](G.C[d](j.t)) == f.corpus(x))
                    S.prove(eq(sel.at(_t(c)), SymNum(g.parts[d].corpus(local(j.t)))), "the selected sequence of the part is the one of the order")
                    break

    return un


class NoState(LoopContract):
    """for over a range: nothing but checks"""

    name = "checks only"

    def match(self, L):
        return L.kind == "for" and isinstance(L.seq, Range) and not [k for k in L.names if k not in L.tnames]


def u_comb_load(k):
    def un():
        g = S.g
        ds = comb_conc(k)
        m = S.int("m", lo=0)
        G = g.G = Count(k, m)
        g.start, g.fresh = S.int("start", lo=0), S.int("fresh", lo=0)
        g.a, g.b = S.int("a", lo=0), S.int("b", lo=0)
        S.inputs.update(start=g.start, a=g.a, b=g.b, fresh=g.fresh, m=m)
        S.assume(And(g.a >= g.start, g.b >= g.a, g.b <= m, g.start <= m, g.fresh >= g.start))
        for x in (g.start, g.a, g.b):
            G.know(x.t)
        for d, p in enumerate(g.parts):
            p.lo, p.hi = S.int("lo%d" % d, lo=0), S.int("hi%d" % d, lo=0)
            p.n = SymNum(G.C[d](m.t))
            S.assume(And(p.lo <= SymNum(G.C[d](g.start.t)), p.hi >= p.lo))
        ds.dataset_sorted_seq_idx_list = PList(pairs(m.t))
        ds._num_seqs = m
        i = S.int("idx", lo=0)
        S.inputs["idx"] = i
        inside = S.decide(And(i >= g.a, i < g.b, i >= g.fresh))
        wit = []
        for d in range(k):  # the first sequence of a part in the range, if there is one
            w = S.int("first%d" % d, lo=0)
            G.know(w.t)
            S.assume(Implies(G.C[d](g.a.t) < G.C[d](g.b.t), And(w >= g.a, w < g.b, G.part(w.t) == d, G.C[d](w.t) == G.C[d](g.a.t))))
            wit.append(w)
        if inside:
            G.know(i.t)
            wit.append(i)
            for d in range(k):
                if S.decide(G.part(i.t) == d):
                    break
        g.filter_witness = [lambda src, w=w: _simp(w.t - g.a.t) for w in wit]
        g.fresh = m  # the sequence is picked here already
        S.reachable()
        CombinedDataset._load_seqs(ds, g.a, g.b)
        for f in S.filters:
            for w in wit:
                r = f.rank(_simp(w.t - g.a.t))
                if S.entails(And(r >= 0, r < f.n)):
                    f.at(r)
        for d, p in enumerate(g.parts):
            S.prove(p.lo <= SymNum(G.C[d](g.a.t)), "the window of a part is never ahead")
        if inside:
            for d in range(k):
                if S.decide(G.part(i.t) == d):
                    seq = CombinedDataset._collect_single_seq(ds, i)
                    S.prove(seq is not None, "every existing sequence is given")
                    check_seq(seq, i, (d, SymNum(G.C[d](i.t))), KEYS[d])
                    break

    return un


# ---------------------------------------------------------------- MetaDataset


class XMeta(MetaDataset, Window):
    pass


class TagIdx(Sym):
    """position of a tag (of the default part) in the original list"""

    def __getitem__(self, t):
        return SymNum(t[2])


def meta_state():
    """two parts a, b; sequence s has tag ("orig", part, s) in the part"""
    g = S.g
    ds = XMeta.__new__(XMeta)
    CachedDataset2.__init__(ds)
    ds.datasets = {"b": Part("b"), "a": Part("a")}
    ds.dataset_keys = {"a", "b"}
    ds.data_map = {"data": ("a", "classes"), "classes": ("b", "data"), "x": ("b", "classes")}
    ds.data_keys = set(ds.data_map)
    ds.default_dataset_key = "a"
    ds.seq_order_control_dataset = None
    ds._seq_lens = ds._seq_order_seq_lens_file = None
    ds.orig_seq_order_is_initialized = False
    ds._epoch_have_predefined_seq_order = False
    g.total = ds.num_total_seqs = S.int("total", lo=0)
    ds.seq_list_original = {k: PList(Fn(g.total.t, lambda j, k=k: ("orig", k, _simp(_t(j))), "tags_" + k)) for k in ("a", "b")}
    ds.tag_idx = TagIdx()
    ds.seq_list_ordered = None
    return ds


def u_meta_init(how):
    def un():
        g = S.g
        ds = meta_state()
        e = S.int("ep", lo=1)
        ds.epoch = S.int("old_ep", lo=1)
        m = S.int("m", lo=0)
        S.inputs["m"] = m
        o = S.func("index", z3.IntSort(), z3.IntSort())
        index = Fn(m.t, lambda j: SymNum(o(_t(j))), "index", [lambda j, v: And(v >= 0, v < g.total)])
        kw = {}
        ds.expected_load_seq_start = S.int("st", lo=0)
        if how == "again":
            # the same epoch was started with a predefined order before
            ds.seq_list_ordered = {"a": PList(Conc([])), "b": PList(Conc([]))}
            ds._epoch_have_predefined_seq_order = True
            S.assume(eq(ds.epoch, e))
        elif how in ("order", "list"):
            ds.seq_list_ordered = {"a": PList(Conc([])), "b": PList(Conc([]))}
            kw = dict(seq_order=PList(index)) if how == "order" else dict(seq_list=PList(MapSeq(index, lambda v: ("orig", "a", _t(v)))))
        elif how == "control":
            ds.seq_order_control_dataset = "a"
            ds.datasets["a"].get_current_seq_order = lambda: PList(index)
        ds.get_seq_order_for_epoch = lambda *a, **k: PList(index)
        S.reachable()
        MetaDataset.init_seq_order(ds, epoch=e, **kw)
        S.prove(eq(ds._num_seqs, m), "number of sequences of the epoch")
        j = S.int("j", lo=0)
        for k, p in ds.datasets.items():
            S.prove(len(p.inits) == 1, "every part is started once")
            ep, sl, so = p.inits[0]
            S.prove(eq(ep, e), "with that epoch")
            v = to_seq(ds.seq_list_ordered[k])
            S.prove(v.n == m.t, "one tag per sequence")
            if how == "control" and k == "a":
                S.prove(sl is None and so is None, "the control part has its own order")
                lists = [v]
            else:
                S.prove(sl is not None, "with the list of its own tags")
                lists = [v, to_seq(sl)]
                S.prove(lists[1].n == m.t, "one tag per sequence")
            if S.decide(j < m):
                for x in lists:
                    t = x.at(j.t)
                    S.prove(t[1] == k, "tags of that part")
                    S.prove(t[2] == o(j.t), "all parts give the same sequence at the same position")

    return un


class TPart(Part):
    """get_tag by contract: the tag of the list the part was started with"""

    def get_tag(self, i):
        i = SymNum(_t(i))
        S.prove(And(i >= self.lo, i < self.hi, i < self.n, i >= 0), "only loaded sequences of a part are accessed")
        return SymNum(S.g.tags[self.d](_t(i)))


def u_meta_load():
    g = S.g
    ds = meta_state()
    m = ds._num_seqs = S.int("m", lo=0)
    g.start, g.fresh, g.base = S.int("start", lo=0), S.int("fresh", lo=0), S.int("base", lo=0)
    g.a, g.b = S.int("a", lo=0), S.int("b", lo=0)
    S.inputs.update(start=g.start, a=g.a, b=g.b, fresh=g.fresh, m=m)
    g.tags = {k: S.func("tag_" + k, z3.IntSort(), z3.IntSort()) for k in "ab"}
    ds.datasets = {k: TPart(k, m) for k in "ab"}
    ds.seq_list_ordered = {k: PList(Fn(m.t, lambda j, k=k: SymNum(g.tags[k](_t(j))), "ordered")) for k in "ab"}
    held = g.fresh - g.base  # sequences base .. fresh-1 are held
    S.assume(And(g.a >= g.start, g.b >= g.a, held >= 0, g.fresh <= m, Or(held == 0, And(g.base <= g.start, g.fresh >= g.start))))
    for p in ds.datasets.values():
        p.lo, p.hi = S.int("lo", lo=0), S.int("hi", lo=0)
        # the window of a part starts at most at the next sequence that is not held
        S.assume(And(p.lo <= If(And(held > 0, g.fresh > g.start), g.fresh, g.start), p.hi >= p.lo))

    class E:
        def __init__(self, i):
            self.seq_idx = SymNum(_t(i))

    ds.added_data = PList(Fn(held.t, lambda j: E(g.base.t + _t(j)), "added"))

    def on_collect(self, i):
        seq = MetaDataset._collect_single_seq(self, i)
        if not S.decide(i < m):
            S.prove(seq is None, "nothing beyond the end")
            return
        S.prove(seq is not None, "every existing sequence is given")
        S.prove(eq(seq.seq_idx, i), "index of the sequence")
        S.prove(eq(seq.seq_tag, SymNum(g.tags["a"](i.t))), "tag of the sequence")
        S.prove(set(seq.features) == set(ds.data_map), "data keys")
        for k, (d, k2) in ds.data_map.items():
            x = seq.features[k]
            S.prove(x[1] == d and x[3] == k2, "data of the right part and key")
            S.prove(eq(x[2], i), "data of the sequence")

    g.on_collect = on_collect
    if S.decide(held == 0):
        g.fresh = SymNum(z3.IntVal(0))
    S.reachable()
    MetaDataset._load_seqs(ds, g.a, g.b)
    for p in ds.datasets.values():
        e = If(And(held > 0, g.fresh > g.b), g.fresh, g.b)
        S.prove(p.lo <= If(e > g.a, e, g.a), "the window of a part is never ahead of the sequences that are not held")


# ---------------------------------------------------------------- ConcatSeqsDataset


class CTag(Sym):
    """a tag made of L(j) tags"""

    def __init__(self, j):
        self.j = j

    def split(self, sep=None):
        g = S.g
        S.prove(sep == ";", "split at the delimiter")
        return PList(Fn(g.L(self.j), lambda q: ("sub", self.j, _simp(_t(q))), "subtags", [lambda q, v: g.L(self.j) >= 1]))


class Flatten(LoopContract):
    """the sub tags so far are listed one after the other, and P(j) .. P(j+1)-1 are the positions of those of sequence j"""

    name = "flatten"

    def match(self, L):
        g = S.g
        if L.kind != "for" or getattr(g, "tags", None) is None or not (L.seq is g.tags or S.decide(L.seq.n == g.tags.n)):
            return False
        ls = [k for k, v in L.pre.items() if isinstance(v, PList) and v.v.conc_len() == 0]
        nums = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), int) and not isinstance(L.pre.get(k), bool)]
        if len(ls) != 2 or len(nums) > 1:
            return False
        self.ls, self.num = ls, nums[0] if nums else None
        return True

    def roles(self, L):
        """(list of sub tags, list of positions): told apart by the names of the code, or by content once there is some"""
        a, b = self.ls
        if "idx" in a or "idx" in b:
            return (b, a) if "idx" in a else (a, b)
        raise Unsupported("which list has the positions")

    def havoc(self, L):
        g = S.g
        t, x = self.roles(L)
        i = L.i
        g.step(i)
        L.modifies(L.pre[t], L.pre[x])
        L.pre[t].v = Fn(g.P(i), lambda c: ("flat", _simp(_t(c))), "flat")
        L.pre[x].v = Fn(i, lambda j: g.rng(j), "ranges")
        return {self.num: SymNum(g.P(i))} if self.num else {}

    def inv(self, L):
        g = S.g
        t, x = self.roles(L)
        i = L.i
        if self.num:
            yield "position of the next sub sequence", eq(L[self.num], SymNum(g.P(i)))
        if L.mode == "assume":
            return
        s = to_seq(L[t])
        yield "number of sub sequences so far", s.n == g.P(i)
        c = S.int("skc", lo=0)
        if S.decide(And(c.t < s.n, c.t < g.P(i))):
            e = s.at(c.t)
            if e[0] == "sub":
                yield "the sub sequences of the last one follow", c.t == g.P(e[1]) + e[2]
            else:
                yield "the earlier sub sequences are unchanged", e[1] == c.t
        s = to_seq(L[x])
        yield "positions for every sequence", s.n == i
        j = S.int("skj", lo=0)
        if S.decide(And(j.t < s.n, j.t < i)):
            g.step(j.t)
            r = to_seq(s.at(j.t))
            yield "number of positions", r.n == g.L(j.t)
            q = S.int("skq", lo=0)
            if S.decide(And(q.t < r.n, q.t < g.L(j.t))):
                yield "positions of the sub sequences", eq(r.at(q.t), SymNum(g.P(j.t) + q.t))


def u_cseqs_init():
    g = S.g
    ds = ConcatSeqsDataset.__new__(ConcatSeqsDataset)
    CachedDataset2.__init__(ds)
    ds.seq_tag_delim = ";"
    ds.epoch_wise_filter = None
    p = ds.dataset = Part(0)
    total, m = S.int("total", lo=0), S.int("m", lo=0)
    g.L = S.func("L", z3.IntSort(), z3.IntSort())
    g.P = S.func("P", z3.IntSort(), z3.IntSort())
    o = S.func("order", z3.IntSort(), z3.IntSort())
    S.assume(g.P(z3.IntVal(0)) == 0)

    def step(i):
        S.assume(Implies(_t(i) >= 0, And(g.L(_t(i)) >= 1, g.P(_simp(_t(i) + 1)) == g.P(_t(i)) + g.L(_t(i)), g.P(_t(i)) >= _t(i))))

    g.step = step

    def rng(j):
        step(j)
        return PList(Range(SymNum(g.P(_t(j))), SymNum(g.P(_simp(_t(j) + 1))), 1))

    g.rng = rng
    order = Fn(m.t, lambda j: SymNum(o(_t(j))), "order", [lambda j, v: And(v >= 0, v < total)])
    ds.full_seq_list = PList(Fn(total.t, lambda j: ("full", _t(j)), "full"))
    # positions in the order are the identity of a sequence here: tag j of the epoch
    g.tags = Fn(m.t, lambda j: CTag(_simp(_t(j))), "tags")
    ds.full_seq_len_list = None
    ds.get_seq_order_for_epoch = lambda **k: PList(order)

    class Full(Sym):
        def _pv_len(self):
            return total

        def __getitem__(self, i):
            # the j-th of the order is looked up: i = order[j]
            t = _t(i)
            if z3.is_app(t) and t.decl().eq(o):
                return CTag(t.arg(0))
            raise Unsupported("full list")

    ds.full_seq_list = Full()
    e = S.int("ep", lo=1)
    S.reachable()
    ConcatSeqsDataset.init_seq_order(ds, epoch=e)
    S.prove(eq(ds._num_seqs, m), "number of sequences")
    S.prove(len(p.inits) == 1, "the inner dataset is started once")
    ep, sl, so = p.inits[0]
    S.prove(eq(ep, e), "with that epoch")
    v = to_seq(sl)
    S.prove(v.n == g.P(m.t), "all sub sequences")
    x = to_seq(ds.cur_sub_seq_idxs)
    S.prove(x.n == m.t, "positions for every sequence")
    j = S.int("j", lo=0)
    if S.decide(j < m):
        g.step(j.t)
        r = to_seq(x.at(j.t))
        q = S.int("q", lo=0)
        S.prove(r.n == g.L(j.t), "as many positions as sub sequences")
        if S.decide(q.t < r.n):
            S.prove(eq(r.at(q.t), SymNum(g.P(j.t) + q.t)), "the positions of the sub sequences in the inner order")


# ---------------------------------------------------------------- MultiEpochDataset


def multi_state():
    g = S.g
    ds = MultiEpochDataset.__new__(MultiEpochDataset)
    CachedDataset2.__init__(ds)
    ds._dataset = Part(0)
    ds._multi_epoch = S.int("multi", lo=1)
    S.inputs["multi"] = ds._multi_epoch
    return ds


def u_multi_init():
    g = S.g
    ds = multi_state()
    e = S.int("ep", lo=1)
    ds._cur_inner_epoch_offset = S.int("o0", lo=0)
    ds._cur_inner_epoch_seq_idx_offset = S.int("o1", lo=0)
    S.reachable()
    MultiEpochDataset.init_seq_order(ds, epoch=e)
    S.prove(len(ds._dataset.inits) == 1, "the inner dataset is started once")
    S.prove(eq(ds._dataset.inits[0][0], (e - 1) * ds._multi_epoch + 1), "with the first of its inner epochs")
    S.prove(And(eq(ds._cur_inner_epoch_offset, 0), eq(ds._cur_inner_epoch_seq_idx_offset, 0)), "nothing is read yet")
    S.prove(eq(ds._cur_inner_start_epoch, (e - 1) * ds._multi_epoch + 1), "first inner epoch")
    # the next epoch goes on where this one ends
    MultiEpochDataset.init_seq_order(ds, epoch=e + 1)
    S.prove(eq(ds._dataset.inits[1][0], ds._dataset.inits[0][0] + ds._multi_epoch), "consecutive inner epochs over the epochs")


class InnerPart(Part):
    """every inner epoch has its own number of sequences, at least one"""

    def __init__(self):
        super().__init__(0)
        self.ep = None

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        self.ep = epoch
        self.n = S.int("n_ep", lo=1)


def u_multi(pre):
    def un():
        g = S.g
        ds = multi_state()
        p = ds._dataset = InnerPart()
        s = ds._cur_inner_start_epoch = S.int("start_ep", lo=1)
        o = ds._cur_inner_epoch_offset = S.int("o0", lo=0)
        q = ds._cur_inner_epoch_seq_idx_offset = S.int("o1", lo=0)
        i = S.int("idx", lo=0)
        ds._epoch_have_predefined_seq_order = pre
        S.inputs.update(o0=o, o1=q, idx=i, n=p.n)
        # invariant: inner epoch number o of the epoch, its first sequence has index q; sequences are collected in order
        S.assume(And(i >= q, i <= q + p.n, o < ds._multi_epoch, p.n >= 1))
        n0, p.hi = p.n, S.int("hi", lo=0)
        p.lo = S.int("lo", lo=0)
        S.assume(And(p.lo <= i - q, p.lo <= p.n))
        S.reachable()
        r = MultiEpochDataset._collect_single_seq(ds, i)
        keys = {"data": "data", "classes": "classes"}
        if S.decide(i < q + n0):
            S.prove(r is not None, "the inner epoch goes on")
            check_seq(r, i, (0, i - q), keys)
            S.prove(not p.inits, "the inner epoch is not started again")
            S.prove(And(eq(ds._cur_inner_epoch_offset, o), eq(ds._cur_inner_epoch_seq_idx_offset, q)), "same inner epoch")
        elif pre:
            S.prove(r is None, "a predefined order is read once")
        elif S.decide(o + 1 < ds._multi_epoch):
            S.prove(r is not None, "the next inner epoch follows")
            check_seq(r, i, (0, SymNum(z3.IntVal(0))), keys)
            S.prove(len(p.inits) == 1, "the next inner epoch is started once")
            S.prove(eq(p.inits[0][0], s + o + 1), "the next inner epoch")
            S.prove(And(eq(ds._cur_inner_epoch_offset, o + 1), eq(ds._cur_inner_epoch_seq_idx_offset, i)), "position of the next inner epoch")
        else:
            S.prove(r is None, "the epoch ends after the configured number of inner epochs")

    return un


def units(tier):
    S.assumptions += [
        "the parts of a dataset obey the contract of P10 and P01: n sequences, load_seqs with increasing starts, then data and tags of the loaded ones",
        "CachedDataset2._load_seqs by its contract (P10): collects sequences of the range at most once",
        "DatasetSeq is a plain record (its checks that the data are numpy arrays are dropped)",
        "number of parts 1..3 for ConcatDataset and the epoch start of CombinedDataset, 1..2 for loading with CombinedDataset; everything else of any size",
        "get_seq_order_for_epoch by P02: any list of existing sequences",
        "CombinedDataset's sampling and random_dataset orders, the data map of its constructor, and the concatenated arrays of ConcatSeqsDataset: bounded (concrete) only",
    ]
    cf = [F + "ConcatDataset." + x for x in ("_get_dataset_for_seq_idx", "_load_seqs", "_collect_single_seq", "init_seq_order")]
    for k in (1, 2, 3):
        for r in range(k):
            yield "concat, which part, %d of %d known" % (r + 1, k), u_concat_lookup(k, r), dict(functions=cf[:1])
            yield "concat, load, %d of %d known" % (r + 1, k), u_concat_load(k, r), dict(functions=cf[:3])
        yield "concat, new epoch, %d parts" % k, u_concat_init(k), dict(functions=cf[3:])
    yield "combined, boundaries", u_comb_bound, dict(functions=[F + "CombinedDataset._create_dataset_seq_idx_boundaries"], loops=[CumSum()])
    yield "combined, which part", u_comb_map, dict(functions=[F + "CombinedDataset._seq_idx_to_dataset_seq_idx"], loops=[Search()])
    for k in (1, 2, 3):
        for how in ("default", "random_dataset", "sampling"):
            if k == 3 or how == "default":
                yield "combined, new epoch, %d parts, %s" % (k, how), u_comb_init(k, how), dict(functions=[F + "CombinedDataset." + x for x in ("init_seq_order", "_seq_idx_to_dataset_seq_idx", "_create_dataset_seq_idx_boundaries")], loops=[Distribute()])
    for k in (1, 2):
        yield "combined, load, %d parts" % k, u_comb_load(k), dict(functions=[F + "CombinedDataset." + x for x in ("_load_seqs", "_collect_single_seq", "_get_data", "is_less_than_num_seqs")])
    for how in ("own", "order", "list", "control", "again"):
        yield "meta, new epoch, %s" % how, u_meta_init(how), dict(functions=[F + "MetaDataset.init_seq_order"])
    yield "meta, load", u_meta_load, dict(functions=[F + "MetaDataset." + x for x in ("_load_seqs", "_check_dataset_seq", "_collect_single_seq", "_get_data")], loops=[NoState()])
    yield "cseqs, new epoch", u_cseqs_init, dict(functions=[F + "ConcatSeqsDataset.init_seq_order"], loops=[Flatten()])
    yield "multi-epoch, new epoch", u_multi_init, dict(functions=[F + "MultiEpochDataset.init_seq_order"])
    for pre in (False, True):
        yield "multi-epoch, next sequence, predefined=%s" % pre, u_multi(pre), dict(functions=[F + "MultiEpochDataset._collect_single_seq"])
