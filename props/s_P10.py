from props.lib import *
from props.lib import _t, _simp
import returnn.datasets.cached2 as C2
import returnn.datasets.basic as DB
from returnn.datasets.cached2 import CachedDataset2

F = "returnn/datasets/cached2.py:"
BF = "returnn/datasets/basic.py:"

# class invariant of CachedDataset2 (start = expected_load_seq_start, N = number of sequences of the epoch):
#   added_data holds the sequences base, base+1, ..., base+m-1, all < N, each as collected once;
#   nothing missing between start and base+m: base <= start <= base+m (if not empty)


class Sq(Sym):
    """result of _collect_single_seq(idx): a sequence if idx < N, otherwise None"""

    def __init__(self, idx, new):
        self.seq_idx, self.new = SymNum(_t(idx)), new

    def _pv_truth(self):
        return mkbool(_t(self.seq_idx) < _t(S.g.N))

    def __bool__(self):
        return S.decide(self._pv_truth())

    @property
    def num_frames(self):
        return SymNum(S.g.frames(_t(self.seq_idx)))

    @property
    def seq_tag(self):
        return ("tag", self.seq_idx)

    @property
    def features(self):
        return {"data": ("data", self.seq_idx), "classes": ("classes", self.seq_idx)}

    complete_frac = None


def none_or(x):
    """what the caller sees: None beyond the end"""
    return x if x is None or not isinstance(x, Sq) or S.decide(x._pv_truth()) else None


class DS(CachedDataset2):
    def _collect_single_seq(self, seq_idx):
        S.prove(SymNum(_t(seq_idx)) >= S.g.fresh, "no sequence is collected twice, and in increasing order")
        return Sq(seq_idx, True)


def state(known=None):
    """an arbitrary object satisfying the class invariant"""
    g = S.g
    g.N = S.int("N", lo=0)
    g.filter_monotone = True
    g.frames = S.func("frames", z3.IntSort(), z3.IntSort())
    ds = DS()
    ds.epoch = S.int("epoch", lo=1)
    g.start, g.m, g.base = S.int("start", lo=0), S.int("m", lo=0), S.int("base", lo=0)
    S.inputs.update(N=g.N, start=g.start, m=g.m, base=g.base)
    S.assume(Or(g.m == 0, And(g.base <= g.start, g.base + g.m >= g.start, g.base + g.m <= g.N)))
    ds.expected_load_seq_start = g.start
    ds.added_data = PList(Fn(g.m.t, lambda j: Sq(g.base.t + _t(j), False), "added"))
    g.fresh = If(g.m == 0, 0, g.base + g.m)  # everything before was collected already (or skipped)
    ds._num_seqs = None
    if known is None:
        known = bool(S.choose(2, "num_seqs known"))
    g.known = known
    if known:
        ds._num_seqs = g.N
    ds.reached_final_seq = False
    ds._num_timesteps_accumulated = S.int("acc", lo=0)
    g.ds = ds
    return ds


def check_state(ds, start, end):
    """class invariant, and all sequences of [start, end) below N are held"""
    g = S.g
    hi = If(g.N < end, g.N, end)
    S.prove(eq(ds.expected_load_seq_start, start), "the window starts where asked for")
    s = to_seq(ds.added_data)

    if S.decide(s.n == 0):
        S.prove(hi <= start, "the requested sequences that exist are held")
        return
    b = s.at(z3.IntVal(0)).seq_idx
    S.prove(And(b <= start, b + SymNum(s.n) >= hi), "the requested sequences that exist are held")
    S.prove(And(b + SymNum(s.n) <= g.N, b + SymNum(s.n) >= start), "only existing sequences, up to the window")
    j = S.int("sk", lo=0)
    if S.decide(j.t < s.n):
        e = s.at(j.t)
        S.prove(eq(e.seq_idx, b + j), "sequences are held in order, none missing or repeated")
        if not e.new:
            S.prove(e.seq_idx < g.base + g.m, "old ones are those held before")


class Cleanup(LoopContract):
    """while: all entries before i are older than the limit"""

    name = "clean up"

    def match(self, L):
        c = [k for k in L.names if isinstance(L.pre.get(k), (int, SymNum)) and not isinstance(L.pre.get(k), bool)]
        if L.kind != "while" or len(c) != 1 or getattr(S.g, "limit", None) is None:
            return False
        self.i = c[0]
        return True

    def havoc(self, L):
        i = S.int("i", lo=0)
        return {self.i: i}

    def inv(self, L):
        g = S.g
        i = L[self.i]
        s = to_seq(g.ds.added_data)
        yield "within the list", And(SymNum(_t(i)) >= 0, SymNum(_t(i)) <= SymNum(s.n))
        yield "everything before is too old", Or(eq(i, 0), g.base + i - 1 < g.limit)


class Find(LoopContract):
    """for: the wanted sequence is not before i"""

    name = "find"

    def match(self, L):
        return L.kind == "for" and getattr(S.g, "want", None) is not None and L.seq is to_seq(S.g.ds.added_data)

    def havoc(self, L):
        return {}

    def inv(self, L):
        g = S.g
        p = g.want - g.base
        yield "not among the earlier ones", Or(p < 0, p >= SymNum(L.i))


def u_load(known):
    def un():
        g = S.g
        ds = state(known)
        a, b = S.int("a", lo=0), S.int("b", lo=0)
        S.inputs.update(a=a, b=b)
        S.assume(And(a >= g.start, b >= a))
        g.limit, g.want = a, None
        S.reachable()
        CachedDataset2._load_seqs(ds, a, b)
        old_end = g.base + g.m
        check_state(ds, a, If(And(g.m > 0, old_end > b), old_end, b))

    return un


def u_find():
    g = S.g
    ds = state()
    g.want, g.limit = S.int("seq_idx", lo=0), None
    S.inputs["seq_idx"] = g.want
    S.reachable()
    r = CachedDataset2._get_seq(ds, g.want)
    inside = And(g.want >= g.base, g.want < g.base + g.m)
    if r is None:
        S.prove(Not(inside), "a sequence that is held is found")
    else:
        S.prove(eq(r.seq_idx, g.want), "the sequence asked for is returned")


def load_contract(ds):
    """load_seqs / _load_seqs by contract: requires start >= window start, ensures [base, max(end, old end)) below N is held for some base <= start"""
    g = S.g

    def load(a, b):
        S.prove(And(a >= ds.expected_load_seq_start, b >= a), "sequences are loaded in increasing order")
        s = to_seq(ds.added_data)
        old_end = g.base + SymNum(s.n)
        end = If(And(SymNum(s.n) > 0, old_end > b), old_end, b)
        hi = If(g.N < end, g.N, end)
        base = S.int("base_", lo=0)
        m = S.int("m_", lo=0)
        S.assume(And(Or(m > 0, hi <= a), Implies(m > 0, And(base <= a, base + m >= hi, base + m >= a, base + m <= g.N, base + m <= If(hi > a, hi, a)))))
        ds.expected_load_seq_start = a
        ds.added_data = PList(Fn(_t(m), lambda j: Sq(_t(base) + _t(j), True), "loaded"))
        g.start, g.m, g.base = a, m, base

    return load


def u_access(what):
    def un():
        g = S.g
        ds = state()
        g.limit = None
        i = g.want = S.int("seq_idx", lo=0)
        S.inputs["seq_idx"] = i
        S.assume(And(i >= g.start, i < g.N))
        ds.load_seqs = load_contract(ds)
        S.reachable()
        start = g.start
        if what == "tag":
            S.prove(eq(CachedDataset2.get_tag(ds, i)[1], i), "the tag of the sequence asked for")
        elif what == "len":
            r = CachedDataset2.get_seq_length(ds, i)
            S.prove(eq(r, SymNum(g.frames(i.t))), "the length of the sequence asked for")
        if what != "data":
            S.prove(eq(ds.expected_load_seq_start, start), "asking does not move the window")
            return
        if what == "data":
            ds.load_seqs(g.start, i + 1)
            for key in ("data", "classes"):
                r = CachedDataset2.get_data(ds, i, key)
                S.prove(r[0] == key, "the data of the key asked for")
                S.prove(eq(r[1], i), "the data of the sequence asked for")
            S.prove(eq(CachedDataset2.get_input_data(ds, i)[1], i), "input data")
            r = CachedDataset2.get_targets(ds, "classes", i)
            S.prove(r[0] == "classes", "targets of the key")
            S.prove(eq(r[1], i), "targets of the sequence")
            r = CachedDataset2.get_complete_frac(ds, i, allow_only_lr_suitable=True)
            if g.known:
                S.prove(eq(r, (i + 1) / g.N), "the exact fraction of the epoch")
            else:
                S.prove(r is None, "no fraction if the number of sequences is unknown")

    return un


def u_less(known):
    def un():
        g = S.g
        ds = state(known)
        n = g.want = S.int("n", lo=0)
        S.inputs["n"] = n
        g.limit = None
        # a consumer asks before it loads: it never moves the window beyond the last sequence of a non-empty epoch
        S.assume(Or(g.start < g.N, And(known, g.start <= g.N)))
        ds._load_seqs = load_contract(ds)
        g.start0 = g.start
        S.reachable()
        r = CachedDataset2.is_less_than_num_seqs(ds, n)
        r = r if isinstance(r, (bool, SymBool)) else bool(r)
        S.prove(eq(ds.expected_load_seq_start, g.start0), "asking does not move the window")
        S.prove(eq(r, n < g.N), "there are more sequences exactly if n < number of sequences")
        if ds._num_seqs is not None:
            S.prove(eq(ds._num_seqs, g.N), "a known number of sequences is the real one")

    return un


def u_init():
    g = S.g
    ds = state()
    g.limit = g.want = None
    ep = S.int("epoch_", lo=1)
    S.reachable()
    CachedDataset2.init_seq_order(ds, epoch=ep)
    S.prove(eq(ds.expected_load_seq_start, 0), "a new epoch starts at the first sequence")
    S.prove(to_seq(ds.added_data).conc_len() == 0, "nothing is kept from the previous epoch")
    S.prove(ds._num_seqs is None and not ds.reached_final_seq, "nothing is known yet of the new epoch")
    S.prove(eq(ds.epoch, ep), "epoch")


def u_load_seqs():
    """Dataset.load_seqs forwards exactly the requested range"""
    g = S.g
    ds = state()
    g.limit = g.want = None
    a, b = S.int("a", lo=0), S.int("b", lo=0)
    S.assume(b >= a)
    calls = []
    ds._load_seqs = lambda x, y: calls.append((x, y))
    S.reachable()
    DB.Dataset.load_seqs(ds, a, b)
    S.prove(len(calls) == 1, "loaded once")
    S.prove(And(eq(calls[0][0], a), eq(calls[0][1], b)), "the range asked for")


class Plain(DB.Dataset):
    kind = "known"
    _n = None

    @property
    def num_seqs(self):
        if self.kind != "known":
            raise NotImplementedError
        return self._n

    @property
    def estimated_num_seqs(self):
        if self.kind == "estimate fails":
            raise NotImplementedError
        return self._n if self.kind == "estimate" else None


def u_frac(kind, lr):
    def un():
        g = S.g
        ds = Plain()
        ds.kind = kind
        n = S.int("num_seqs", lo=1)
        i = S.int("seq_idx", lo=0)
        S.inputs.update(n=n, i=i)
        ds._n = n
        if kind == "known":
            S.assume(i + 1 < n)
        S.reachable()
        a = ds.get_complete_frac(i, allow_only_lr_suitable=lr)
        b = ds.get_complete_frac(i + 1, allow_only_lr_suitable=lr)
        if lr and kind != "known":
            S.prove(a is None and b is None, "no value that is not exact")
            return
        S.prove(And(a > 0, a <= 1), "a value in (0,1]")
        S.prove(a <= b, "monotonic")
        if kind == "known":
            S.prove(eq(a, (i + 1) / n), "exact")

    return un


def units(tier):
    fl = [F + "CachedDataset2._load_seqs", F + "CachedDataset2._cleanup_old_seqs"]
    for k in (True, False):
        yield "load sequences, number known=%s" % k, u_load(k), dict(functions=fl, loops=[Cleanup(), Find()])
    yield "find a sequence", u_find, dict(functions=[F + "CachedDataset2._get_seq"], loops=[Find()])
    yield "tag", u_access("tag"), dict(functions=[F + "CachedDataset2.get_tag", F + "CachedDataset2._get_seq"], loops=[Find()])
    yield "length", u_access("len"), dict(functions=[F + "CachedDataset2.get_seq_length", F + "CachedDataset2._get_seq"], loops=[Find()])
    yield "data", u_access("data"), dict(functions=[F + "CachedDataset2." + x for x in ("get_data", "get_input_data", "get_targets", "get_complete_frac", "_get_seq")] + [BF + "Dataset.get_complete_frac"], loops=[Find()])
    for k in (True, False):
        yield "more sequences, number known=%s" % k, u_less(k), dict(functions=[F + "CachedDataset2.is_less_than_num_seqs", F + "CachedDataset2.num_seqs", F + "CachedDataset2._get_seq", BF + "Dataset.is_less_than_num_seqs"], loops=[Find()])
    yield "new epoch", u_init, dict(functions=[F + "CachedDataset2.init_seq_order"])
    yield "forwarding", u_load_seqs, dict(functions=[BF + "Dataset.load_seqs"])
    for kind in ("known", "estimate", "no estimate", "estimate fails"):
        for lr in (True, False):
            yield "complete fraction, %s, lr=%s" % (kind, lr), u_frac(kind, lr), dict(functions=[BF + "Dataset.get_complete_frac", BF + "Dataset.generic_complete_frac"])
    S.assumptions += [
        "_collect_single_seq(i) gives sequence i if i < number of sequences, otherwise None",
        "a consumer asks is_less_than_num_seqs before it moves the window beyond the last sequence (number unknown), and the epoch has at least one sequence",
        "real arithmetic for the fraction",
    ]
