from props.lib import *
from props.lib import _t, _simp
import returnn.datasets.multi_proc as A
import returnn.datasets.distrib_files as B
from returnn.datasets.cached2 import CachedDataset2
from returnn.datasets.basic import Dataset
from returnn.datasets.multi_proc import MultiProcDataset
from returnn.datasets.distrib_files import DistributeFilesDataset

FA, FB = "returnn/datasets/multi_proc.py:", "returnn/datasets/distrib_files.py:"


class Seq1:
    """DatasetSeq as a plain record"""

    def __init__(self, seq_idx, features=None, seq_tag=None, complete_frac=None, targets=None):
        self.seq_idx, self.seq_tag, self.features, self.complete_frac = seq_idx, seq_tag, features, complete_frac


class Quiet:
    platform = "any"

    def setup_all(self):
        pass

    def collect(self):
        pass


class Conn:
    """one end of a pipe: what is sent is recorded (and judged by on_send), what is received comes from on_recv"""

    def __init__(self, on_recv=None, on_send=None):
        self.on_recv, self.on_send = on_recv, on_send
        self.sent = []

    def send(self, x):
        self.sent.append(x)
        if self.on_send:
            self.on_send(x)

    def recv(self):
        return self.on_recv()

    def poll(self, timeout=0):
        return S.bool("message")  # at any time, or not

    def close(self):
        pass


for m in (A, B):
    m.DatasetSeq = Seq1
    m.better_exchook = Quiet()
    m.sys = Quiet()
    m.mpConnection = Conn
A.gc = Quiet()


# ---------------------------------------------------------------- worker process


class Part(Dataset):
    """the dataset of a worker by contract (P10); every start of an epoch may give another number of sequences"""

    def __init__(self):
        self.inits = []
        self.start(S.int("n", lo=0))

    def start(self, n):
        self.n = n
        self.lo, self.hi = SymNum(z3.IntVal(0)), SymNum(z3.IntVal(0))

    num_inputs, num_outputs, labels = 2, {"data": (2, 2)}, {}

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        self.inits.append((epoch, seq_list, seq_order))
        self.start(S.int("n", lo=0) if seq_order is None else SymNum(to_seq(seq_order).n))
        return True

    def finish_epoch(self, *, free_resources=False):
        S.g.finished = True

    @property
    def num_seqs(self):
        if S.g.known:
            return self.n
        raise NotImplementedError

    def is_less_than_num_seqs(self, i):
        return mkbool(_t(i) < _t(self.n))

    def load_seqs(self, a, b):
        S.prove(And(SymNum(_t(a)) >= self.lo, SymNum(_t(b)) >= SymNum(_t(a))), "sequences are loaded with increasing starts")
        self.lo, self.hi = SymNum(_t(a)), If(SymNum(_t(b)) > self.hi, SymNum(_t(b)), self.hi)

    def _chk(self, i):
        i = SymNum(_t(i))
        S.prove(And(i >= self.lo, i < self.hi, i < self.n, i >= 0), "only loaded sequences are accessed")
        return i

    def get_data(self, i, key):
        return ("data", self._chk(i), key)

    def get_tag(self, i):
        return ("tag", self._chk(i))

    def get_complete_frac(self, i, *, allow_only_lr_suitable=False):
        S.prove(allow_only_lr_suitable is True, "exact complete fraction is asked for")
        return ("frac", SymNum(_t(i)))

    def get_data_keys(self):
        return ["data", "classes"]

    def get_data_dtype(self, k):
        return "float32"

    def get_total_num_seqs(self, fast=False):
        raise NotImplementedError

    def get_all_tags(self):
        raise NotImplementedError

    def get_current_seq_order(self):
        g = S.g
        g.order = Fn(self.n.t, lambda j: SymNum(g.o(_simp(_t(j)))), "order")
        return PList(g.order)


def entry(i):
    i = SymNum(_simp(_t(i)))
    return Seq1(seq_idx=i, seq_tag=("tag", i), features={k: ("data", i, k) for k in ("data", "classes")}, complete_frac=("frac", i))


def is_entry(e, i):
    """the record e is sequence i, complete"""
    i = SymNum(_t(i))
    if not (isinstance(e, Seq1) and isinstance(e.features, dict) and set(e.features) == {"data", "classes"}):
        return False
    r = [eq(e.seq_idx, i), eq(e.seq_tag[1], i), eq(e.complete_frac[1], i)]
    for k, x in e.features.items():
        if x[2] != k:
            return False
        r.append(eq(x[1], i))
    return And(*r)


def held(L):
    """(cache, next) of the worker"""
    c, n = L["cache"], L["next_seq_idx"]
    if not isinstance(c, PList):
        raise Unsupported("cache")
    return c, SymNum(_t(n))


def new_cache(c, lo, n):
    lo = SymNum(_t(lo))
    c.v = Fn(_simp(n.t - lo.t), lambda j: entry(lo.t + _t(j)), "cache")


def consecutive(L, what="the buffer holds consecutive sequences, each its own data"):
    c, n = held(L)
    lo = n - SymNum(c.v.n)
    yield "the buffer is within the sequences read so far", And(lo >= 0, n >= 0)
    if L.mode != "assume":
        j = S.int("skc", lo=0)
        if S.decide(j.t < c.v.n):
            yield what, is_entry(c.v.at(j.t), lo + j)


def part_ok(p, n):
    return And(p.lo <= n, p.hi <= If(n > p.lo, n, p.lo + 1), n <= p.n)


class Serve(LoopContract):
    """the main loop of a worker, one message per iteration"""

    name = "serve"

    def match(self, L):
        return L.kind == "while" and S.g.phase == "start" and "cache" in L.pre

    def havoc(self, L):
        g = S.g
        L.ghost("phase", "p", "last", "asked", "msg", "replies", "ep", "order", "shard", "finished", "looked")
        g.replies, g.msg = [], None
        c = L.pre["cache"]
        L.modifies(c)
        new = {}
        p = g.p
        L.modifies_attr(p, "lo", "hi", "n", "inits")
        p.inits = []
        g.phase = "iter"
        g.last = S.int("last", lo=-1)
        p.start(S.int("n", lo=0))
        p.lo, p.hi = S.int("lo", lo=0), S.int("hi", lo=0)
        n, k = S.int("next", lo=0), S.int("held", lo=0)
        S.inputs.update(next=n, held=k, n=p.n, last=g.last)
        S.assume(k <= n)
        new_cache(c, n - k, n)
        if "dataset" in L.names:
            new["dataset"] = None if S.decide(S.bool("no_dataset")) else p
        new["next_seq_idx"] = n
        return new

    def inv(self, L):
        g = S.g
        c, n = held(L)
        if L.mode == "assume" and "dataset" in L.names and L["dataset"] is None:
            yield "nothing without dataset", And(Not(L["got_init_seq_order"]), c.v.n == 0, n == 0)
            return
        if L["dataset"] is None:
            yield "nothing without dataset", And(Not(L["got_init_seq_order"]), c.v.n == 0, n == 0)
            return
        yield from consecutive(L)
        init = L["got_init_seq_order"]
        size = SymNum(c.v.n)
        lo = n - size
        last = g.last
        top = If(last > 0, last, 0)
        yield "nothing before the epoch is started", Or(init, And(size == 0, n == 0))
        yield "the buffer starts at the last sequence asked for", Implies(init, lo <= top)
        yield "all up to the last one asked for were read", Implies(init, Or(n >= last + 1, last >= g.p.n))
        yield "window of the dataset", Implies(init, part_ok(g.p, n))


class Prefetch(LoopContract):
    """while nobody asks: the buffer grows"""

    name = "prefetch"

    def match(self, L):
        return L.kind == "while" and S.g.phase == "iter" and "cache" in L.pre

    def havoc(self, L):
        c, n = held(L)
        L.modifies(c)
        lo = n - SymNum(c.v.n)
        p = S.g.p
        L.modifies_attr(p, "lo", "hi")
        L.data["lo"], L.data["n"] = lo, n
        n2 = S.int("next", lo=0)
        S.assume(n2 >= n)
        p.lo, p.hi = S.int("lo", lo=0), S.int("hi", lo=0)
        new_cache(c, lo, n2)
        return {"next_seq_idx": n2}

    def inv(self, L):
        g = S.g
        c, n = held(L)
        yield from consecutive(L)
        yield "window of the dataset", part_ok(g.p, n)
        if "lo" in L.data:
            yield "the buffer only grows", And(eq(n - SymNum(c.v.n), L.data["lo"]), n >= L.data["n"])


class Drop(LoopContract):
    """sequences before the one asked for are dropped"""

    name = "drop"

    def match(self, L):
        return L.kind == "while" and S.g.phase == "asked" and "cache" in L.pre and not S.g.looked and not L.qual.endswith("_get")

    def havoc(self, L):
        g = S.g
        c, n = held(L)
        L.modifies(c)
        L.data["lo"] = lo = n - SymNum(c.v.n)
        lo2 = S.int("lo2", lo=0)
        S.assume(And(lo2 >= lo, lo2 <= n))
        new_cache(c, lo2, n)
        return {k: v for k, v in {"next_seq_idx": n}.items() if k in L.names}

    def inv(self, L):
        g = S.g
        c, n = held(L)
        yield from consecutive(L)
        lo = n - SymNum(c.v.n)
        if "lo" in L.data:
            lo0 = L.data["lo"]
            yield "only sequences before the one asked for are dropped", And(lo >= lo0, Or(lo <= g.asked, eq(lo, lo0)))


class Find(LoopContract):
    """for over the buffer: the sequences so far are before the one asked for"""

    name = "find"

    def match(self, L):
        return L.kind == "for" and S.g.phase == "asked" and "cache" in L.pre and L.seq is L.pre["cache"].v

    def havoc(self, L):
        return {k: L.pre[k] for k in L.names if k in L.pre and k not in L.tnames}

    def inv(self, L):
        c = L["cache"]
        if c.v.conc_len() == 0:
            return
        lo = SymNum(_t(c.v.at(z3.IntVal(0)).seq_idx))
        yield "the sequences so far are before", Or(SymNum(L.i) == 0, lo + SymNum(L.i) <= S.g.asked)


class Fill(LoopContract):
    """read up to the one asked for"""

    name = "fill"

    def match(self, L):
        return L.kind == "while" and S.g.phase == "asked" and "cache" in L.pre

    def havoc(self, L):
        c, n = held(L)
        L.modifies(c)
        p = S.g.p
        L.modifies_attr(p, "lo", "hi")
        L.data["lo"], L.data["n"] = n - SymNum(c.v.n), n
        n2 = S.int("next", lo=0)
        S.assume(n2 >= n)
        p.lo, p.hi = S.int("lo", lo=0), S.int("hi", lo=0)
        new_cache(c, L.data["lo"], n2)
        return {"next_seq_idx": n2}

    def inv(self, L):
        g = S.g
        c, n = held(L)
        lo = n - SymNum(c.v.n)
        yield from consecutive(L)
        yield "the one asked for exists and is not yet read", And(n <= g.asked, g.asked < g.p.n)
        yield "there is room for the one asked for", g.asked + 1 - lo <= g.buffer
        yield "window of the dataset", part_ok(g.p, n)
        if "lo" in L.data:
            yield "nothing is dropped", eq(lo, L.data["lo"])


def u_worker(which, W=1, w=0, method=None):
    """
    one arbitrary iteration of the worker loop, from any state it can be in, with any message and any schedule of messages
    while it prefetches
    """

    def un():
        g = S.g
        g.phase, g.looked, g.finished = "start", False, False
        g.known = S.decide(S.bool("known"))
        g.last = SymNum(z3.IntVal(-1))
        g.buffer = S.int("buffer", lo=1)
        S.inputs["buffer"] = g.buffer
        g.o = S.func("order", z3.IntSort(), z3.IntSort())
        p = g.p = Part()
        g.msg = None
        g.replies = []

        def recv():
            S.prove(g.phase in ("start", "iter"), "every request is answered before the next")
            g.phase = "asked"
            kinds = ["get_data_seq", "init_seq_order", "exit", "eof"] + (["finish_epoch", "get_data_keys", "get_data_dtypes", "get_total_num_seqs", "get_all_tags"] if which == "mp" else [])
            if which == "mp" and w == 0:
                kinds.append("init")
            for k in kinds[:-1]:
                if S.decide(S.bool(k)):
                    break
            else:
                k = kinds[-1]
            g.msg = k
            if k == "eof":
                raise EOFError
            if k == "get_data_seq":
                # the consumer asks within the epoch, in order, and for at most the buffer size further
                i = g.asked = S.int("asked", lo=0)
                S.inputs["asked"] = i
                S.assume(And(i >= g.last, i <= g.last + g.buffer))
                if not S.decide(started()):
                    raise PathEnd
                return k, {"seq_idx": i}
            if k == "init_seq_order":
                g.ep = S.int("ep", lo=1)
                d = {"epoch": g.ep}
                if which == "mp" and (w == 0 or method == "dedicated"):
                    d.update(seq_list=None, seq_order=None)
                return k, d
            if k == "finish_epoch":
                return k, {"free_resources": S.decide(S.bool("free"))}
            if k.startswith("get_") and not S.decide(started()):
                raise PathEnd  # only asked for when there is a dataset
            return k, {}

        def started():
            return frame_local("got_init_seq_order")

        def frame_local(name):
            import sys

            f = sys._getframe(1)
            while f is not None:
                if name in f.f_locals:
                    return f.f_locals[name]
                f = f.f_back
            raise Unsupported("state of the worker")

        def send(x):
            g.replies.append(x)
            if g.msg == "get_data_seq":
                S.prove(x[0] == "data_seq", "the answer to the request")
                if S.decide(g.asked < p.n):
                    S.prove(x[1] is not None, "every existing sequence is given")
                    S.prove(is_entry(x[1], g.asked), "the sequence asked for, with its own data, tag and fraction")
                else:
                    S.prove(x[1] is None, "nothing beyond the end")
                g.last = g.asked

        conn = Conn(recv, send)
        made = []

        def init_dataset(d, **kw):
            made.append(d)
            return p

        (A if which == "mp" else B).init_dataset = init_dataset

        def shard_recv():
            g.shard = PList(Fn(S.int("shard_n", lo=0).t, lambda j: SymNum(g.o(_t(j))), "shard"))
            return "seq_order_shard", g.shard

        others = [Conn() for _ in range(W - 1)]
        S.reachable()
        if which == "mp":
            MultiProcDataset._worker_proc_loop(w, {"x": 1}, g.buffer, conn, Conn(shard_recv) if w else None, others if w == 0 and method == "seq_order" else None, method)
        else:
            B._worker_proc_loop(1, g.buffer, {"x": 1}, conn)

    # what is proved when a message was handled is in Serve.inv, and here
    return un


class ServeInit(Serve):
    """also: the answers to a start of an epoch"""

    def __init__(self, which, W, w, method):
        self.which, self.W, self.w, self.method = which, W, w, method

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            g.phase = "iter"
            if g.msg == "get_data_seq":
                yield "one answer per request", len(g.replies) == 1
            if g.msg == "finish_epoch":
                yield "no sequences after the end of the epoch", Not(L["got_init_seq_order"])
            if g.msg == "init_seq_order":
                g.last = SymNum(z3.IntVal(-1))
                p = g.p
                yield "the epoch is started", L["got_init_seq_order"]
                yield "with its number", all(S.entails(eq(e[0], g.ep)) for e in p.inits)
                if self.which == "mp" and self.method == "seq_order":
                    if self.w == 0:
                        W = self.W
                        m = g.order.n
                        yield "number of sequences is told", And(len(g.replies) == 1, g.replies[0][0] == "num_seqs", eq(g.replies[0][1], SymNum(m)))
                        import sys

                        shards = [p.inits[-1][2]] + [c.sent[-1][1] for c in L["other_worker_conns"]]
                        yield "one list per worker", len(shards) == W and all(len(c.sent) == 1 for c in L["other_worker_conns"])
                        for k, s in enumerate(shards):
                            s = to_seq(s)
                            j = S.int("skj", lo=0)
                            yield "worker %d has the sequences k, k+W, ..." % k, (j.t < s.n) == (j.t * W + k < m)
                            if S.decide(j.t < s.n):
                                yield "in this order", eq(s.at(j.t), g.order.at(_simp(j.t * W + k)))
                    else:
                        yield "the list sent by the first worker is used", p.inits[-1][2] is g.shard
                else:
                    yield "the own order of the dataset", p.inits[-1][1] is None and p.inits[-1][2] is None
                    yield "number of sequences is told", And(len(g.replies) == 1, g.replies[0][0] == "num_seqs")
                    r = g.replies[0][1]
                    yield "number of sequences", eq(r, p.n) if g.known else r is None
        yield from super().inv(L)


# ---------------------------------------------------------------- MultiProcDataset


class Multi(MultiProcDataset):
    def __repr__(self):
        return "multi"

    def __del__(self):
        pass


def nonneg(name):
    x = S.real(name)
    S.assume(x >= 0)
    return x


def u_mp_collect(answer):
    def un():
        g = S.g
        W = 3
        ds = Multi.__new__(Multi)
        CachedDataset2.__init__(ds)
        i = S.int("idx", lo=0)
        W = S.int("workers", lo=1)
        S.inputs.update(idx=i, workers=W)
        ds.num_workers = W
        f0 = ds._cur_max_complete_frac = nonneg("f0")
        f = nonneg("f")
        S.assume(And(f0 <= 1, f <= 1, f > 0))
        g.req = []
        e = None if answer == "end" else Seq1(seq_idx=i // W, seq_tag=("t", i), features={"data": ("d", i)}, complete_frac=None if answer == "unknown" else f)

        class Conns(Sym):
            def _pv_len(self):
                return W

            def __getitem__(self, k):
                k = SymNum(_t(k))
                S.prove(And(k >= 0, k < W), "existing worker", kind="safety")
                return Conn(lambda: ("data_seq", e), lambda m: g.req.append((k, m)))

        ds._worker_parent_conns = Conns()
        S.reachable()
        r = MultiProcDataset._collect_single_seq(ds, i)
        S.prove(len(g.req) == 1, "one worker is asked once")
        k, m = g.req[0]
        S.prove(m[0] == "get_data_seq", "request")
        loc = SymNum(_t(m[1]["seq_idx"]))
        S.prove(eq(loc * W + k, i), "the sequence loc * W + k is asked for as number loc of worker k (round robin)")
        if answer == "end":
            S.prove(r is None, "the end is passed on")
            return
        S.prove(r is not None, "every existing sequence is given")
        S.prove(eq(r.seq_idx, i), "index of the sequence")
        S.prove(r.seq_tag[0] == "t" and eq(r.seq_tag[1], i), "tag is passed on")
        S.prove(set(r.features) == {"data"} and eq(r.features["data"][1], i), "data are passed on")
        if answer == "unknown":
            S.prove(r.complete_frac is None, "unknown complete fraction")
            S.prove(eq(ds._cur_max_complete_frac, f0), "unknown complete fraction")
        else:
            S.prove(And(r.complete_frac >= f0, r.complete_frac >= f, r.complete_frac <= 1), "the complete fraction does not decrease")
            S.prove(eq(ds._cur_max_complete_frac, r.complete_frac), "largest complete fraction so far")

    return un


def u_mp_init(method, W):
    def un():
        g = S.g
        ds = Multi.__new__(Multi)
        CachedDataset2.__init__(ds)
        ds.num_workers = W
        ds._sharding_method = method
        ds._worker_procs = [object()] * W
        known = S.decide(S.bool("known"))
        ns = [S.int("n%d" % k, lo=0) for k in range(W)]
        conns = ds._worker_parent_conns = [Conn(lambda k=k: ("num_seqs", ns[k] if known or method == "seq_order" else None)) for k in range(W)]
        ds._seq_order_proc_parent_conn = conns[0]
        ds._cur_max_complete_frac = nonneg("f0")
        e = S.int("ep", lo=1)
        sl = PList(Fn(S.int("m", lo=0).t, lambda j: ("tag", j), "list")) if S.decide(S.bool("with_list")) else None
        S.reachable()
        MultiProcDataset.init_seq_order(ds, epoch=e, seq_list=sl)
        for k, c in enumerate(conns):
            S.prove(len(c.sent) == 1 and c.sent[0][0] == "init_seq_order", "every worker starts the epoch, once")
            d = c.sent[0][1]
            S.prove(eq(d["epoch"], e), "with its number")
            if k == 0 or method == "dedicated":
                S.prove(d.get("seq_list") is sl and d.get("seq_order") is None, "with the list of sequences")
            else:
                S.prove(d.get("seq_list") is None and d.get("seq_order") is None, "the others get their list from the first worker")
        S.prove(eq(ds._cur_max_complete_frac, 0), "nothing is complete")
        if method == "seq_order":
            S.prove(eq(ds._num_seqs, ns[0]), "number of sequences")
        elif known:
            S.prove(eq(ds._num_seqs, sum(ns[1:], ns[0])), "number of sequences")
        else:
            S.prove(ds._num_seqs is None, "unknown number of sequences")

    return un


# ---------------------------------------------------------------- distribution of the files


class Bin(Sym):
    """the files of one bin, while they are distributed: files [B(b), B(b+1)) for the bins before the current one"""

    def __init__(self, o, b):
        self.o, self.b = o, SymNum(_t(b))

    def append(self, x):
        S.writes.append(self.o)
        self.o.added.append((self.b, x))

    def _pv_truth(self):
        o, b = self.o, self.b
        r = Or(b < o.c, And(eq(b, o.c), SymNum(o.i) > o.start))
        for k, _ in o.added:
            r = Or(r, eq(k, b))
        return r

    def __bool__(self):
        return bool(mkbool(self._pv_truth().t)) if isinstance(self._pv_truth(), SymBool) else S.decide(self._pv_truth())

    def _pv_len(self):
        raise Unsupported("number of files of a bin")


class Bins(Sym):
    """bins before c are complete and not empty, bin c has the files start .. i-1, the others are empty"""

    def __init__(self, nb, c, i, start):
        self.nb, self.c, self.i, self.start = nb, c, i, start
        self.added = []
        self.stamp = S.now()

    def _pv_len(self):
        return self.nb

    def __getitem__(self, b):
        b = SymNum(_t(b))
        S.prove(And(b >= -self.nb, b < self.nb), "existing bin", kind="safety")
        if not S.decide(b >= 0):
            b = b + self.nb
        return Bin(self, b)

    def _pv_seq(self):
        return Fn(self.nb.t, lambda j: Bin(self, SymNum(_t(j))), "bins")


class Distribute(LoopContract):
    name = "distribute"

    def match(self, L):
        if L.kind != "for":
            return False
        bins = [k for k, v in L.pre.items() if isinstance(v, PList) and not z3.eq(v.v.n, S.g.files.n) and k not in L.tnames and v.v.conc_len() is None and not isinstance(v.v, Range)]
        idx = [k for k in L.names if k not in L.tnames and isinstance(L.pre.get(k), int) and "bin" in k] or [k for k in L.names if k == "bin_idx"]
        if len(bins) != 1 or len(idx) != 1:
            return False
        self.bins, self.idx = bins[0], idx[0]
        return True

    def havoc(self, L):
        g = S.g
        L.ghost("bins")
        c, start = S.int("cur", lo=0), S.int("start", lo=0)
        S.assume(And(c < g.nb, start <= SymNum(L.i)))
        o = g.bins = Bins(g.nb, c, L.i, start)
        L.data["o"] = o
        L.pre[self.bins].v = o._pv_seq()
        L.modifies(o, L.pre[self.bins])
        out = {self.idx: c}
        for k in L.names:
            if k in L.pre and k not in L.tnames and k != self.idx:
                v = L.pre[k]
                if isinstance(v, (int, float, SymNum)) and not isinstance(v, bool):
                    out[k] = S.real(k)  # sizes: whatever they are
        return out

    def inv(self, L):
        g = S.g
        i = SymNum(L.i)
        if L.mode == "entry":
            v = to_seq(L[self.bins])
            yield "number of bins", v.n == g.nb.t
            yield "starts with the first bin", eq(L[self.idx], 0)
            j = S.int("skb", lo=0)
            if S.decide(j < g.nb):
                x = v.at(j.t)
                yield "bins are empty", isinstance(x, PList) and x.v.conc_len() == 0
            yield "there are enough files", SymNum(g.files.n) >= g.nb
            return
        o = L.data["o"]
        if L.mode == "assume":
            size = If(i > o.start, 1, 0)
            yield "enough files for the bins that remain", SymNum(g.files.n) - i >= g.nb - o.c - size
            return
        c = SymNum(_t(L[self.idx]))
        yield "every file is put into one bin", len(o.added) == 1
        b, x = o.added[0]
        yield "the file", eq(x, g.files.at(_simp(L.i - 1)))
        yield "current or next bin", Or(eq(b, o.c), eq(b, o.c + 1))
        yield "the bin goes on with the current or next one", And(Or(eq(c, o.c), eq(c, o.c + 1)), c >= b, c < g.nb)
        full = Or(i - 1 > o.start, eq(b, o.c))  # the bin that was the current one is not empty
        yield "no bin is left empty", Implies(c > o.c, full)
        nonempty = Or(eq(b, c), And(eq(c, o.c), i - 1 > o.start))
        yield "enough files for the bins that remain", SymNum(g.files.n) - i >= g.nb - c - If(nonempty, 1, 0)


def u_distribute():
    g = S.g
    B._get_key_for_file_tree = lambda t: t
    n, nb = S.int("files", lo=0), S.int("bins", lo=1)
    S.inputs.update(files=n, bins=nb)
    S.assume(n >= nb)
    g.nb = nb
    sz = S.func("size", z3.IntSort(), z3.IntSort())
    g.files = Fn(n.t, lambda j: SymNum(_simp(_t(j))), "files")

    class Sizes(Sym):
        def __getitem__(self, f):
            S.assume(sz(_t(f)) >= 0)
            return SymNum(sz(_t(f)))

    S.reachable()
    r = DistributeFilesDataset._distribute_evenly_by_size(num_bins=nb, file_sizes=Sizes(), files_order=PList(g.files))
    o = g.bins
    S.prove(to_seq(r).n == nb.t, "number of bins")
    S.prove(And(eq(SymNum(o.i), n)), "all files are distributed")
    S.prove(And(eq(o.c, nb - 1), SymNum(o.i) > o.start), "the last bin is reached and not empty")


class Assoc(Sym):
    """a dict with symbolic integer keys"""

    def __init__(self, items=()):
        self.it = list(items)
        self.stamp = S.now()

    def _find(self, k):
        for q, (a, v) in enumerate(self.it):
            if S.decide(eq(a, k)):
                return q
        return None

    def __contains__(self, k):
        return self._find(k) is not None

    def _pv_contains(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        return self.it[q][1]

    def get(self, k, d=None):
        q = self._find(k)
        return d if q is None else self.it[q][1]

    def __setitem__(self, k, v):
        q = self._find(k)
        if q is None:
            self.it.append((k, v))
        else:
            self.it[q] = (k, v)

    def __delitem__(self, k):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        del self.it[q]

    def pop(self, k, *d):
        q = self._find(k)
        if q is None:
            if d:
                return d[0]
            raise KeyError(k)
        return self.it.pop(q)[1]

    def _pv_seq(self):
        return Conc([k for k, _ in self.it])

    def keys(self):
        return [k for k, _ in self.it]

    def values(self):
        return [v for _, v in self.it]

    def items(self):
        return list(self.it)

    def clear(self):
        del self.it[:]

    def _pv_len(self):
        return len(self.it)


class W1:
    """worker process by contract: gives the sequences of its files; once it was asked it cannot go back"""

    def __init__(self, *, name, epoch, full_epoch_0idx, dataset_dict, buffer_size):
        self.epoch, self.full, self.files, self.buffer_size = epoch, full_epoch_0idx, dataset_dict["files"], buffer_size
        self.got_data_seq = False
        self.exited = False
        self.n = S.int("nw", lo=0)

    def get_num_seqs(self):
        return self.n

    def exit(self, join=True):
        self.exited = True


class Files(DistributeFilesDataset):
    def __repr__(self):
        return "files"

    def __del__(self):
        pass


def files_state(P, N, order="default"):
    """datasets over any list of files; full epoch F has bins ("bin", F, b)"""
    g = S.g
    B._WorkerProcParent = W1
    ds = Files.__new__(Files)
    CachedDataset2.__init__(ds)
    ds.partition_epoch = P
    ds._num_shards, ds._shard_index = N, S.int("shard", lo=0)
    S.assume(ds._shard_index < N)
    S.inputs["shard"] = ds._shard_index
    ds._file_sizes = {"x": 1}
    ds.buffer_size = 1
    ds.seq_ordering = g.ordering = order
    files = ds.files = ["f0", "f1", "f2"]
    g.rs = S.func("seed", z3.IntSort(), z3.IntSort())
    ds._get_random_seed_for_epoch = lambda epoch, **k: SymNum(g.rs(_simp(_t((SymNum(_t(epoch)) - 1) // P))))  # P01
    g.shuffled = []

    class RS:
        def __init__(self, seed):
            self.seed = seed

        def shuffle(self, x):
            S.prove(x is not files, "the list of files is not changed")
            g.shuffled.append((x, self.seed))

        def permutation(self, x):
            x = list(x)
            g.shuffled.append((x, self.seed))
            return x

    B.numpy = Rec(random=Rec(RandomState=RS))
    ds._get_sub_dataset_dict = lambda files: {"files": files}
    ds._lazy_init_file_sizes = lambda: None

    def distribute(*, num_bins, file_sizes, files_order):
        S.prove(to_seq(files_order).conc_len() == 3, "all files are distributed")
        seed = [sd for x, sd in g.shuffled if x is files_order]
        S.prove(len(seed) == (1 if order == "random" else 0), "in the configured order")
        seed = seed[0] if seed else 0
        S.prove(eq(num_bins, P * N), "into one bin per sub-epoch and shard")
        return PList(Fn(_t(num_bins) if isinstance(num_bins, SymNum) else z3.IntVal(num_bins), lambda b: ("bin", SymNum(_simp(_t(b))), seed), "bins"))

    ds._distribute_evenly_by_size = distribute
    return ds


def bin_of(ds, e):
    P = ds.partition_epoch
    return ds._shard_index * P + (e - 1) % P


def order_of(ds, F):
    P = ds.partition_epoch
    return PList(Fn(z3.IntVal(P), lambda j: ("bin", SymNum(_simp(_t(j))) + ds._shard_index * P, seed_of(F)), "order"))


def seed_of(F):
    return SymNum(S.g.rs(_simp(_t(F)))) if S.g.ordering == "random" else 0


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


def u_files_init(P, N, pre, used, old, order):
    def un():
        g = S.g
        ds = files_state(P, N, order)
        ds.preload_next_n_sub_epochs = pre
        e0, e = S.int("old_ep", lo=1), S.int("ep", lo=1)
        S.inputs.update(ep=e, old_ep=e0)
        ds._files_order_cache, ds._workers = Assoc(), Assoc()
        ws = []
        if old:
            # state after an earlier epoch: orders and workers for it and the preloaded ones
            for x in range(pre + 1):
                F = (e0 + x - 1) // P
                ds._files_order_cache[F] = order_of(ds, F)
                w = W1(name="", epoch=e0 + x, full_epoch_0idx=F, dataset_dict={"files": ("bin", bin_of(ds, e0 + x), seed_of(F))}, buffer_size=1)
                w.got_data_seq = used and x == 0
                ds._workers[e0 + x] = w
                ws.append(w)
        S.reachable()
        DistributeFilesDataset.init_seq_order(ds, epoch=e)
        for k, w in ds._workers.items():
            S.prove(eq(w.epoch, k), "worker of the epoch")
            S.prove(eq(w.full, (w.epoch - 1) // P), "full epoch of the worker")
            S.prove(eq(w.files[1], bin_of(ds, w.epoch)), "worker has exactly the files of its sub-epoch and shard")
            S.prove(eq(w.files[2], seed_of(w.full)), "in the order of its full epoch")
            S.prove(not w.exited, "worker is running")
        for x in range(pre + 1):
            S.prove((e + x) in ds._workers, "sub-epochs are preloaded")
        w = ds._workers[e]
        S.prove(w.got_data_seq is False, "the worker of the epoch starts with the first sequence")
        S.prove(eq(ds._num_seqs, w.n), "number of sequences")
        for F, o in ds._files_order_cache.items():
            v = to_seq(o)
            S.prove(eq(SymNum(v.n), P), "files for every sub-epoch")
            j = S.int("skj", lo=0)
            if S.decide(j < P):
                S.prove(And(eq(v.at(j.t)[1], ds._shard_index * P + j), eq(v.at(j.t)[2], seed_of(F))), "bins of this shard, in the order of the full epoch")
        for w in ws:
            S.prove(w.exited or any(w is v for _, v in ds._workers.items()), "no worker is left behind")

    return un


def u_sub_dict():
    g = S.g
    ds = Files.__new__(Files)
    CachedDataset2.__init__(ds)
    ds._num_shards, ds._shard_index = S.int("N", lo=1), S.int("shard", lo=0)
    ds._random_seed_offset = S.int("offset", lo=0)
    fs = ["f0", "f1"]
    ds.get_sub_epoch_dataset = lambda files: {"class": "X", "files": files, "seq_ordering": "default"}
    S.reachable()
    r = DistributeFilesDataset._get_sub_dataset_dict(ds, files=fs)
    S.prove(r["files"] is fs, "the files of the sub-epoch")
    S.prove(r["class"] == "X" and r["seq_ordering"] == "default", "as configured")
    S.prove(eq(r.get("_num_shards", 1), 1) and eq(r.get("_shard_index", 0), 0), "the files are sharded, not the sequences again")
    S.prove(eq(r["random_seed_offset"], ds.random_seed_offset), "random seed offset of the parent")


def u_files_collect():
    g = S.g
    ds = files_state(2, 1)
    i, e = S.int("idx", lo=0), S.int("ep", lo=1)
    ds.epoch = e
    g.req = []

    class W:
        def __init__(self, k):
            self.k = k

        def exit(self, join=True):
            pass

        def get_data_seq(self, seq_idx):
            g.req.append((self.k, seq_idx))
            return Seq1(seq_idx=seq_idx, seq_tag=("t", self.k, seq_idx)) if S.decide(S.bool("more")) else None

    ds._workers = Assoc([(e, W(0)), (e + 1, W(1))])
    S.reachable()
    r = DistributeFilesDataset._collect_single_seq(ds, i)
    S.prove(len(g.req) == 1, "asked once")
    S.prove(g.req[0][0] == 0 and eq(g.req[0][1], i), "the worker of the epoch is asked for the sequence")
    if r is not None:
        S.prove(r.seq_tag[1] == 0 and eq(r.seq_tag[2], i) and eq(r.seq_idx, i), "the sequence of the worker")
    else:
        S.prove(True, "end of the epoch")


def units(tier):
    S.assumptions += [
        "pipes deliver messages in order and unchanged, processes do not die (crash of a worker: the consumer gets an exception, not proved)",
        "the wrapped dataset obeys the contract of P10: n sequences, load_seqs with increasing starts, then data and tags of the loaded ones",
        "DatasetSeq is a plain record; process renaming, exception hook and gc dropped",
        "the consumer asks in increasing order and at most the buffer size further per request (P10: one by one)",
        "number of workers 1..3 for the start of an epoch, any number for the lookup; partition_epoch 1..3, 1..2 shards, 0..1 preloaded sub-epochs for the start of an epoch of DistributeFilesDataset, any number of bins and files for the distribution",
        "size arithmetic over the reals; balance of the bins not specified",
        "messages get_data_seq only after the epoch was started (MultiProcDataset/DistributeFilesDataset.init_seq_order)",
    ]
    loops = [Prefetch(), Drop(), Find(), Fill()]
    wl = [FA + "MultiProcDataset._worker_proc_loop"]
    for method, W, w in (("seq_order", 1, 0), ("seq_order", 2, 0), ("seq_order", 3, 0), ("seq_order", 2, 1), ("dedicated", 2, 1)):
        yield "multi-proc, worker %d of %d, %s" % (w, W, method), u_worker("mp", W, w, method), dict(functions=wl, loops=[ServeInit("mp", W, w, method)] + loops, max_paths=3000)
    yield "files, worker", u_worker("files"), dict(functions=[FB + "_worker_proc_loop"], loops=[ServeInit("files", 1, 0, None)] + loops, max_paths=3000)
    for a in ("seq", "unknown", "end"):
        yield "multi-proc, next sequence, %s" % a, u_mp_collect(a), dict(functions=[FA + "MultiProcDataset._collect_single_seq"])
    for m in ("seq_order", "dedicated"):
        for W in (1, 2, 3):
            yield "multi-proc, new epoch, %s, %d workers" % (m, W), u_mp_init(m, W), dict(functions=[FA + "MultiProcDataset.init_seq_order"])
    yield "distribute files", u_distribute, dict(functions=[FB + "DistributeFilesDataset._distribute_evenly_by_size"], loops=[Distribute()])
    for P in (1, 2, 3):
        for N in (1, 2):
            for pre in (0, 1):
                for used, old in ((False, False), (False, True), (True, True)):
                    if P == 3 and N == 2:
                        continue
                    order = "random" if (P + N + pre) % 2 or P == 2 else "default"
                    yield "files, new epoch, %d sub-epochs, %d shards, %d preloaded, used=%s old=%s %s" % (P, N, pre, used, old, order), u_files_init(P, N, pre, used, old, order), dict(functions=[FB + "DistributeFilesDataset.init_seq_order"])
    yield "files, sub dataset", u_sub_dict, dict(functions=[FB + "DistributeFilesDataset._get_sub_dataset_dict"])
    yield "files, next sequence", u_files_collect, dict(functions=[FB + "DistributeFilesDataset._collect_single_seq"])
