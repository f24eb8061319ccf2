"""P12 concrete side: multi-process datasets and datasets over distributed files, workers run as threads of this process"""
import copy
import os
import queue
import random
import shutil
import tempfile
import threading
import numpy
from pyvc.concrun import Violation, Skip
from props import p_P11 as parts

NONE_ATTR = True
TIMEOUT = 30


def cases(tier, seed):
    R = random.Random(seed)
    reps = 260 if tier == "quick" else 4000
    for _ in range(reps):
        yield gen_evenly(R)
        yield gen_evenly(R)
        yield gen_mp(R)
        yield gen_files(R)


def gen_mp(R):
    hist = []
    ep = R.randint(1, 3)
    for _ in range(R.randint(1, 4)):
        hist.append(["read", ep, R.choice([None, None, None, "order", "list"])])
        if R.random() < 0.3:
            hist.append(["finish", R.random() < 0.5])
        if R.random() < 0.3:
            hist.append([R.choice(["total", "tags", "keys"])])
        ep = max(1, ep + R.choice([1, 1, 1, 0, -1]))
    known = R.random() < 0.7
    workers, pe = R.randint(1, 4), R.choice([1, 1, 2])
    # an epoch of unknown size is not empty (a shard neither)
    n = R.randint(1, 12) if known else workers * pe + R.randint(0, 6)
    return dict(kind="mp", n=n, workers=workers, buffer=R.randint(1, 4), method=R.choice(["seq_order", "dedicated"]) if known else "dedicated", known=known, order=R.choice(["default", "random", "reverse"]),
                pe=pe, hist=hist, style=parts.style(R), rnd=R.randint(0, 999), odd=known and R.random() < 0.3, skip=R.choice([0, 0, 0, R.randint(1, 99)]))


def gen_sizes(R, k):
    m = R.choice([1, 3, 10, 100])
    s = [R.randint(0, m) if R.random() < 0.8 else R.randint(0, 5 * m) for _ in range(k)]
    if R.random() < 0.2:
        s = [R.choice([0, 0, 1, 1, 120]) for _ in range(k)]
    return s


def gen_evenly(R):
    b = R.randint(1, 7)
    k = b + R.choice([0, 0, 1, 2, 5, 9])
    return dict(kind="evenly", bins=b, sizes=gen_sizes(R, k), tree=R.random() < 0.3)


def gen_files(R):
    shards, pe = R.choice([1, 1, 2, 3]), R.randint(1, 3)
    k = shards * pe + R.randint(0, 4)
    hist = []
    ep = R.randint(1, 4)
    for _ in range(R.randint(1, 4)):
        hist.append(["read", ep])
        if R.random() < 0.3:
            hist.append(["finish", R.random() < 0.5])
        ep = max(1, ep + R.choice([1, 1, 1, 2, 0]))
    return dict(kind="files", sizes=gen_sizes(R, k), counts=[R.randint(1, 3) for _ in range(k)], shards=shards, own=R.random() < 0.5, pe=pe, preload=R.choice([0, 1, 1, 2, 3]), buffer=R.randint(1, 3), order=R.choice(["default", "random"]),
                inner=R.choice(["default", "random", "reverse"]), known=R.random() < 0.7, hist=hist, style=parts.style(R), tree=R.random() < 0.3, rnd=R.randint(0, 999), skip=R.choice([0, 0, 0, R.randint(1, 99)]))


def from_model(unit, label, m):
    R = random.Random(12)
    u = unit.lower()
    kinds = [k for k, w in (("mp", "multi"), ("evenly", "distribute"), ("files", "files"), ("files", "sub dataset"), ("mp", "worker"), ("files", "worker")) if w in u] or ["mp", "evenly", "files"]
    f = dict(mp=gen_mp, evenly=gen_evenly, files=gen_files)
    for _ in range(150):
        for k in kinds:
            yield f[k](R)


def run_case(c):
    globals()["run_" + c["kind"]](c)


# ---------------------------------------------------------------- processes as threads


class Eof:
    pass


class Conn:
    """one end of a pipe; messages are copied as pickling does"""

    def __init__(self, inq, outq, rnd):
        self.inq, self.outq, self.rnd = inq, outq, rnd

    def send(self, x):
        self.outq.put(copy.deepcopy(x))

    def recv(self):
        try:
            x = self.inq.get(timeout=TIMEOUT)
        except queue.Empty:
            raise Violation("no answer from the other process within %i s" % TIMEOUT)
        if isinstance(x, Eof):
            raise EOFError
        return x

    def poll(self, timeout=0):
        # a message may arrive just now: True leads to a recv() that waits for it
        return not self.inq.empty() or self.rnd.random() < 0.3

    def close(self):
        pass

    def __deepcopy__(self, memo):
        return self


class Proc:
    def __init__(self, mp, target=None, args=(), kwargs=None, name=None, daemon=None):
        self.mp, self.target, self.exc, self.name = mp, target, None, name
        self.args, self.kwargs = copy.deepcopy(args), copy.deepcopy(kwargs or {})
        self.env = dict(os.environ)
        mp.procs.append(self)

    def run(self):
        try:
            self.target(*self.args, **self.kwargs)
        except BaseException as exc:
            self.exc = exc
        for x in list(self.args) + list(self.kwargs.values()):
            for y in x if isinstance(x, (list, tuple)) else [x]:
                if isinstance(y, Conn):
                    y.outq.put(Eof())

    def start(self):
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def join(self, timeout=None):
        self.thread.join(TIMEOUT)
        if self.thread.is_alive():
            raise Violation("a worker process does not end")

    def is_alive(self):
        return self.thread.is_alive()


class Mp:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.procs, self.conns = [], []

    def Pipe(self, duplex=True):
        a, b = queue.Queue(), queue.Queue()
        x, y = Conn(a, b, self.rnd), Conn(b, a, self.rnd)
        self.conns += [x, y]
        return x, y

    def Process(self, **kw):
        return Proc(self, **kw)

    def end(self):
        for c in self.conns:
            c.outq.put(Eof())
        for p in self.procs:
            p.thread.join(TIMEOUT)


class NoHook:
    @staticmethod
    def setup_all():
        pass

    def __getattr__(self, k):
        return lambda *a, **kw: None


def with_mp(c, run):
    import returnn.datasets.multi_proc as A
    import returnn.datasets.distrib_files as B

    for m, names in ((A, ("NonDaemonicSpawnContext", "better_exchook")), (B, ("_mp", "mpConnection", "better_exchook"))):
        for k in names:
            if not hasattr(m, k):
                raise Skip("no %s in %s" % (k, m.__name__))
    mp = Mp(c["rnd"])
    old = A.NonDaemonicSpawnContext, A.better_exchook, B._mp, B.mpConnection, B.better_exchook
    A.NonDaemonicSpawnContext = lambda *a, **k: mp
    A.better_exchook = B.better_exchook = NoHook()
    B._mp, B.mpConnection = mp, Conn
    comm = open("/proc/self/comm").read() if os.path.exists("/proc/self/comm") else None
    try:
        try:
            run(mp)
        except EOFError:
            for p in mp.procs:
                if p.exc is not None and not isinstance(p.exc, EOFError):
                    raise p.exc
            raise
        for p in mp.procs:
            if p.exc is not None:
                raise p.exc
    finally:
        mp.end()
        A.NonDaemonicSpawnContext, A.better_exchook, B._mp, B.mpConnection, B.better_exchook = old


# ---------------------------------------------------------------- the datasets

_cls = {}


def classes():
    if _cls:
        return _cls
    P = parts.part_class()

    class Shardable(P):
        def supports_sharding(self):
            return True

        def __init__(self, *a, odd=False, **kw):
            super().__init__(*a, **kw)
            self.odd = odd

        def get_complete_frac(self, sorted_seq_idx, **kw):
            if self.odd:  # own estimate, different per worker
                return (3 * sorted_seq_idx + 5 * (sorted_seq_idx % 2) + len(self._order)) / (4.0 * len(self._order) + 9)
            return super().get_complete_frac(sorted_seq_idx, **kw)

    class OverFiles(Shardable):
        """the sequences of some files; file <dir>/f<i>-<n>... has n sequences f<i>-s<j>"""

        def __init__(self, files, known=True, **kw):
            import tree

            tags = []
            for f in files:
                i, n = os.path.basename(tree.flatten(f)[0]).split("-")[:2]
                tags += ["%s-s%d" % (i, j) for j in range(int(n))]
            super().__init__(1, len(tags), known=known, tags=tags or ["none"], **kw)

        def _collect_single_seq(self, seq_idx):
            if seq_idx >= len(self._order):
                return None
            t = self.tags[int(self._order[seq_idx])]
            from returnn.datasets.basic import DatasetSeq

            return DatasetSeq(seq_idx=seq_idx, seq_tag=t, features=file_feats(t))

    _cls.update(part=Shardable, files=OverFiles)
    return _cls


def file_feats(t):
    i, j = [int(x[1:]) for x in t.split("-")]
    return parts.feats(i + 1, j)


def skipped(skip, buffer):
    """indices that the consumer leaves out: never as many as fit in the buffer in a row"""
    if not skip or buffer < 2:
        return set()
    R = random.Random(skip)
    out, run = set(), 0
    for i in range(200):
        if run < buffer - 1 and R.random() < 0.5:
            out.add(i)
            run += 1
        else:
            run = 0
    return out


def read(ds, epoch, st, kw=None, what="", known=True, skip=()):
    """as the consumer of P11, and the complete fraction is in (0, 1] and does not decrease"""
    last = [0.0]
    got = []
    ds.init_seq_order(epoch=epoch, **(kw or {}))
    if st.get("peek") is not None:  # an epoch that is not read completely before
        i = 0
        for _ in range(st["peek"]):
            if ds.is_less_than_num_seqs(i):
                ds.load_seqs(i, i + 1)
                i += 1
        ds.init_seq_order(epoch=epoch, **(kw or {}))
    i = 0
    while ds.is_less_than_num_seqs(i):
        if i > 200:
            raise Violation("%s: the epoch does not end" % what)
        if i in skip:
            i += 1
            continue
        if st["ahead"]:
            e2 = i + 1 + st["ahead"]
            while not st["beyond"] and e2 > i + 1 and not ds.is_less_than_num_seqs(e2 - 1):
                e2 -= 1
            ds.load_seqs(i, e2)
        ds.load_seqs(i, i + 1)
        got.append((ds.get_tag(i), {key: ds.get_data(i, key) for key in ds.get_data_keys()}))
        for lr in (False, True):
            f = ds.get_complete_frac(i, allow_only_lr_suitable=lr)
            if f is None:
                if known or not lr:
                    raise Violation("%s: no complete fraction for sequence %d" % (what, i))
                continue
            if not (0.0 < f <= 1.0):
                raise Violation("%s: complete fraction %r" % (what, f))
            if known and f < last[0] - 1e-9:
                raise Violation("%s: complete fraction decreases, %r after %r" % (what, f, last[0]))
            if known:
                last[0] = f
        i += 1
    return got


def run_mp(c):
    def run(mp):
        from returnn.datasets.multi_proc import MultiProcDataset

        C = classes()["part"]
        kw = dict(p=1, n=c["n"], known=c["known"], seq_ordering=c["order"], partition_epoch=c["pe"], odd=c.get("odd", False))
        if c["n"] == 0:
            kw["tags"] = ["none"]
        ds = MultiProcDataset(dataset={"class": C, **kw}, num_workers=c["workers"], buffer_size=c["buffer"], sharding_method=c["method"])
        try:
            ds.initialize()
            W = c["workers"]
            for h in c["hist"]:
                if h[0] == "read":
                    ep, how = h[1:]
                    ref = C(**kw)
                    k2 = {}
                    if c["method"] == "seq_order" and how:
                        R = random.Random(c["rnd"] + ep)
                        sel = [j for j in range(c["n"]) if R.random() < 0.7]
                        R.shuffle(sel)
                        k2 = {"seq_order": sel} if how == "order" else {"seq_list": ["p1-s%d" % j for j in sel]}
                        exp = sel
                    elif c["method"] == "seq_order":
                        exp = ref.order_for(ep)
                    else:
                        sh = [C(**kw, _num_shards=W, _shard_index=w).order_for(ep) for w in range(W)]
                        exp = [sh[i % W][i // W] for i in range(sum(len(x) for x in sh))]
                    got = read(ds, ep, c["style"], k2, "multi-proc epoch %d" % ep, known=c["known"], skip=skipped(c.get("skip"), c["buffer"]))
                    exp = [x for i, x in enumerate(exp) if i not in skipped(c.get("skip"), c["buffer"])]
                    parts.check(got, [("p1-s%d" % j, parts.feats(1, j)) for j in exp], "multi-proc epoch %d" % ep)
                elif h[0] == "finish":
                    ds.finish_epoch(free_resources=h[1])
                    if h[1]:
                        # a dataset that was freed is available again with the next epoch
                        ds.init_seq_order(epoch=1)
                elif h[0] == "total":
                    if ds.get_total_num_seqs() != c["n"]:
                        raise Violation("total number of sequences %r, expected %r" % (ds.get_total_num_seqs(), c["n"]))
                elif h[0] == "tags":
                    if list(ds.get_all_tags()) != C(**kw).tags:
                        raise Violation("all tags %r" % (ds.get_all_tags(),))
                elif h[0] == "keys":
                    if sorted(ds.get_data_keys()) != ["classes", "data"]:
                        raise Violation("data keys %r" % (ds.get_data_keys(),))
        finally:
            del ds

    with_mp(c, run)


def run_evenly(c):
    from returnn.datasets.distrib_files import DistributeFilesDataset

    f = getattr(DistributeFilesDataset, "_distribute_evenly_by_size", None)
    if f is None:
        raise Skip("no _distribute_evenly_by_size")
    files = ["f%d" % i for i in range(len(c["sizes"]))]
    sizes = dict(zip(files, c["sizes"]))
    if c["tree"]:
        files = [(x, x + "b") for x in files]
        sizes = {"%s:%s" % x: s for x, s in zip(files, c["sizes"])}
    r = f(num_bins=c["bins"], file_sizes=sizes, files_order=files)
    if [x for b in r for x in b] != files:
        raise Violation("files %s distributed as %s" % (files, r))
    if len(r) != c["bins"] or not all(r):
        raise Violation("%d files with sizes %s in %d bins: %s" % (len(files), c["sizes"], c["bins"], r))


def run_files(c):
    def run(mp):
        from returnn.datasets.distrib_files import DistributeFilesDataset

        C = classes()["files"]
        d = tempfile.mkdtemp(dir=os.environ.get("PYVC_TMP"))
        try:
            files = []
            for i, (s, n) in enumerate(zip(c["sizes"], c["counts"])):
                fn = "%s/f%d-%d" % (d, i, n)
                with open(fn, "wb") as f:
                    f.truncate(s)
                if c["tree"]:
                    open(fn + "-b", "wb").close()
                    fn = (fn, fn + "-b")
                files.append(fn)

            def sub(fs):
                return {"class": C, "files": list(fs), "known": c["known"], "seq_ordering": c["inner"]}

            def mk(s, seed=0):
                kw = {}
                if c["shards"] > 1:
                    info = {"_num_shards": c["shards"], "_shard_index": s}
                    kw = {"distrib_shard_files": True, "_distrib_info": info} if c["own"] else info
                ds = DistributeFilesDataset(files=files, get_sub_epoch_dataset=sub, partition_epoch=c["pe"], preload_next_n_sub_epochs=c["preload"], buffer_size=c["buffer"], seq_ordering=c["order"], **kw)
                ds.initialize()
                return ds

            plain = dict(peek=None, ahead=0, beyond=False)
            allt = ["f%d-s%d" % (i, j) for i, n in enumerate(c["counts"]) for j in range(n)]
            ref = {}

            def reference(ep):
                """sequences of all shards for all sub-epochs of the full epoch, by fresh datasets"""
                full = (ep - 1) // c["pe"]
                if full not in ref:
                    seen = []
                    for s in range(c["shards"]):
                        ds = mk(s)
                        for e in range(full * c["pe"] + 1, (full + 1) * c["pe"] + 1):
                            got = read(ds, e, plain, None, "files epoch %d" % e, known=c["known"])
                            parts.check(got, [(t, file_feats(t)) for t, _ in got], "files epoch %d" % e)
                            ref[full, s, e] = [t for t, _ in got]
                            seen += ref[full, s, e]
                        del ds
                    if sorted(seen) != sorted(allt):
                        raise Violation("full epoch %d with %d sub-epochs and %d shards gives %s, expected each once of %s" % (full + 1, c["pe"], c["shards"], sorted(seen), sorted(allt)))
                    ref[full] = True
                return ref[full, shard, ep]

            shard = c["rnd"] % c["shards"]
            ds = mk(shard)
            for h in c["hist"]:
                if h[0] == "read":
                    exp = reference(h[1])
                    skip = skipped(c.get("skip"), c["buffer"])
                    got = read(ds, h[1], c["style"], None, "files epoch %d" % h[1], known=c["known"], skip=skip)
                    exp = [x for i, x in enumerate(exp) if i not in skip]
                    parts.check(got, [(t, file_feats(t)) for t in exp], "files epoch %d" % h[1])
                else:
                    ds.finish_epoch(free_resources=h[1])
            del ds
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with_mp(c, run)
