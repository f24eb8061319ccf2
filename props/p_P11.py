"""P11 concrete side: datasets made of other datasets give exactly the sequences of their parts, with their own data"""
import os
import random
import tempfile
import numpy
from pyvc.concrun import Violation, Skip

NONE_ATTR = True


def cases(tier, seed):
    R = random.Random(seed)
    reps = 500 if tier == "quick" else 6000
    for _ in range(reps):
        yield gen_concat(R)
        yield gen_combined(R)
        yield gen_meta(R)
        yield gen_multi(R)
        yield gen_cseqs(R)


def style(R):
    return dict(peek=R.choice([None, None, None, 0, 1, 2]), step=R.choice([1, 1, 2, 3]), ahead=R.choice([0, 0, 1, 4]), tags=R.random() < 0.4, beyond=R.random() < 0.3)


def epochs(R):
    return R.choice([[1], [1, 2], [2, 3], [1, 2, 3], [3, 1], [1, 1], [2, 2, 3]])


def gen_concat(R):
    return dict(kind="concat", parts=[R.randint(1, 5) for _ in range(R.randint(1, 4))], known=R.random() < 0.7, order=R.choice(["default", "random"]), pe=R.choice([1, 1, 2, 3]), lazy=R.random() < 0.5, epochs=epochs(R), style=style(R))


def gen_combined(R):
    k = R.randint(1, 3)
    known = R.random() < 0.7
    o = R.choice(["default", "reverse", "random", "random_dataset", "sorted", "laplace:.2"] if known else ["default", "reversed", "random_dataset"])
    smp = {"abc"[i]: R.randint(0, 7) for i in range(k)} if known and R.random() < 0.35 and o != "random_dataset" else None
    if smp and not any(smp.values()):
        smp["a"] = 1
    pe = R.choice([1, 1, 2, 3]) if known and not smp else 1
    subpe = R.choice([1, 1, 2, 3]) if known and pe == 1 else 1
    return dict(kind="combined", subpe=subpe, parts=[R.randint(subpe, 6) for _ in range(k)], known=known, order=o, inner=R.choice(["default", "random", "reverse"]), sampling=smp,
                pe=pe, rep=R.choice([1, 1, 2]) if known and not smp and pe == 1 else 1, epochs=epochs(R), style=style(R), est=R.choice([0, 0, 2, -2]), lazy=R.random() < 0.5)


def gen_meta(R):
    n = R.randint(1, 8)
    return dict(kind="meta", n=n, order=R.choice(["default", "random", "reverse", "sorted"]), control=R.choice([None, "a", "b"]), inner=R.choice(["default", "random"]), diff_tags=R.random() < 0.5,
                extra=R.randint(0, 3), sel=[R.choice([None, None, "list", "order"]) for _ in range(3)], pe=R.choice([1, 1, 2]), epochs=epochs(R), style=style(R), perm=R.randint(0, 99), swap=R.random() < 0.5, lazy=R.random() < 0.5)


def gen_multi(R):
    return dict(kind="multi", n=R.randint(1, 5), multi=R.randint(1, 4), known=R.random() < 0.6, order=R.choice(["default", "random"]), epochs=epochs(R), style=style(R), pre=R.random() < 0.15)


def gen_cseqs(R):
    n = R.randint(1, 6)
    return dict(kind="cseqs", n=n, lists=[[R.randrange(n) for _ in range(R.randint(1, 4))] for _ in range(R.randint(1, 5))], order=R.choice(["default", "random", "sorted"]), postfix=R.random() < 0.4,
                mult=R.choice([None, None, 1, 2, 3, 4]), narrow=R.choice([None, None, None, 1, 2, 3]), epochs=epochs(R), style=style(R))


def from_model(unit, label, m):
    R = random.Random(11)
    u = unit.lower()
    kinds = [k for k in ("concat", "combined", "meta", "multi", "cseqs") if k in u] or ["concat", "combined", "meta", "multi", "cseqs"]
    f = dict(concat=gen_concat, combined=gen_combined, meta=gen_meta, multi=gen_multi, cseqs=gen_cseqs)
    for _ in range(400):
        for k in kinds:
            yield f[k](R)


def run_case(c):
    globals()["run_" + c["kind"]](c)


# ---------------------------------------------------------------- parts


def part_class():
    from returnn.datasets.cached2 import CachedDataset2
    from returnn.datasets.basic import DatasetSeq

    class Part(CachedDataset2):
        """sequence j of part p: data [[p, j], ...] (3+j%4 frames), classes [p*100+j, ..., 7] and tag"""

        def __init__(self, p, n, known=True, tags=None, est=0, lazy=False, **kw):
            super().__init__(**kw)
            self.p, self.n, self.known, self.lazy = p, n, known, lazy
            self.tags = tags or ["p%d-s%d" % (p, j) for j in range(n)]
            self.num_inputs = 2
            self.num_outputs = {"data": (2, 2), "classes": (1000, 1)}
            self._estimated_num_seqs = max(1, n + est)
            self._order = []
            self.initialize()

        def order_for(self, epoch):
            return list(self.get_seq_order_for_epoch(epoch=epoch, num_seqs=self.n, get_seq_len=lambda j: 3 + j % 4))

        def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
            super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
            if seq_order is not None:
                self._order = list(seq_order)
            elif seq_list is not None:
                self._order = [self.tags.index(t) for t in seq_list]
            else:
                self._order = self.order_for(epoch)
            if self.known:
                self._num_seqs = len(self._order)
            return True

        def supports_seq_order_sorting(self):
            return True

        def _collect_single_seq(self, seq_idx):
            if seq_idx >= len(self._order):
                return None
            j = int(self._order[seq_idx])
            return DatasetSeq(seq_idx=seq_idx, seq_tag=self.tags[j], features=feats(self.p, j))

        def get_current_seq_order(self):
            return self._order

        def get_estimated_seq_length(self, seq_idx):
            return 3 + int(self._order[seq_idx]) % 4

        def get_tag(self, sorted_seq_idx):
            if self.lazy:  # known without loading
                return self.tags[int(self._order[sorted_seq_idx])]
            return super().get_tag(sorted_seq_idx)

        def have_corpus_seq_idx(self):
            return True

        def get_corpus_seq_idx(self, seq_idx):
            return self._order[seq_idx]

        def get_all_tags(self):
            return self.tags

        def get_total_num_seqs(self, *, fast=False):
            return self.n

        def get_data_keys(self):
            return ["data", "classes"]

        def get_target_list(self):
            return ["classes"]

        def get_data_dtype(self, key):
            return {"data": "float32", "classes": "int32"}[key]

    return Part


def feats(p, j):
    t = 3 + j % 4
    return {"data": numpy.array([[p, j]] * t, "float32") + numpy.arange(t)[:, None].astype("float32") / 64.0, "classes": numpy.array([p * 100 + j] * (1 + j % 3) + [7], "int32")}


def read(ds, epoch, st, kw=None):
    """iterate one epoch as a consumer: [(tag, data per key)]"""
    ds.init_seq_order(epoch=epoch, **(kw or {}))
    out = []
    i = 0
    if st.get("peek") is not None:  # an epoch that is not read completely before
        for _ in range(st["peek"]):
            if ds.is_less_than_num_seqs(i):
                ds.load_seqs(i, i + 1)
                i += 1
        ds.init_seq_order(epoch=epoch, **(kw or {}))
        i = 0
    while ds.is_less_than_num_seqs(i):
        if i > 200:
            raise Violation("the epoch does not end")
        end = i + st["step"]
        while not ds.is_less_than_num_seqs(end - 1):
            end -= 1
        if st["ahead"]:
            e2 = end + st["ahead"]
            while not st["beyond"] and e2 > end and not ds.is_less_than_num_seqs(e2 - 1):
                e2 -= 1
            ds.load_seqs(i, e2)
        if st["tags"]:
            ds.get_tag(i)
        ds.load_seqs(i, end)
        for k in range(i, end):
            out.append((ds.get_tag(k), {key: ds.get_data(k, key) for key in ds.get_data_keys()}))
        i = end
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and (a == b).all()


def check(got, exp, what):
    """exp: [(tag, data)]"""
    if [t for t, _ in got] != [t for t, _ in exp]:
        raise Violation("%s: sequences %s, expected %s" % (what, [t for t, _ in got], [t for t, _ in exp]))
    for (t, d), (_, e) in zip(got, exp):
        if set(d) != set(e):
            raise Violation("%s: data keys %s, expected %s" % (what, sorted(d), sorted(e)))
        for k in e:
            if not same(numpy.asarray(d[k]), e[k]):
                raise Violation("%s: sequence %s has other data for %r: %s, expected %s" % (what, t, k, d[k].tolist(), e[k].tolist()))


# ---------------------------------------------------------------- the datasets


def run_concat(c):
    from returnn.datasets.meta import ConcatDataset

    Part = part_class()
    mk = lambda p, n: Part(p, n, known=c["known"], seq_ordering=c["order"], lazy=c["lazy"], **({"partition_epoch": min(c["pe"], n)} if p % 2 == 0 else {}))
    ds = ConcatDataset(datasets=[mk(p, n) for p, n in enumerate(c["parts"])])
    ds.initialize()
    if not c["known"] and len(c["parts"]) > 1:
        return  # ConcatDataset needs the number of sequences of its parts
    for ep in c["epochs"]:
        exp = [("p%d-s%d" % (p, j), feats(p, j)) for p, n in enumerate(c["parts"]) for j in mk(p, n).order_for(ep)]
        check(read(ds, ep, c["style"]), exp, "concat epoch %d" % ep)


def run_combined(c):
    from returnn.datasets.meta import CombinedDataset

    Part = part_class()
    names = "abc"[: len(c["parts"])]
    sub = dict(partition_epoch=c["subpe"]) if c.get("subpe", 1) > 1 else {}
    mk = lambda p, n: Part(p, n, known=c["known"], seq_ordering=c["inner"], est=c["est"], lazy=c["lazy"], **sub)
    dm = {(k, "data"): "data" for k in names}
    dm.update({(k, "classes"): "classes" for k in names[1:] or names})
    kw = dict(seq_ordering=c["order"])
    if c["sampling"]:
        kw["sampling_sizes"] = c["sampling"]
    if c["pe"] > 1:
        kw["partition_epoch"] = c["pe"]
    if c["rep"] > 1:
        kw["repeat_epoch"] = c["rep"]
    ds = CombinedDataset(datasets={k: mk(p, n) for p, (k, n) in enumerate(zip(names, c["parts"]))}, data_map=dm, **kw)
    ds.initialize()
    taken = {}
    for ep in c["epochs"]:
        numpy.random.seed(ep)
        got = read(ds, ep, c["style"])
        full = {}
        inner = {}
        for p, n in enumerate(c["parts"]):
            inner[p] = ["p%d-s%d" % (p, j) for j in mk(p, n).order_for(ep)]
            for j in range(n):
                f = feats(p, j)
                if len(names) > 1 and p == 0:
                    f["classes"] = numpy.zeros((0,), "int32")
                full["p%d-s%d" % (p, j)] = f
        for t, _ in got:
            if t not in full:
                raise Violation("combined: unknown sequence %s" % t)
        check(got, [(t, full[t]) for t, _ in got], "combined epoch %d" % ep)
        tags = [t for t, _ in got]
        if c["sampling"]:
            exp = []
            for p, n in enumerate(c["parts"]):
                size = c["sampling"][names[p]]
                exp += [inner[p][((ep - 1) * size + q) % len(inner[p])] for q in range(size)]
            if sorted(tags) != sorted(exp):
                raise Violation("combined epoch %d: sampled %s, expected %s" % (ep, tags, exp))
            continue
        alls = [t for p in sorted(inner) for t in inner[p]]
        if c["pe"] == 1:
            if sorted(tags) != sorted(alls * c["rep"]):
                raise Violation("combined epoch %d: %s, expected all of %s %d times" % (ep, tags, alls, c["rep"]))
            part = tags[: len(alls)]
            if c["order"] == "default" and part != alls:
                raise Violation("combined, default order: %s, expected %s" % (part, alls))
            if c["order"] == "random_dataset":
                for p in inner:
                    if [t for t in part if t.startswith("p%d-" % p)] != inner[p]:
                        raise Violation("combined, random_dataset: %s does not keep the order of part %d: %s" % (part, p, inner[p]))
        elif len(set(tags)) * c["rep"] != len(tags):
            raise Violation("combined epoch %d: repeated sequences %s" % (ep, tags))
        elif c["inner"] == "default" and c["order"] in ("default", "random_dataset", "random"):
            taken.setdefault((ep - 1) // c["pe"], {})[(ep - 1) % c["pe"]] = sorted(set(tags))
    for full_ep, d in taken.items():
        if len(d) == c["pe"]:
            if sorted(sum(d.values(), [])) != sorted(alls):
                raise Violation("combined: the %d parts of full epoch %d are %s" % (c["pe"], full_ep, d))


def run_meta(c):
    from returnn.datasets.meta import MetaDataset
    import pickle

    Part = part_class()
    R = random.Random(c["perm"])
    n = c["n"]
    ta = ["s%d" % j for j in range(n)]
    perm = list(range(n + c["extra"]))
    R.shuffle(perm)
    tb0 = ["x%d" % j if c["diff_tags"] else "s%d" % j for j in range(n + c["extra"])]
    if not c["diff_tags"] and c["control"] == "b":
        tb0 = tb0[:n]
        perm = [q for q in perm if q < n]
    tb = [tb0[q] for q in perm]  # part b stores the sequences in another order
    a = Part(0, n, tags=ta, seq_ordering=c["inner"], lazy=c["lazy"])
    b = Part(1, len(tb), tags=tb, seq_ordering=c["inner"], lazy=c["lazy"])
    dm = {"data": ("a", "data"), "classes": ("b", "classes"), "cls2": ("a", "classes")}
    if c["swap"]:
        dm = {"data": ("a", "classes"), "classes": ("b", "data"), "other": ("a", "data"), "classes_b": ("b", "classes")}
    kw = {}
    tmp = None
    if c["diff_tags"]:
        if c["control"]:
            return  # the control dataset then needs the same original order
        tmp = tempfile.NamedTemporaryFile(suffix=".pkl", dir=os.environ.get("PYVC_TMP"), delete=False)
        pickle.dump({"a": ta, "b": ["x%d" % j for j in range(n)]}, tmp)
        tmp.close()
        kw["seq_list_file"] = tmp.name
    if c["control"]:
        kw["seq_order_control_dataset"] = c["control"]
    if c["pe"] > 1 and not c["control"]:
        kw["partition_epoch"] = c["pe"]
    try:
        ds = MetaDataset(datasets={"a": a, "b": b}, data_map=dm, seq_ordering=c["order"], **kw)
        ds.initialize()
    finally:
        if tmp:
            os.unlink(tmp.name)
    base = tb if c["control"] == "b" else ta

    def exp(tag):
        j = int(tag[1:])
        jb = tb.index("x%d" % j if c["diff_tags"] else "s%d" % j)
        return {k: feats({"a": 0, "b": 1}[d], {"a": j, "b": jb}[d])[k2] for k, (d, k2) in dm.items()}

    seen = []
    for sel, ep in zip(c["sel"], c["epochs"]):
        k2 = {}
        want = None
        if sel:
            idx = [R.randrange(n) for _ in range(R.randint(1, n + 1))]
            idx = list(dict.fromkeys(idx))
            want = [base[q] for q in idx]
            k2 = {"seq_list": want} if sel == "list" else {"seq_order": idx}
        elif c["control"]:
            o = Part(0, n, tags=base, seq_ordering=c["inner"])
            want = [base[q] for q in o.order_for(ep)]
        elif c["order"] == "default" and c["pe"] == 1:
            want = list(base)
        got = read(ds, ep, c["style"], k2)
        tags = [t for t, _ in got]
        if want is not None and tags != want:
            raise Violation("meta epoch %d: sequences %s, expected %s" % (ep, tags, want))
        if want is None and c["pe"] == 1 and sorted(tags) != sorted(base):
            raise Violation("meta epoch %d: sequences %s, expected all of %s" % (ep, tags, base))
        if len(set(tags)) != len(tags) or not set(tags) <= set(base):
            raise Violation("meta epoch %d: sequences %s" % (ep, tags))
        check(got, [(t, exp(t)) for t in tags], "meta epoch %d" % ep)


def run_multi(c):
    from returnn.datasets.meta import MultiEpochDataset

    Part = part_class()
    mk = lambda: Part(1, c["n"], known=c["known"], seq_ordering=c["order"])
    ds = MultiEpochDataset(dataset=mk(), multi_epoch=c["multi"])
    ds.initialize()
    for ep in c["epochs"]:
        if c["pre"]:
            want = list(range(c["n"]))[::-1]
            got = read(ds, ep, c["style"], {"seq_order": want})
            exp = want
        else:
            got = read(ds, ep, c["style"])
            exp = [j for q in range(c["multi"]) for j in mk().order_for((ep - 1) * c["multi"] + 1 + q)]
        check(got, [("p1-s%d" % j, feats(1, j)) for j in exp], "multi-epoch %d" % ep)


def run_cseqs(c):
    from returnn.datasets.meta import ConcatSeqsDataset

    Part = part_class()
    d = tempfile.mkdtemp(dir=os.environ.get("PYVC_TMP"))
    try:
        tags = [";".join("p1-s%d" % j for j in l) for l in c["lists"]]
        tags = list(dict.fromkeys(tags))
        with open(d + "/list", "w") as f:
            f.write("".join(t + "\n" for t in tags))
        with open(d + "/lens", "w") as f:
            f.write(repr({"p1-s%d" % j: 3 + j % 4 for j in range(c["n"])}))
        kw = {}
        if c["postfix"]:
            kw["remove_in_between_postfix"] = {"classes": 7}
        if c["mult"]:
            kw["repeat_in_between_last_frame_up_to_multiple_of"] = {"data": c["mult"]}
        elif c["narrow"]:
            kw["pad_narrow_data_to_multiple_of_target_len"] = {"data": ("classes", c["narrow"])}
        ds = ConcatSeqsDataset(dataset=Part(1, c["n"]), seq_list_file=d + "/list", seq_len_file=d + "/lens", seq_ordering=c["order"], **kw)
        ds.initialize()
        for ep in c["epochs"]:
            got = read(ds, ep, c["style"])
            gt = [t for t, _ in got]
            if (sorted(gt) if c["order"] != "default" else gt) != (sorted(tags) if c["order"] != "default" else tags):
                raise Violation("concat-seqs: %s, expected %s" % (gt, tags))
            if c["order"] == "sorted":
                ln = [sum(3 + int(x.split("s")[1]) % 4 for x in t.split(";")) for t in gt]
                if ln != sorted(ln):
                    raise Violation("concat-seqs sorted by length gives lengths %s" % ln)
            exp = []
            for t in gt:
                js = [int(x.split("s")[1]) for x in t.split(";")]
                da, cl = [], []
                for q, j in enumerate(js):
                    f = feats(1, j)
                    x, y = f["data"], f["classes"]
                    last = q == len(js) - 1
                    if not last:
                        if c["mult"] and len(x) % c["mult"]:
                            x = numpy.concatenate([x] + [x[-1:]] * (c["mult"] - len(x) % c["mult"]))
                        elif c["narrow"] and not c["mult"]:
                            want = len(y) * c["narrow"]
                            x = x[:want] if len(x) > want else numpy.concatenate([x] + [x[-1:]] * (want - len(x)))
                        if c["postfix"]:
                            y = y[:-1]
                    da.append(x)
                    cl.append(y)
                exp.append((t, {"data": numpy.concatenate(da), "classes": numpy.concatenate(cl)}))
            check(got, exp, "concat-seqs epoch %d" % ep)
    finally:
        import shutil

        shutil.rmtree(d, ignore_errors=True)
