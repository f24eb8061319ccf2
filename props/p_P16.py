"""P16 concrete side: files written by SimpleHDFWriter and HDFDatasetWriter, read by HDFDataset"""
import os
import random
import shutil
import tempfile
import numpy
from pyvc.concrun import Violation, Skip

CASE_S = 60


def cases(tier, seed):
    R = random.Random(seed)
    for i in range(360 if tier == "quick" else 5000):
        yield gen(R) if i % 3 else gen_dump(R)


def gen(R):
    inp = R.choice(["dense", "dense", "sparse", "sparse_dim", "time2", "flat0"])
    keys = R.sample(["a", "classes", "zz", "sizes2"], R.choice([0, 1, 1, 2, 2, 3]))
    extra = {k: R.choice(["scalar", "vec", "vec", "mat", "float"]) for k in keys}
    files = []
    for _ in range(R.choice([1, 1, 2, 3])):
        parts = [[R.randint(1, 4) for _ in range(R.randint(1, 4))] for _ in range(R.randint(1, 4))]
        files.append(dict(parts=[[[R.randint(0 if R.random() < 0.1 else 1, 5), R.randint(1, 3)] for _ in p] for p in parts], ext=R.randint(1, len(parts)) if R.random() < 0.35 else None))
    return dict(kind="simple", inp=inp, extra=extra, files=files, typed=R.random() < 0.5, ext_typed=R.random() < 0.5, labels=R.random() < 0.5, uni=R.random() < 0.3, more=R.random() < 0.3, rnd=R.randint(0, 9999), **read_opts(R))


def read_opts(R):
    return dict(order=R.choice(["default", "reverse", "random", "sorted", "laplace:.3", "sorted_reverse"]), part=R.choice([1, 1, 2, 3]), epochs=R.randint(1, 3), list=R.choice([None, None, "tags", "idx"]))


def gen_dump(R):
    keys = R.sample(["a", "classes", "zz", "cx"], R.choice([0, 1, 2, 2]))
    has = R.random() < 0.65 or not keys
    extra = {k: R.choice(["vec", "mat"]) for k in keys}
    n = R.randint(1, 9)
    lens = [[R.randint(0 if R.random() < 0.15 else 1, 5), R.randint(1, 3)] for _ in range(n)]
    return dict(kind="dump", inp=R.choice(["dense", "sparse_dim"]) if has else None, extra=extra, lens=lens, split=R.randint(1, n) if R.random() < 0.6 else n, ds_order=R.choice(["default", "random", "sorted"]), rnd=R.randint(0, 9999),
                start=R.randint(0, n - 1) if R.random() < 0.3 else 0, labels=R.random() < 0.5, uni=R.random() < 0.3, swap=R.random() < 0.5, more=R.random() < 0.5, unk=R.random() < 0.3, **read_opts(R))


def from_model(unit, label, m):
    R = random.Random(16)
    for k in range(80):
        if "dump" in unit:
            yield gen_dump(R)
        elif "read" in unit:
            yield gen(R) if k % 3 else gen_dump(R)
        else:
            c = gen(R)
            if "extend" in unit:
                for f in c["files"]:
                    f["ext"] = 1 + k % len(f["parts"])
            yield c


def run_case(c):
    tmp = tempfile.mkdtemp(prefix="pyvc_p16_", dir=os.environ.get("PYVC_TMP"))
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        (run_simple if c["kind"] == "simple" else run_dump)(c, tmp)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(tmp)


def tag_of(c, f, i):
    return "%s-%d/%d" % ("té\u4e2d" if c["uni"] and i % 2 else "tag", f, i)


def mk(R, kind, n):
    if kind == "scalar":
        return numpy.array(R.randint(1, 50), dtype="int32")
    if kind == "vec":
        return R.randint(0, 7, (n,)).astype("int32")
    if kind == "mat":
        return R.uniform(-1, 1, (n, 3)).astype("float32")
    return R.uniform(-1, 1, (n,)).astype("float32")


DIM = {"dense": 4, "sparse": None, "sparse_dim": 9, "time2": None, "flat0": 3}


def mk_input(R, inp, a, b):
    if inp == "dense":
        return R.uniform(-1, 1, (a, 4)).astype("float32")
    if inp in ("sparse", "sparse_dim"):
        return R.randint(0, 9, (a,)).astype("int32")
    if inp == "time2":
        return R.randint(0, 9, (a, b)).astype("int32")
    return R.uniform(-1, 1, (3,)).astype("float32")


def run_simple(c, tmp):
    from returnn.datasets.hdf import SimpleHDFWriter

    R = numpy.random.RandomState(c["rnd"])
    inp = c["inp"]
    want, names = [], []
    all_labels = ["lé%d" % i if c["uni"] else "l%d" % i for i in range(9)]
    for fi, f in enumerate(c["files"]):
        name = "%s/f%d.hdf" % (tmp, fi)
        extra = dict(c["extra"])
        if c["more"] and fi == len(c["files"]) - 1 and fi > 0 and (extra or inp == "time2"):
            extra["mm"] = "vec"  # additional key in a later file
        et = {k: {"scalar": (7, 0, "int32"), "vec": (7, 1, "int32"), "mat": (3, 2, "float32"), "float": (1, 1, "float32")}[v] for k, v in extra.items()}
        typed = c["typed"]
        if inp == "time2":
            typed = typed and False
        kw = dict(dim=DIM[inp], labels=all_labels if c["labels"] and inp == "sparse_dim" else None, ndim={"sparse_dim": 1, "time2": 2, "flat0": 1}.get(inp))
        w = SimpleHDFWriter(name, **kw, **(dict(extra_type=et, extra_labels={k: all_labels[:7] for k, v in extra.items() if v == "vec"} if c["labels"] else None) if typed and extra else {}))
        i = 0
        for pi, lens in enumerate(f["parts"]):
            if f["ext"] == pi and pi:
                w.close()
                w = SimpleHDFWriter(name, extend_existing_file=True, **kw, **(dict(extra_type=et, extra_labels={k: all_labels[:7] for k, v in extra.items() if v == "vec"} if c["labels"] and typed else None) if c["ext_typed"] and extra and inp != "time2" else {}))
            n = len(lens)
            if inp in ("time2", "flat0") or True:
                lens = [[max(a, 1) if inp == "time2" else a, b] for a, b in lens]
            seqs = [mk_input(R, inp, a, b) for a, b in lens]
            tags = [tag_of(c, fi, i + j) for j in range(n)]
            if inp == "flat0":
                inputs, seq_len = numpy.stack(seqs), {}
            else:
                ma, mb = max(a for a, b in lens), max(b for a, b in lens)
                shape = {"dense": (n, ma, 4), "time2": (n, ma, mb)}.get(inp, (n, ma))
                inputs = numpy.full(shape, 77, dtype=seqs[0].dtype)
                for j, s in enumerate(seqs):
                    inputs[(j,) + tuple(slice(0, d) for d in s.shape)] = s
                seq_len = [a for a, b in lens]
                if inp == "time2":
                    seq_len = {0: numpy.array([a for a, b in lens]), 1: [b for a, b in lens]}
                elif i % 2:
                    seq_len = {0: numpy.array(seq_len)}
            m = 1 + int(R.randint(4))
            ex = {k: [mk(R, v, m) for _ in range(n)] for k, v in extra.items()}
            w.insert_batch(inputs, seq_len=seq_len, seq_tag=tags, extra={k: numpy.stack(v) for k, v in ex.items()} or None)
            for j in range(n):
                d = {k: v[j].reshape(1) if v[j].ndim == 0 else v[j] for k, v in ex.items() if k != "mm"}
                if inp == "time2":
                    d["sizes"] = numpy.array(lens[j], dtype="int32")
                d["data"] = {"flat0": seqs[j].reshape(1, -1), "time2": seqs[j].reshape(-1)}.get(inp, seqs[j])
                want.append((tags[j], d))
            i += n
        w.close()
        left = [x for x in os.listdir(tmp) if x not in ["f%d.hdf" % k for k in range(fi + 1)]]
        if left:
            raise Violation("left over files %s" % left)
        names.append(name)
    labels = {}
    if c["labels"]:
        if inp == "sparse_dim":
            labels["data"] = all_labels
        if c["typed"] and inp != "time2":
            labels.update({k: all_labels[:7] for k, v in c["extra"].items() if v == "vec"})
    read(c, names, want, labels)


def run_dump(c, tmp):
    from returnn.datasets.hdf import HDFDatasetWriter
    from returnn.datasets.generating import StaticDataset

    R = numpy.random.RandomState(c["rnd"])
    names, want = [], []
    n = len(c["lens"])
    labels = ["lé%d" % i if c["uni"] else "l%d" % i for i in range(9)]
    all_seqs = []
    more = ["aa", "mm"] if c.get("more") and c["extra"] else []
    for i, (a, b) in enumerate(c["lens"]):
        d = {k: mk(R, v, [b, a][j % 2]) for j, (k, v) in enumerate(sorted(c["extra"].items()))}
        if c["inp"]:
            d["data"] = mk_input(R, c["inp"], a, b)
        all_seqs.append((tag_of(c, 0, i), d))
    out_dim = {k: {"vec": (7, 1), "mat": (3, 2), "float": (1, 1)}[v] for k, v in c["extra"].items()}
    if c["inp"]:
        out_dim["data"] = (4, 2) if c["inp"] == "dense" else (9, 1)

    class Src(StaticDataset):
        """data set with given tags"""

        def get_tag(self, seq_idx):
            return self._tags[self._seq_order[seq_idx]]

        def get_data_dtype(self, key):
            return str(self.data[0][key].dtype)

        def is_data_sparse(self, key):
            return key in self.num_outputs and self.num_outputs[key][1] == 1 and "int" in self.get_data_dtype(key)

    for fi, (x, y) in enumerate(((0, c["split"]), (c["split"], n))):
        part = all_seqs[x:y]
        if fi and more:
            part = [(t, dict(d, **{k: mk(R, "vec", 1 + i % 3) for k in more})) for i, (t, d) in enumerate(part)]
            out_dim = dict(out_dim, **{k: (7, 1) for k in more})
        if not part:
            continue
        src = [d for _, d in part]
        names_of = {k: k for k in out_dim}
        if c.get("swap") and c["inp"] and "classes" in out_dim:
            names_of.update(data="inp", classes="data")  # in the data set; the file has one input, called data, and classes
        src = [{names_of[k]: v for k, v in d.items()} for d in src]
        ds = Src(data=src, output_dim={names_of[k]: v for k, v in out_dim.items()}, input_dim=out_dim["data"][0] if c["inp"] else None, target_list=sorted(names_of[k] for k in out_dim if k != "data"), seq_ordering=c["ds_order"])
        ds._tags = [t for t, _ in part]
        if c["labels"]:
            for k, v in list(c["extra"].items()):
                if v == "vec":
                    ds.labels[names_of[k]] = labels[:7]
        ds.initialize()
        ds.init_seq_order(1)
        if c["unk"]:
            ds._estimated_num_seqs = None
        order = [int(i) for i in ds._seq_order]
        st = c["start"] if c["start"] < len(part) else 0
        name = "%s/d%d.hdf" % (tmp, fi)
        w = HDFDatasetWriter(name)
        w.dump_from_dataset(ds, epoch=1, start_seq=st, use_progress_bar=False)
        w.close()
        names.append(name)
        want += [(part[i][0], {k: v for k, v in part[i][1].items() if k not in more}) for i in order[st:]]
    read(c, names, want, {k: labels[:7] for k, v in c["extra"].items() if v == "vec"} if c["labels"] else {})


def read(c, names, want, labels):
    from returnn.datasets.hdf import HDFDataset

    ds = HDFDataset(files=names, seq_ordering=c["order"], partition_epoch=c["part"])
    ds.initialize()
    keys = sorted(want[0][1])
    if sorted(ds.get_data_keys()) != keys:
        raise Violation("data keys %s, written %s" % (sorted(ds.get_data_keys()), keys))
    tags = [t for t, _ in want]
    if ds.get_all_tags() != tags:
        raise Violation("tags %s, written %s" % (ds.get_all_tags(), tags))
    if ds.get_total_num_seqs() != len(want):
        raise Violation("%d sequences, written %d" % (ds.get_total_num_seqs(), len(want)))
    for k in keys:
        if ds.get_data_dtype(k) != str(want[0][1][k].dtype):
            raise Violation("type of %s: %s, written %s" % (k, ds.get_data_dtype(k), want[0][1][k].dtype))
    for k, v in labels.items():
        if list(ds.labels.get(k) or []) != list(v):
            raise Violation("labels of %s: %s, written %s" % (k, ds.labels.get(k), v))

    def same(d, w, what):
        for k in keys:
            if not isinstance(d[k], numpy.ndarray) or d[k].dtype != w[k].dtype or not numpy.array_equal(d[k], w[k]):
                raise Violation("%s: %s is %s, written %s" % (what, k, numpy.array(d[k]).tolist(), w[k].tolist()))

    for i, (t, w) in enumerate(want):
        same({k: ds.get_data_by_seq_tag(t, k) for k in keys}, w, "sequence %s by its tag" % t)
        s = ds.get_corpus_seq(i)
        if s.seq_tag != t:
            raise Violation("corpus sequence %d has tag %s, written %s" % (i, s.seq_tag, t))
        same(s.features, w, "corpus sequence %d" % i)
    seen = []
    for ep in range(1, c["epochs"] * c["part"] + 1):
        lst = None
        kw = {}
        if c["list"] and ep % 2 and c["part"] == 1:
            lst = sorted(range(len(want)), key=lambda i: (i * 7 + ep) % 5)[: 1 + ep]
            kw = dict(seq_list=[tags[i] for i in lst]) if c["list"] == "tags" else dict(seq_order=lst)
        ds.init_seq_order(ep, **kw)
        got = []
        i = 0
        while ds.is_less_than_num_seqs(i):
            ds.load_seqs(i, i + 1)
            t = ds.get_tag(i)
            k = ds.get_corpus_seq_idx(i)
            if tags[k] != t:
                raise Violation("epoch %d: sequence %d has tag %s, but is corpus sequence %d" % (ep, i, t, k))
            same({x: ds.get_data(i, x) for x in keys}, want[k][1], "epoch %d, sequence %s" % (ep, t))
            ln = ds.get_seq_length(i)
            for x in keys:
                if int(ln[x]) != len(want[k][1][x]):
                    raise Violation("length of %s of %s: %s" % (x, t, ln[x]))
            got.append(int(k))
            i += 1
        if lst is not None and got != lst:
            raise Violation("order %s asked for, got %s" % (lst, got))
        if lst is None:
            seen += got
            if c["part"] == 1 and sorted(got) != list(range(len(want))):
                raise Violation("epoch %d has sequences %s" % (ep, got))
            if c["part"] == 1 and c["order"] == "default" and got != list(range(len(want))):
                raise Violation("default order: %s" % got)
            if ep % c["part"] == 0:
                if not c["list"] and sorted(seen) != list(range(len(want))):
                    raise Violation("epochs up to %d have sequences %s" % (ep, seen))
                seen = []
