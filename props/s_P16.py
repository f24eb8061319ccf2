"""P16: what is written into HDF files is read back: offsets, lengths and order of the keys, for writer and reader"""
from props.lib import *
from props.lib import _t, _simp
import contextlib
import sys
import numpy as real_np
import returnn.datasets.hdf as H
import returnn.datasets.cached as CA
import returnn.util.basic as UB
from returnn.util.basic import NumbersDict

F = "returnn/datasets/hdf.py:"
CF = "returnn/datasets/cached.py:"


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def conc(x):
    """list of known length"""
    if not isinstance(x, PList):
        return x
    n = x.v.conc_len()
    if n is None:
        raise Unsupported("list of unknown length")
    return [x.v.at(z3.IntVal(j)) for j in range(n)]


# ---------------------------------------------------------------- arrays


class Val(Sym):
    """values of sequence i (relative to the batch) for one data key; axes: list of [name, size, full size]"""

    def __init__(self, key, i, shape, cut=None, flat=False, kind="float32"):
        self.key, self.i, self.shape, self.cut, self.flat = key, i, tuple(shape), cut, flat
        self.dtype = Bag(name=kind)

    def _pv_types(self):
        return (real_np.ndarray,)

    @property
    def ndim(self):
        return len(self.shape)

    def astype(self, t):
        return Val(self.key, self.i, self.shape, self.cut, self.flat, str(t))

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if self.cut is not None or not all(isinstance(k, slice) and k.start in (None, 0) and k.step is None for k in key) or len(key) > len(self.shape):
            raise Unsupported("index %r" % (key,))
        cut = [k.stop for k in key]
        for c, s in zip(cut, self.shape):
            if c is not None:
                S.prove(And(c >= 0, SymNum(_t(c)) <= s), "cut within the batch")
        return Val(self.key, self.i, [s if c is None else c for c, s in zip(cut, self.shape)] + list(self.shape[len(cut):]), cut, False, self.dtype.name)


class Batch(Sym):
    """batched values of one data key"""

    def __init__(self, key, n, shape, kind="float32"):
        self.key, self.n, self.sub, self.kind = key, n, tuple(shape), kind

    def _pv_types(self):
        return (real_np.ndarray,)

    @property
    def shape(self):
        return (self.n,) + self.sub

    @property
    def ndim(self):
        return 1 + len(self.sub)

    def __getitem__(self, i):
        if isinstance(i, (slice, tuple)):
            raise Unsupported("index %r" % (i,))
        S.prove(And(SymNum(_t(i)) >= 0, SymNum(_t(i)) < self.n), "a sequence of the batch")
        return Val(self.key, i, self.sub, kind=self.kind)


class NP:
    """numpy as far as used: what matters is which values are where"""

    ndarray, float32, int32 = real_np.ndarray, real_np.float32, real_np.int32

    @staticmethod
    def array(x, dtype=None):
        if isinstance(x, tuple) and x and x[0] == "tag":
            return x
        if isinstance(x, PList):
            x = conc(x)
        if isinstance(x, list) and x and all(isinstance(y, SymNum) for y in x):
            g = S.g
            ok = And(*[eq(y, SymNum(g.L[a](_t(g.base + g.i)))) for a, y in enumerate(x)]) if len(x) == len(g.L) else False
            S.prove(ok, "the sizes stored are the sizes of all axes of this sequence")
            return Val("sizes", g.i, (len(x),), kind="int32")
        if any(isinstance(y, Sym) for y in (x if isinstance(x, (list, tuple)) else [x])):
            raise Unsupported("numpy.array")
        return real_np.array(x) if dtype is None else real_np.array(x, dtype=dtype)

    @staticmethod
    def prod(xs, **kw):
        r = 1
        for x in xs:
            r = x * r
        return r

    @staticmethod
    def reshape(x, shape):
        if not isinstance(x, Val):
            raise Unsupported("reshape")
        a = b = 1
        for s in x.shape:
            a = a * s
        for s in shape:
            b = b * s
        S.prove(eq(a, b), "reshape keeps the number of values")
        return Val(x.key, x.i, shape, x.cut, True, x.dtype.name)

    @staticmethod
    def expand_dims(x, axis):
        if axis != 0 or not isinstance(x, Val):
            raise Unsupported("expand_dims")
        return Val(x.key, x.i, (1,) + x.shape, x.cut, x.flat, x.dtype.name)

    # -- reader

    @staticmethod
    def zeros(shape, dtype=None, **kw):
        if isinstance(shape, tuple) and len(shape) == 2:
            return Starts(*shape)
        return ("zeros", shape)

    @staticmethod
    def cumsum(x, axis=None, dtype=None, out=None):
        if axis != 0 or not isinstance(x, Lens) or not isinstance(out, StartsView):
            raise Unsupported("cumsum")
        S.prove(eq(out.of.rows, x.n + 1), "one start more than sequences")
        out.of.src = x

    @staticmethod
    def sum(x, **kw):
        return S.int("sum", lo=0)

    @staticmethod
    def isscalar(x):
        return real_np.isscalar(x)

    @staticmethod
    def array_equal(a, b):
        if isinstance(a, Order) and isinstance(b, Order):
            if not S.choose(2, "same order"):
                return False
            S.assume(eq(SymNum(a.v.n), SymNum(b.v.n)))
            b.v.add_fact(lambda j, x: eq(x, a.v.at(j)))
            return True
        def empty(x):
            if isinstance(x, (list, range, tuple)):
                return len(x) == 0
            return isinstance(x, PList) and x.v.conc_len() == 0

        o = [x for x in (a, b) if isinstance(x, Order)]
        if o and any(empty(x) for x in (a, b)):
            return bool(eq(SymNum(o[0].v.n), 0))
        raise Unsupported("array_equal")

    @staticmethod
    def concatenate(*a, **k):
        raise Unsupported("concatenate")


# ---------------------------------------------------------------- ghost HDF file for writing


class DSet(Sym):
    """data of one key: shape[0] time steps, those below g.tot[key] written"""

    def __init__(self, key, shape, dtype=None):
        self.key, self.shp, self.dtype = key, list(shape), dtype

    @property
    def shape(self):
        return tuple(self.shp)

    def resize(self, n, axis=None):
        if axis is None:
            n, axis = n[0], 0
        if axis == 0:
            S.prove(SymNum(_t(n)) >= S.g.tot[self.key], "what was written is not cut off")
        self.shp[axis] = n

    def __setitem__(self, k, v):
        g = S.g
        if isinstance(k, slice) and k.step is None and k.start is not None:
            S.prove(k.stop is None or eq(k.stop, self.shp[0]), "written up to the end")
            off = k.start
        elif k is Ellipsis:
            off = 0
        else:
            raise Unsupported("assignment")
        S.prove(isinstance(v, Val) and v.key == self.key, "%s: values of this key" % self.key)
        S.prove(eq(v.i, g.i), "%s: values of this sequence" % self.key)
        S.prove(eq(off, g.tot[self.key]), "%s: directly after the sequence before" % self.key)
        n = v.shape[0] if v.shape else 1
        S.prove(eq(self.shp[0], off + n), "%s: exactly its length is added" % self.key)
        S.prove(self.key not in g.wrote, "%s: written once" % self.key)
        if self.key == "inputs":
            S.prove(v.cut is not None and len(v.cut) >= len(g.L) and all(c is not None for c in v.cut[: len(g.L)]), "padding is removed")
            for a, c in enumerate(v.cut[: len(g.L)]):
                S.prove(eq(c, SymNum(g.L[a](_t(g.base + g.i)))), "padding is removed, axis %d" % a)
        else:
            S.prove(v.cut is None or all(c is None for c in v.cut), "%s: whole" % self.key)
        S.prove(v.ndim == g.ndims[self.key], "%s: number of axes" % self.key)
        g.wrote[self.key] = n
        g.tot[self.key] = off + n


class RowSet(Sym):
    """seqLengths [sequence, key] or seqTags [sequence]"""

    def __init__(self, what, shape):
        self.what, self.shp = what, list(shape)
        self.dtype = "dtype"

    @property
    def shape(self):
        return tuple(self.shp)

    def resize(self, n, axis=None):
        if axis is None:
            raise Unsupported("resize")
        if axis == 0:
            S.prove(SymNum(_t(n)) >= S.g.m, "rows written are not cut off")
        self.shp[axis] = n

    def __setitem__(self, k, v):
        g = S.g
        row, col = k if isinstance(k, tuple) else (k, None)
        S.prove(eq(row, g.m), "%s: row of this sequence" % self.what)
        S.prove(SymNum(_t(row)) < self.shp[0], "%s: within the table" % self.what)
        if self.what == "tags":
            S.prove(isinstance(v, tuple) and v[0] == "tag", "the tag is stored")
            S.prove(eq(v[1], g.base + g.i), "the tag of this sequence")
            g.wrote["tag"] = True
        else:
            S.prove(isinstance(col, int) and 0 <= col < self.shp[1], "seqLengths: a column of the table")
            g.cols[col] = v


class Group:
    def __init__(self, f, path):
        self.f, self.path = f, path
        self.attrs = f.attrs_of.setdefault(path, {})

    def create_dataset(self, name, shape=None, dtype=None, maxshape=None, **kw):
        return self.f.create_dataset(self.path + "/" + name, shape, dtype, maxshape)

    def __getitem__(self, k):
        return self.f[self.path + "/" + k]

    def _names(self):
        return [k[len(self.path) + 1:] for k in self.f.d if k.startswith(self.path + "/") and self.f.d[k] is not None]

    def __contains__(self, k):
        return k in self._names()

    def __iter__(self):
        return iter(self._names())

    keys = _names

    def items(self):
        return [(k, self[k]) for k in self._names()]


class WFile:
    def __init__(self):
        self.d, self.attrs_of, self.attrs = {}, {}, {}

    def create_group(self, path):
        S.prove(path not in self.d, "a group is made once")
        self.d[path] = None

    def create_dataset(self, name, shape=None, dtype=None, maxshape=None, **kw):
        S.prove(self.d.get(name) is None, "a data set is made once")
        if name in ("seqLengths", "seqTags"):
            x = RowSet({"seqLengths": "lengths", "seqTags": "tags"}[name], shape)
        elif name == "labels" or name.startswith("targets/labels/"):
            x = ("labels", name)
        else:
            key = name.split("/")[-1]
            x = DSet(key, list(shape), dtype)
            S.g.tot.setdefault(key, 0)
            if name == "inputs":
                S.prove(eq(S.g.tot[key], 0), "inputs are made with the first sequence")
        self.d[name] = x
        return x

    def __getitem__(self, k):
        if k not in self.d:
            raise KeyError(k)
        return self.d[k] if self.d[k] is not None else Group(self, k)

    def __contains__(self, k):
        return k in self.d or any(x.startswith(k + "/") for x in self.d)

    def __setitem__(self, k, v):
        raise Unsupported("assignment")

    def __bool__(self):
        return True

    def close(self):
        pass


@contextlib.contextmanager
def world(f):
    """h5py and the file system of the constructor"""
    import os as ro, shutil as rs, tempfile as rt

    old = {k: sys.modules.get(k) for k in ("h5py", "os", "shutil", "tempfile")}
    hs = UB.hdf5_strings
    path = Bag(exists=lambda n: S.g.extend, dirname=ro.path.dirname, basename=ro.path.basename, join=ro.path.join)
    sys.modules["h5py"] = Bag(File=lambda *a, **k: f, special_dtype=lambda **k: "string type", string_dtype=lambda *a, **k: "string type")
    sys.modules["os"] = Bag(path=path, close=lambda fd: None)
    sys.modules["shutil"] = Bag(copyfile=lambda a, b: None)
    sys.modules["tempfile"] = Bag(mkstemp=lambda **k: (0, "/scratch/x.hdf"))

    def strings(handle, name, data):
        handle.d[name] = ("labels", name)

    UB.hdf5_strings = strings
    try:
        yield
    finally:
        UB.hdf5_strings = hs
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def seq_len_of(key, row):
    """number of entries along the first axis of this key in the file"""
    g = S.g
    if key == "inputs":
        r = 1
        for l in g.L:
            r = SymNum(l(_t(row))) * r
        return r
    if key == "sizes":
        return len(g.L)
    return g.extra_len[key]


def done_seq():
    """obligations after one sequence"""
    g = S.g
    S.prove("tag" in g.wrote, "the tag is written")
    keys = ["inputs"] + sorted(g.keys)
    S.prove(set(g.wrote) == {"tag"} | set(keys), "all keys of the sequence are written")
    for c, k in enumerate(keys):
        want = seq_len_of(k, g.base + g.i)
        S.prove(eq(g.wrote[k], want), "length of %s" % k)
        S.prove(c in g.cols, "the length of %s is stored" % k)
        S.prove(eq(g.cols[c], want), "the length of %s is stored in its column" % k)
    S.prove(all(c < len(keys) for c in g.cols), "no other column")


class Seqs(LoopContract):
    """for all sequences of the batch: files and counters hold exactly the sequences so far"""

    name = "sequences"

    def match(self, L):
        return L.kind == "for" and S.g.inserting and L.n is not None

    def tables(self):
        g = S.g
        out = []
        for a, v in g.w.__dict__.items():
            if isinstance(v, dict):
                for k, x in v.items():
                    if k in g.tot and isinstance(x, (int, SymNum)) and not isinstance(x, bool):
                        out.append((a, v, k))
        return out

    def havoc(self, L):
        g = S.g
        L.ghost("tot", "m", "i", "wrote", "cols", "m0")
        g.m0 = g.m if not hasattr(g, "m0_fix") else g.m0_fix
        g.m0_fix = g.m0
        g.m = g.m0 + SymNum(L.i)
        g.i = SymNum(L.i)
        g.wrote, g.cols = {}, {}
        g.tot = {k: S.int("tot_" + k, lo=0) for k in g.tot}
        f = g.f
        for k, v in f.d.items():
            if isinstance(v, DSet):
                L.modifies(v, v.shp)
                v.shp[0] = g.tot[v.key]
        L.modifies(f.attrs)
        f.attrs["numTimesteps"] = g.tot["inputs"]
        f.attrs["numSeqs"] = g.m
        for a, d, k in self.tables():
            L.modifies(d)
            d[k] = g.tot[k]
        return {}

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            done_seq()
            g.m = g.m + 1
        yield "one row per sequence", eq(g.m, (g.m0_fix if hasattr(g, "m0_fix") else g.m) + SymNum(L.i))
        f = g.f
        for k, v in list(f.d.items()):
            if isinstance(v, DSet):
                yield "%s: as long as what was written" % v.key, eq(v.shp[0], g.tot[v.key])
        yield "number of time steps", eq(f.attrs["numTimesteps"], g.tot["inputs"])
        yield "number of sequences", eq(f.attrs["numSeqs"], g.m)
        for a, d, k in self.tables():
            yield "%s of %s" % (a, k), eq(d[k], g.tot[k])


def writer(kind, keys, extend, typed):
    g = S.g
    I = z3.IntSort()
    H.numpy = NP
    naxes = {"dense": 1, "sparse": 1, "time2": 2}[kind]
    g.L = [S.func("len%d" % a, I, I) for a in range(naxes)]
    g.D = S.int("D", lo=1) if kind == "dense" else None
    g.extra_len = {}
    g.keys = list(keys) + (["sizes"] if naxes > 1 else [])
    g.ndims = dict(inputs=2 if kind == "dense" else 1, sizes=1, a=1, z=2, s=1)
    g.tot, g.wrote, g.cols = {"inputs": 0}, {}, {}
    g.extend = extend
    g.m, g.i, g.base = 0, 0, 0
    g.inserting = False
    f = g.f = WFile()
    if extend:
        g.m = S.int("m", lo=1)
        f.attrs.update(numTimesteps=S.int("tot_inputs", lo=0), numSeqs=g.m)
        g.tot["inputs"] = f.attrs["numTimesteps"]
        f.d["inputs"] = DSet("inputs", [g.tot["inputs"]] + ([g.D] if g.D is not None else []))
        f.d["seqLengths"] = RowSet("lengths", [g.m, 1 + max(1, len(g.keys))])
        f.d["seqTags"] = RowSet("tags", [g.m])
        if g.keys:
            for x in ("data", "size", "labels"):
                f.d["targets/" + x] = None
        for k in sorted(g.keys):
            g.tot[k] = S.int("tot_" + k, lo=0)
            f.d["targets/data/" + k] = DSet(k, [g.tot[k], 3][: g.ndims[k]])
            f.d["targets/labels/" + k] = ("labels", k)
        g.base = g.m
    et = {"a": (7, 1, "int32"), "z": (3, 2, "float32"), "s": (7, 0, "int32")}
    kw = {}
    if typed and keys:
        kw["extra_type"] = {k: et[k] for k in keys}
    with world(f):
        g.w = H.SimpleHDFWriter("/out.hdf", dim=g.D, ndim={"dense": 2, "sparse": 1, "time2": 2}[kind], extend_existing_file=extend, **kw)
    return g.w


def insert(w, kind, keys, n):
    """one call of insert_batch with n sequences"""
    g = S.g
    g.base = g.m
    g.wrote, g.cols, g.i = {}, {}, 0
    if hasattr(g, "m0_fix"):
        del g.m0_fix
    base = g.base
    lens = {}
    T = []
    for a, l in enumerate(g.L):
        t = S.int("T%d" % a, lo=1)
        T.append(t)
        at = lambda j, l=l: SymNum(l(_t(base + SymNum(_t(j)))))
        s = Fn(_t(n), at, "lens%d" % a)
        s.add_fact(lambda j, x, t=t: And(x >= 0, x <= t))
        wit = S.int("longest", lo=0)
        S.assume(wit < n)
        S.assume(eq(s.at(wit.t), t))
        lens[a] = PList(s)
    inputs = Batch("inputs", n, T + ([g.D] if kind == "dense" else []))
    g.extra_len = {}
    extra = {}
    for k in keys:
        t = S.int("E_" + k, lo=0)
        g.extra_len[k] = 1 if k == "s" else t
        extra[k] = Batch(k, n, {"a": (t,), "z": (t, 3), "s": ()}[k])
    tags = PList(Fn(_t(n), lambda j: ("tag", base + SymNum(_t(j))), "tags"))
    g.inserting = not isinstance(n, int)
    with world(g.f):
        w.insert_batch(inputs, lens if len(lens) > 1 else lens[0], tags, extra=extra or None)
    g.inserting = False
    if isinstance(n, int):
        done_seq()
        g.m = g.m + 1
    S.prove(eq(g.m, base + n), "every sequence of the batch is written")
    S.prove(eq(g.f["seqTags"].shape[0], g.m), "as many tags as sequences")
    S.prove(eq(g.f["seqLengths"].shape[0], g.m), "as many lengths as sequences")
    S.prove(len(g.keys) == 0 or eq(g.f["seqLengths"].shape[1], 1 + len(g.keys)), "one column per key")


def u_write(kind, keys, extend, typed):
    def un():
        g = S.g
        w = writer(kind, keys, extend, typed)
        S.reachable()
        if not extend:
            insert(w, kind, keys, 1)  # makes the data sets
        n = S.int("n", lo=1)
        S.inputs["n"] = n
        insert(w, kind, keys, n)
        k = S.int("k", lo=1)
        insert(w, kind, keys, k)

    return un


# ---------------------------------------------------------------- reader


class Order(PList):
    """order of an epoch, as numpy array"""

    def __init__(self, v):
        super().__init__(v, "array")


class Lens(Sym):
    """seqLengths of file f: n rows; cols: columns"""

    def __init__(self, f, n, cols):
        self.f, self.n, self.cols = f, n, cols

    ndim = 2

    @property
    def shape(self):
        return (self.n, len(self.cols))

    def __getitem__(self, k):
        if k is Ellipsis:
            return self
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            if isinstance(k[1], (list, PList)):
                S.prove(all(isinstance(c, int) and 0 <= c < len(self.cols) for c in conc(k[1])), "columns of the table of lengths")
                return Lens(self.f, self.n, [self.cols[c] for c in conc(k[1])])
            return ("column", self.cols[k[1]])
        if isinstance(k, (int, SymNum)):
            return list(self.cols)
        raise Unsupported("index %r" % (k,))


class Starts(Sym):
    """start positions of the sequences of a file, [sequence, column]"""

    def __init__(self, rows, cols):
        self.rows, self.ncols, self.src = rows, cols, None

    def __len__(self):
        return self.rows

    _pv_len = __len__

    @property
    def shape(self):
        return (self.rows, self.ncols)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start != 1 or k.stop is not None or k.step is not None:
                raise Unsupported("slice")
            return StartsView(self)
        if self.src is None:
            S.prove(eq(self.ncols, len(S.g.files[0].cols)), "columns")
            return Row(["zero"] * S.unique_value(_t(self.ncols)), None, 0)
        S.prove(And(SymNum(_t(k)) >= 0, SymNum(_t(k)) < self.rows), "a sequence of the file")
        return Row(self.src.cols, self.src.f, k)


class StartsView:
    def __init__(self, of):
        self.of = of


class Row(Sym):
    """start positions of sequence s of file f"""

    def __init__(self, cols, f, s, minus=None):
        self.cols, self.f, self.s, self.minus = list(cols), f, s, minus

    def __len__(self):
        return len(self.cols)

    def __getitem__(self, c):
        if isinstance(c, slice):
            return Row(self.cols[c], self.f, self.s, self.minus)
        S.prove(isinstance(c, int) and 0 <= c < len(self.cols), "a column of the table of lengths")
        key = self.cols[c]
        p = SymNum(self.f.P[key](_t(self.s)))
        if self.minus is not None:
            return p - SymNum(self.f.P[key](_t(self.minus)))
        return p

    def __iter__(self):
        return iter([self[c] for c in range(len(self.cols))])

    def __sub__(self, o):
        if not isinstance(o, Row) or o.f is not self.f or o.cols != self.cols:
            raise Unsupported("difference")
        return Row(self.cols, self.f, self.s, o.s)


class RSet:
    """data of one key in a file"""

    def __init__(self, f, key, ndim):
        self.f, self.key = f, key
        self.shape = (S.int("steps", lo=0), 5)[:ndim]
        self.dtype = "float32" if ndim > 1 else "int32"

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("index")
        return Part(self.f, self.key, k.start, k.stop)


class Part(Sym):
    """values lo..hi of a key of a file"""

    def __init__(self, f, key, lo, hi):
        self.f, self.key, self.lo, self.hi = f, key, lo, hi

    def _pv_types(self):
        return (real_np.ndarray,)


class TagSet:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        S.prove(And(SymNum(_t(i)) >= 0, SymNum(_t(i)) < self.f.n), "a sequence of the file")
        return ("tag", self.f, i)


class RFile:
    def __init__(self, k, keys, inputs, order):
        I = z3.IntSort()
        self.k = k
        self.n = S.int("n%d" % k, lo=1)
        S.inputs["n%d" % k] = self.n
        self.cols = (["inputs"] if inputs else []) + (sorted(keys) or ["classes"])  # a dummy column without targets
        self.L = {c: S.func("L%d_%s" % (k, c), I, I) for c in self.cols}
        self.P = {c: S.func("P%d_%s" % (k, c), I, I) for c in self.cols}
        nd = dict(inputs=2, a=1, z=2, mm=1, b=1)
        self.d = {"seqLengths": Lens(self, self.n, self.cols), "seqTags": TagSet(self)}
        if inputs:
            self.d["inputs"] = RSet(self, "inputs", 2)
        if keys:
            self.d["targets"] = None
            self.d["targets/data"] = _Keys({c: RSet(self, c, nd[c]) for c in keys}, order)
            self.d["targets/size"] = _Keys({}, order)
            self.d["targets/size"].attrs = {c: real_np.array([7 if nd[c] == 1 else 5, nd[c]]) for c in keys}
            self.d["targets/labels"] = _Keys({}, order)
            for c in keys:
                self.d["targets/data/" + c] = self.d["targets/data"][c]
        self.attrs = {"inputPattSize": 5}

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        return self.d[k]

    def close(self):
        pass


class _Keys(dict):
    def __init__(self, d, rev):
        super().__init__(sorted(d.items(), reverse=bool(rev)))

    attrs = None


def u_read(nf, inputs, keys, more):
    def un():
        g = S.g
        H.numpy = CA.numpy = NP
        files = g.files = [RFile(k, list(keys) + (["mm", "b"] if more and k == nf - 1 and k else []), inputs, k % 2) for k in range(nf)]
        it = iter(files)
        old = sys.modules.get("h5py")
        sys.modules["h5py"] = Bag(File=lambda *a, **k: next(it))
        try:
            ds = H.HDFDataset(files=["f%d" % k for k in range(nf)])
            ds.initialize()
        finally:
            if old is None:
                sys.modules.pop("h5py", None)
            else:
                sys.modules["h5py"] = old
        S.reachable()
        tot = 0
        for f in files:
            tot = tot + f.n
        S.prove(eq(ds.get_total_num_seqs(), tot), "all sequences of all files")
        S.prove(sorted(ds.get_data_keys()) == sorted((["data"] if inputs else []) + list(keys)), "data keys")
        S.prove(all(ds.get_data_dtype("data" if c == "inputs" else c) == f.d["inputs" if c == "inputs" else "targets/data/" + c].dtype for f in files for c in files[0].cols if c != "classes"), "types")
        # any order of sequences of the epoch, after another one; any two of them
        ds._decode = lambda s: s
        for rep in range(2):
            m = S.int("m", lo=1)
            o = S.func("order", z3.IntSort(), z3.IntSort())
            order = Fn(m.t, lambda j, o=o: SymNum(o(_t(j))), "order")
            order.add_fact(lambda j, x: And(x >= 0, x < tot))
            ds.init_seq_order(1 + rep, seq_order=Order(order))
        for rep in range(2):
            i = S.int("i", lo=0)
            S.assume(i < m)
            S.inputs["i"] = i
            r = order.at(i.t)
            S.assume(And(r >= 0, r < tot))
            # the file and the position there
            lo = 0
            for f in files[:-1]:
                if S.decide(r < lo + f.n):
                    break
                lo = lo + f.n
            else:
                f = files[-1]
            s = r - lo
            for c in f.cols:
                S.assume(And(eq(SymNum(f.P[c](_t(s + 1))), SymNum(f.P[c](_t(s))) + SymNum(f.L[c](_t(s)))), f.L[c](_t(s)) >= 0))
            S.prove(ds.is_less_than_num_seqs(i), "a sequence of the epoch")
            S.prove(eq(ds.get_corpus_seq_idx(i), r), "index in the corpus")
            t = ds.get_tag(i)
            S.prove(isinstance(t, tuple) and t[0] == "tag" and t[1] is f, "the tag comes from the file of the sequence")
            S.prove(eq(t[2], s), "the tag of this sequence")
            ln = ds.get_seq_length(i)
            for c in (x for x in files[0].cols if x != "classes"):
                key = "data" if c == "inputs" else c
                S.prove(eq(ln[key], SymNum(f.L[c](_t(s)))), "length of %s" % key)
                for x in (ds.get_data(i, key), ds.get_corpus_seq(r).features[key]):
                    S.prove(isinstance(x, Part) and x.f is f and x.key == c, "%s comes from the file of the sequence" % key)
                    S.prove(eq(x.lo, SymNum(f.P[c](_t(s)))), "%s from the start of this sequence" % key)
                    S.prove(eq(x.hi, SymNum(f.P[c](_t(s + 1)))), "%s up to the end of this sequence" % key)

    return un


# ---------------------------------------------------------------- dump of a data set


class DTag(Sym):
    """tag of sequence i of the data set"""

    def __init__(self, i, enc=False):
        self.i, self.enc = SymNum(_t(i)), enc

    def _pv_types(self):
        return (bytes,) if self.enc else (str,)

    def encode(self, *a, **k):
        return DTag(self.i, True)

    def _pv_len(self):
        f = S.g.blen if self.enc else S.g.clen
        x = SymNum(f(_t(self.i)))
        S.assume(x >= 0)
        return x

    def __eq__(self, o):
        return eq(self.i, o.i) if isinstance(o, DTag) else False

    __hash__ = None


class DTable:
    """seqTags or seqLengths while dumping"""

    def __init__(self, what, shape):
        self.what, self.shape = what, shape

    def __setitem__(self, i, v):
        g = S.g
        q = g.first + SymNum(_t(i))
        S.prove(And(SymNum(_t(i)) >= 0, SymNum(_t(i)) < self.shape[0]), "%s: a row of the table" % self.what)
        S.prove(eq(i, g.row), "%s: one row after the other" % self.what)
        if self.what == "tags":
            S.prove(isinstance(v, DTag), "the tag is stored")
            S.prove(eq(v.i, q), "the tag of this sequence")
        else:
            v = conc(v)
            keys = ([g.input_name] if g.has_input else []) + [g.src_of[k] for k in sorted(g.src_of) if k != "inputs"]
            S.prove(len(v) == len(keys) == self.shape[1], "one length per key")
            for x, k in zip(v, keys):
                S.prove(eq(x, SymNum(g.DL[k](_t(q)))), "lengths in the order of the keys in the file")
        g.rows_set = g.rows_set + 1


class DOut:
    """data of one key while dumping"""

    def __init__(self, key, shape):
        self.key, self.shape = key, shape

    def __setitem__(self, k, v):
        g = S.g
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("assignment")
        src = g.src_of[self.key]
        S.prove(isinstance(v, tuple) and v[0] == "data" and v[1] == src, "values of the key")
        S.prove(eq(v[2], g.cur), "%s: values of this sequence" % self.key)
        p = SymNum(g.DP[src](_t(g.cur)))
        S.prove(eq(k.start, p), "%s: from the end of the sequence before" % self.key)
        S.prove(eq(k.stop, p + SymNum(g.DL[src](_t(g.cur)))), "%s: exactly its length" % self.key)
        S.prove(self.key not in g.wrote, "%s: written once" % self.key)
        g.wrote[self.key] = True


class DFile(WFile):
    def create_dataset(self, name, shape=None, dtype=None, maxshape=None, **kw):
        g = S.g
        S.prove(self.d.get(name) is None, "a data set is made once")
        shape = conc(shape)
        if name in ("seqTags", "seqLengths"):
            x = DTable({"seqTags": "tags", "seqLengths": "lengths"}[name], shape)
            S.prove(eq(shape[0], g.N - g.first), "%s: one row per sequence" % name)
            if name == "seqTags":
                g.tag_type = dtype
        elif name.startswith("targets/labels"):
            x = {}
        else:
            key = name.split("/")[-1]
            S.prove(key in g.src_of and name == ("inputs" if key == "inputs" else "targets/data/" + key), "a key of the data set")
            src = g.src_of[key]
            S.prove(eq(shape[0], SymNum(g.DP[src](_t(g.N)))), "%s: room for all sequences" % key)
            x = DOut(key, shape)
        self.d[name] = x
        return x


def numbers(i):
    """lengths of all sequences before i, per key"""
    g = S.g
    return NumbersDict({k: SymNum(g.DP[k](_t(i))) for k in g.DP})


class Stats(LoopContract):
    name = "collect"

    def match(self, L):
        return L.kind == "while" and {"seq_idxs", "seq_tags", "seq_lens", "seq_idx", "total_seq_len", "max_tag_len"} <= set(L.pre)

    def havoc(self, L):
        g = S.g
        c = S.int("collected", lo=0)
        S.assume(g.first + c <= g.N)
        L.ghost("loaded", "cur")
        g.loaded = None
        out = dict(seq_idx=g.first + c, total_seq_len=numbers(g.first + c), max_tag_len=S.int("max_tag_len", lo=0))
        L.modifies_attr(out["total_seq_len"], "value")
        for n, f in (("seq_idxs", lambda j: g.first + SymNum(_t(j))), ("seq_tags", lambda j: DTag(g.first + SymNum(_t(j)))), ("seq_lens", lambda j: g.lens(g.first + SymNum(_t(j))))):
            old = L.pre[n]
            if n not in L.names and isinstance(old, PList):
                L.modifies(old)  # appended in place
                old.v = Fn(c.t, f, n)
                continue
            l = PList(Fn(c.t, f, n))
            L.modifies(l)
            out[n] = l
        return out

    def inv(self, L):
        g = S.g
        q = L["seq_idx"]
        c = q - g.first
        for n in ("seq_idxs", "seq_tags", "seq_lens"):
            s = to_seq(L[n])
            yield n + ": one entry per sequence", eq(SymNum(s.n), c)
            if L.mode == "prove":
                e = s.at(_simp(s.n - 1))
                if n == "seq_idxs":
                    yield n + ": its index", eq(e, q - 1)
                elif n == "seq_tags":
                    yield n + ": its tag", And(isinstance(e, DTag), eq(e.i, q - 1))
                else:
                    for k in g.DL:
                        yield n + ": its lengths", eq(e[k], SymNum(g.DL[k](_t(q - 1))))
        yield "within the data set", And(q >= g.first, q <= g.N)
        mt = SymNum(_t(L["max_tag_len"]))
        L.forall(to_seq(L["seq_tags"]), lambda j, e: SymNum(g.blen(_t(e.i))) <= mt, "no tag is longer than the longest")
        tot = L["total_seq_len"]
        for k in g.DP:
            yield "total length of %s" % k, eq(tot[k], SymNum(g.DP[k](_t(q))))


class Table(LoopContract):
    """one row per sequence"""

    name = "table"

    def match(self, L):
        return L.kind == "for" and "i" in L.names and ("tag" in L.names or "seq_len" in L.names) and L.n is not None and "offsets" not in L.env

    def havoc(self, L):
        g = S.g
        L.ghost("row", "rows_set")
        g.row = SymNum(L.i)
        g.rows_set = SymNum(L.i)
        return {}

    def inv(self, L):
        g = S.g
        yield "one row is set per sequence", eq(g.rows_set, SymNum(L.i) if L.mode != "entry" else g.rows_set)
        if L.mode == "entry":
            g.rows_set = SymNum(z3.IntVal(0))


class Write(LoopContract):
    """all data before the current sequence is written"""

    name = "write"

    def match(self, L):
        return L.kind == "for" and "offsets" in L.names and L.n is not None

    def havoc(self, L):
        g = S.g
        L.ghost("wrote", "cur", "loaded", "written")
        g.cur = g.first + SymNum(L.i)
        g.wrote = {}
        g.loaded = None
        g.written = SymNum(L.i)
        o = numbers(g.cur)
        L.modifies_attr(o, "value")
        return dict(offsets=o)

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            S.prove(set(g.wrote) == set(g.src_of), "every key of the sequence is written")
        q = g.first + SymNum(L.i)
        o = L["offsets"]
        for k in g.DP:
            yield "position for %s" % k, eq(o[k], SymNum(g.DP[k](_t(q))))


def u_dump(inp, targets, first):
    def un():
        g = S.g
        I = z3.IntSort()

        class NP2(NP):
            @staticmethod
            def array(x, dtype=None):
                if isinstance(x, DTag):
                    S.prove(eq(str(dtype), str(g.tag_type)), "the type of the table")
                    p = getattr(dtype, "pieces", None)
                    if p is not None and len(p) == 2 and p[0] == "S":
                        S.prove(x.enc, "the tag is encoded for a table of bytes")
                        S.prove(p[1][1] >= x._pv_len(), "the tag is not cut off")
                    else:
                        raise Unsupported("type of tags")
                    return x
                return NP.array(x, None if dtype is None else str(dtype))

        H.numpy = NP2
        g.N = S.int("N", lo=1)
        S.inputs["N"] = g.N
        g.first = S.int("first", lo=0) if first else SymNum(z3.IntVal(0))
        S.assume(g.first < g.N)
        keys = ([inp] if inp else []) + list(targets)
        g.has_input, g.input_name = bool(inp), inp
        g.src_of = {("classes" if k == "data" else k): k for k in targets}
        if inp:
            g.src_of["inputs"] = inp
        g.DL = {k: S.func("L_" + k, I, I) for k in keys}
        g.DP = {k: S.func("P_" + k, I, I) for k in keys}
        g.clen, g.blen = S.func("chars", I, I), S.func("bytes", I, I)
        g.cur, g.loaded, g.wrote = None, None, {}
        g.row = g.rows_set = g.written = SymNum(z3.IntVal(0))
        for k in keys:
            S.assume(eq(SymNum(g.DP[k](_t(g.first))), 0))

        def lens(i):
            for k in keys:
                l = SymNum(g.DL[k](_t(i)))
                S.assume(And(l >= 0, eq(SymNum(g.DP[k](_t(i + 1))), SymNum(g.DP[k](_t(i))) + l)))
            return NumbersDict({k: SymNum(g.DL[k](_t(i))) for k in keys})

        g.lens = lens
        nd = dict(data=1, a=1, z=2, cx=1, inp=2)

        class Src:
            labels = {}
            num_inputs = 2 if inp else 0
            num_outputs = {k: (2, nd[k]) for k in keys}

            def init_seq_order(self, epoch=None):
                S.prove(eq(epoch, 1), "the epoch asked for")
                g.loaded = None

            def get_data_keys(self):
                return list(keys)

            def get_target_list(self):
                return list(targets)

            @property
            def num_seqs(self):
                if S.choose(2, "number known"):
                    return g.N
                raise NotImplementedError

            def is_less_than_num_seqs(self, i):
                return SymNum(_t(i)) < g.N

            def load_seqs(self, a, b):
                S.prove(eq(b, a + 1), "one sequence is loaded")
                g.loaded = a

            def need(self, i):
                S.prove(g.loaded is not None, "a sequence is loaded")
                S.prove(eq(i, g.loaded), "the sequence loaded")

            def get_seq_length(self, i):
                self.need(i)
                return lens(SymNum(_t(i)))

            def get_tag(self, i):
                self.need(i)
                return DTag(i)

            def get_data(self, i, key):
                self.need(i)
                return ("data", key, SymNum(_t(i)))

            def get_data_shape(self, key):
                return [2] if nd[key] > 1 else []

            def get_data_dtype(self, key):
                return "int32"

            def get_data_dim(self, key):
                return 2

        w = object.__new__(H.HDFDatasetWriter)
        w.file = DFile()
        S.reachable()
        UB.human_size = lambda *a, **k: ""
        w.dump_from_dataset(Src(), epoch=1, start_seq=g.first, use_progress_bar=False)

    return un


def units(tier):
    wf = [F + "SimpleHDFWriter." + n for n in ("__init__", "_prepare_extra", "_insert_h5_inputs", "_insert_h5_other", "insert_batch")]
    sets = [("none", ()), ("one key", ("a",)), ("two keys", ("z", "a")), ("scalar key", ("s", "a"))]
    for kind in ("dense", "sparse", "time2"):
        for name, keys in sets:
            if kind != "dense" and name == "scalar key":
                continue
            for typed in (False, True) if keys and kind != "time2" else (False,):
                yield "write %s, %s%s" % (kind, name, ", typed" if typed else ""), u_write(kind, keys, False, typed), dict(functions=wf, loops=[Seqs()])
                yield "extend %s, %s%s" % (kind, name, ", typed" if typed else ""), u_write(kind, keys, True, typed), dict(functions=wf, loops=[Seqs()])
    for inp, tg in (("data", ()), ("data", ("z", "a")), (None, ("z", "a")), ("inp", ("data", "cx"))):
        for first in (False, True):
            yield "dump %s, targets %s%s" % (inp, "+".join(tg) or "none", ", from a later sequence" if first else ""), u_dump(inp, tg, first), dict(functions=[F + "HDFDatasetWriter.dump_from_dataset"], loops=[Stats(), Table(), Write()])
    rf = [F + "HDFDataset." + n for n in ("add_file", "get_data", "_get_data_by_real_seq_idx", "_get_seq_length_by_real_idx", "get_tag", "_get_tag_by_real_idx", "get_corpus_seq", "_get_file_index")] + [CF + "CachedDataset." + n for n in ("init_seq_order", "get_seq_length", "get_seq_length_nd", "get_corpus_seq_idx", "get_data_keys")]
    for nf in (1, 2, 3):
        for inputs, keys in ((True, ()), (True, ("z", "a")), (False, ("z", "a"))):
            for more in (False, True):
                if more and (nf == 1 or not keys):
                    continue
                yield "read %d files%s, keys %s%s" % (nf, "" if inputs else " without inputs", "+".join(keys) or "none", ", more keys in the last" if more else ""), u_read(nf, inputs, keys, more), dict(functions=rf)
    S.assumptions += [
        "contract of h5py: data sets hold what was written, resize keeps it; groups and attributes as dictionaries",
        "contract of numpy: cumsum, zeros, reshape, indexing; P(0) = 0 and P(s+1) = P(s) + L(s) for the start positions",
        "the first batch of a new file is taken to have one sequence; all later ones any number",
    ]
