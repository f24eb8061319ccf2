"""P10 concrete side: sequence access through the window of a dataset"""
import random
import numpy
from pyvc.concrun import Violation, Skip


NONE_ATTR = True  # a sequence that should be held but is not shows as attribute access on None


def cases(tier, seed):
    R = random.Random(seed)
    reps = 700 if tier == "quick" else 8000
    for _ in range(reps):
        n = R.choice([1, 2, 3, 5, 9])
        yield dict(kind="window", n=n, known=R.choice([True, False]), ops=ops(R, n))
    for kind in ("known", "estimate", "none", "fails", "inf"):
        for n in (1, 2, 3, 7, 10, 1000):
            yield dict(kind="frac", num=kind, n=n, lr=True)
            yield dict(kind="frac", num=kind, n=n, lr=False)


def ops(R, n):
    """a history of one or two epochs of a consumer"""
    r = []
    for ep in range(R.choice([1, 2, 3])):
        r.append(["epoch", R.randint(1, 5), 0])
        pos = 0
        for _ in range(R.randint(1, 3 * n + 2)):
            k = R.choice(["next", "ahead", "tag", "len", "less", "data", "again", "skip"])
            r.append([k, R.randint(0, 3) if k != "less" else R.randint(0, 7), R.randint(0, 3)])
    return r


def from_model(unit, label, m):
    def num(k, d):
        try:
            return max(0, min(int(m.get(k)), 12))
        except (TypeError, ValueError):
            return d

    R = random.Random(7)
    N, st, mm, a, b = num("N", 3) or 1, num("start", 0), num("m", 2), num("a", 1), num("b", 2)
    for known in (True, False):
        base = [["epoch", 1, 0], ["load", 0, mm], ["load", st, st + mm], ["load", a, b], ["data", 0, 0], ["less", num("n", 1), 0], ["tag", 1, 0], ["data", 1, 0]]
        for n in {N, 1, 2, 5}:
            yield dict(kind="window", n=n, known=known, ops=base)
            for _ in range(10):
                yield dict(kind="window", n=n, known=known, ops=ops(R, n))
    i = num("i", 0)
    for kind in ("known", "estimate", "none", "fails", "inf"):
        for n in {max(1, num("n", 3)), 1, 2, i + 1, i + 2}:
            for lr in (True, False):
                yield dict(kind="frac", num=kind, n=n, lr=lr)


def run_case(c):
    globals()["run_" + c["kind"]](c)


def run_window(c):
    from returnn.datasets.cached2 import CachedDataset2
    from returnn.datasets.basic import DatasetSeq

    n = c["n"]
    log = []

    class DS(CachedDataset2):
        def __init__(self):
            super().__init__()
            self.num_inputs = 2
            self.num_outputs = {"data": (2, 2), "classes": (99, 1)}

        def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
            super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
            del log[:]
            if c["known"]:
                self._num_seqs = n
            return True

        def _collect_single_seq(self, seq_idx):
            if seq_idx >= n:
                return None
            log.append(seq_idx)
            e = self.epoch
            return DatasetSeq(seq_idx=seq_idx, seq_tag="e%i-%i" % (e, seq_idx), features=numpy.full((seq_idx % 3 + 1, 2), 100 * e + seq_idx, "float32"), targets={"classes": numpy.array([seq_idx] * 2, "int32")})

    ds = DS()
    ep, pos, end = None, 0, 0  # the consumer's window [pos, end)

    def check(i):
        d = ds.get_data(i, "data")
        if d.shape != (i % 3 + 1, 2) or not (d == 100 * ep + i).all():
            raise Violation("get_data(%i) of epoch %i gives %r" % (i, ep, d.tolist()))
        if list(ds.get_data(i, "classes")) != [i, i] or list(ds.get_targets("classes", i)) != [i, i] or ds.get_input_data(i) is not d:
            raise Violation("targets of %i" % i)

    for op, x, y in c["ops"]:
        if op == "epoch":
            ep, pos, end = x, 0, 0
            ds.init_seq_order(epoch=x)
            continue
        if op == "load":
            lo = max(pos, min(x, n - 1))
            hi = max(lo, y)
            ds.load_seqs(lo, hi)
            pos, end = lo, max(end, hi)
        elif op in ("next", "skip"):
            lo = min(pos + (1 if op == "next" else x), n - 1)
            ds.load_seqs(lo, lo + 1 + y)
            pos, end = lo, max(end, lo + 1 + y)
        elif op == "ahead":
            ds.load_seqs(pos, max(end, pos + x))
            end = max(end, pos + x)
        elif op == "again":
            ds.load_seqs(pos, min(end, pos + x) if end > pos else pos)
        elif op == "tag":
            i = min(pos + x, n - 1)
            if ds.get_tag(i) != "e%i-%i" % (ep, i):
                raise Violation("get_tag(%i) of epoch %i is %r" % (i, ep, ds.get_tag(i)))
            end = max(end, i + 1)
        elif op == "len":
            i = min(pos + x, n - 1)
            ln = ds.get_seq_length(i)
            if ln["data"] != i % 3 + 1 or ln["classes"] != 2:
                raise Violation("get_seq_length(%i) is %r" % (i, ln))
            end = max(end, i + 1)
        elif op == "less":
            i = pos + x
            r = ds.is_less_than_num_seqs(i)
            if bool(r) != (i < n):
                raise Violation("is_less_than_num_seqs(%i) is %r with %i sequences" % (i, r, n))
            if i >= n and ds.num_seqs != n:
                raise Violation("num_seqs %r after the end was seen, expected %i" % (ds.num_seqs, n))
            for q in range(pos):
                if not ds.is_less_than_num_seqs(q):
                    raise Violation("is_less_than_num_seqs(%i) of an earlier sequence" % q)
        elif op == "data":
            i = pos + x
            if i < min(end, n):
                check(i)
                fr = ds.get_complete_frac(i, allow_only_lr_suitable=True)
                if c["known"] and abs(fr - (i + 1) / n) > 1e-9:
                    raise Violation("complete fraction %r after %i of %i" % (fr, i, n))
        for i in range(pos, min(end, n)):
            check(i)
        if sorted(set(log)) != log:
            raise Violation("sequences collected twice or out of order: %r" % log)


def run_frac(c):
    from returnn.datasets.basic import Dataset

    kind, n = c["num"], c["n"]

    class D(Dataset):
        @property
        def num_seqs(self):
            if kind == "inf":
                return float("inf")
            if kind != "known":
                raise NotImplementedError
            return n

        @property
        def estimated_num_seqs(self):
            if kind == "fails":
                raise NotImplementedError
            return n if kind == "estimate" else None

    ds = D()
    last = 0.0
    for i in range(n if kind == "known" else n + 20):
        r = ds.get_complete_frac(i, allow_only_lr_suitable=c["lr"])
        if c["lr"] and kind != "known":
            if r is not None:
                raise Violation("complete fraction %r although the number of sequences is not known" % r)
            continue
        if r is None or not (0 < r <= 1) or r < last:
            raise Violation("complete fraction %r at %i, after %r" % (r, i, last))
        if kind == "known" and abs(r - (i + 1) / n) > 1e-9:
            raise Violation("complete fraction %r after %i of %i" % (r, i, n))
        last = r
