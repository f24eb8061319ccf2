"""P02 concrete side: every ordering is a rearrangement of the corpus; sorting, unique tags, filter, repeat"""
import random
import numpy
from pyvc.concrun import Violation, Skip

ORD = ["default", "reverse", "sorted", "sorted_reverse", "random", "random:{n}", "sort_bin_shuffle", "sort_bin_shuffle:{b}",
       "sort_bin_shuffle:.{b}:{n}", "sort_bin_shuffle_x2:{b}", "sort_bin_shuffle_x2:.{b}:{n}", "laplace", "laplace:{b}", "laplace:.{b}:{n}"]


def _mk(c):
    from returnn.datasets.basic import Dataset

    n = c["n"]
    tags = ["t%i" % (i % c.get("ntags", n)) for i in range(n)]

    class D(Dataset):
        def get_total_num_seqs(self, **kw):
            return n

        def get_all_tags(self):
            return tags

    kw = {}
    if c.get("unique"):
        kw["unique_seq_tags"] = True
    if c.get("rep"):
        kw["repeat_epoch"] = c["rep"]
    ds = D(seq_ordering=c["ordering"], random_seed_offset=c.get("off", 0), **kw)
    if c.get("filter") is not None:
        ds.seq_tags_filter = {tags[i] for i in c["filter"]}
    return ds, tags


def seq_len(i):
    return (i * 7919 + 13) % 5 + 1


def cases(tier, seed):
    R = random.Random(seed)

    def o():
        return R.choice(ORD).format(n=R.randint(1, 4), b=R.randint(1, 9))

    ns = [1, 2, 3, 5, 8, 13, 40, 97]
    for t in ORD:
        for n in ns:
            for b in (1, 2, 3, 7, 11):
                yield dict(kind="order", n=n, ordering=t.format(n=2, b=b), epoch=R.randint(1, 9), off=R.randint(0, 5))
    for _ in range(1200 if tier == "quick" else 6000):
        n = R.choice([R.randint(1, 9), R.randint(1, 60), R.randint(1, 500)])
        yield dict(kind="order", n=n, ordering=o(), epoch=R.randint(1, 30), off=R.randint(0, 99))
        yield dict(kind="order", n=n, ordering=o(), epoch=R.randint(1, 30), rep=R.randint(1, 7))
        yield dict(kind="order", n=n, ordering=o(), epoch=R.randint(1, 30), unique=True, ntags=R.randint(1, n))
        k = R.randint(1, n)
        yield dict(kind="order", n=n, ordering=o(), epoch=R.randint(1, 30), filter=sorted(R.sample(range(n), k)), rep=R.choice([None, None, 2]))
    for _ in range(200):
        n = R.choice([R.randint(1, 9), R.randint(1, 60)])
        yield dict(kind="tags", n=n, ordering=R.choice(["default", "reverse", "random"]), epoch=R.randint(1, 5))


def from_model(unit, label, m):
    n = max(1, int(m.get("n") or 1))
    if n > 100000:
        return
    ep = max(1, int(m.get("epoch") or 1))
    b, nth = max(1, int(m.get("bins") or m.get("size") or 2)), max(1, int(m.get("nth") or 1))
    ords = [t.format(n=nth, b=b) for t in ORD]
    name = unit.split(" ", 1)[-1]
    ords.sort(key=lambda o: not o.startswith(name.split(":")[0]))
    for o in ords:
        yield dict(kind="order", n=n, ordering=o, epoch=ep)
        yield dict(kind="order", n=n, ordering=o, epoch=ep, rep=max(1, int(m.get("rep") or 1)))
        yield dict(kind="order", n=n, ordering=o, epoch=ep, unique=True, ntags=max(1, n // 2))
        yield dict(kind="order", n=n, ordering=o, epoch=ep, filter=list(range(0, n, 2)))


def run_case(c):
    n, o = c["n"], c["ordering"]
    if c["kind"] == "order":
        ds, tags = _mk(c)
        r = list(ds.get_seq_order_for_epoch(c["epoch"], n, seq_len))
        if not all(isinstance(x, (int, numpy.integer)) for x in r):
            raise Violation("%s order of %i sequences has entries which are no integers: %r" % (o, n, r[:5]))
        r = [int(x) for x in r]
        ds2, _ = _mk(c)
        r2 = [int(x) for x in ds2.get_seq_order_for_epoch(c["epoch"], n, seq_len)]
        if r != r2:
            raise Violation("the same dataset, seed and epoch give two different orders")
        plain = dict(c, rep=None, unique=None, filter=None)
        base = [int(x) for x in _mk(plain)[0].get_seq_order_for_epoch(c["epoch"], n, seq_len)]
        if sorted(base) != list(range(n)):
            raise Violation("%s order of %i sequences is no rearrangement: %r" % (o, n, base[:50]))
        exp = list(base)
        if c.get("unique"):
            seen, e2 = set(), []
            for i in exp:
                if tags[i] not in seen:
                    seen.add(tags[i])
                    e2.append(i)
            exp = e2
        exp = exp * (c.get("rep") or 1)
        if c.get("filter") is not None:
            ft = {tags[i] for i in c["filter"]}
            exp = [i for i in exp if tags[i] in ft]
        if r != exp:
            raise Violation("order with unique/repeat/filter %r != expected %r" % (r[:50], exp[:50]))
        ls = [seq_len(i) for i in base]
        if o in ("default", "reverse"):
            if base != (list(range(n)) if o == "default" else list(range(n))[::-1]):
                raise Violation("%s order is %r" % (o, base[:50]))
        if o in ("sorted", "sorted_reverse"):
            sg = 1 if o == "sorted" else -1
            ex = sorted(range(n), key=lambda i: sg * seq_len(i))
            if base != ex:
                raise Violation("%s order is not the stable sorting by length: %r != %r" % (o, base[:40], ex[:40]))
    elif c["kind"] == "tags":
        from returnn.datasets.generating import DummyDataset

        ds = DummyDataset(input_dim=2, output_dim=3, num_seqs=n, seq_len=2)
        ds.seq_ordering = o
        ds.initialize()
        ds.init_seq_order(epoch=c["epoch"])
        tags, k = [], 0
        while ds.is_less_than_num_seqs(k):
            ds.load_seqs(k, k + 1)
            tags.append(ds.get_tag(k))
            k += 1
        if len(tags) != n or len(set(tags)) != n:
            raise Violation("epoch over the dataset gives tags %r for %i sequences" % (tags[:50], n))
