from props.lib import *
from props.lib import _t, _simp
from pyvc.helpers import FilterSeq
from props.s_P01 import mkds, F
import returnn.datasets.basic as B

D = B.Dataset


def bound(i, n, bins):
    return SymNum(_t(i)) * n // bins


def _find_outer(L):
    """role based lookup: the (empty so far) list being filled, and the int sequence being cut into bins"""
    outs = [k for k, v in L.env.items() if isinstance(v, PList) and v.kind == "list" and v.v.conc_len() == 0]
    if len(outs) != 1:
        return None
    srcs = [
        k for k, v in L.env.items()
        if isinstance(v, PList) and isinstance(v.v, Fn) and v.v.count_total is not None and v.v is not L.seq
    ]
    if "seq_index" in srcs:
        srcs = ["seq_index"]
    if len(srcs) != 1:
        return None
    return outs[0], srcs[0]


class BinLoop(LoopContract):
    """for i in range(bins): out += f(seq[i*n//bins : (i+1)*n//bins]) with f a rearrangement"""

    name = "bins in order"

    def match(self, L):
        if L.kind != "for" or not (isinstance(L.seq, Range) and z3.is_true(z3.simplify(L.seq.start == 0))):
            return False
        r = _find_outer(L)
        if r is None:
            return False
        L.data["out"], L.data["src"] = r
        return True

    def havoc(self, L):
        o = L[L.data["out"]]
        L.modifies(o)
        src = L[L.data["src"]].v
        fn_ = S.int("flat_n", lo=0)
        b = bound(L.i, SymNum(src.n), SymNum(L.n))
        o.v = Nested(L.i, fn_.t, lambda e: src.cnt(e, _t(b)))
        L.data["e"] = L.data.get("e") or S.int("e")
        return {L.data["out"]: o}

    def inv(self, L):
        o = nested_of(L[L.data["out"]].v)
        src = L[L.data["src"]].v
        n, bins = SymNum(src.n), SymNum(L.n)
        b = bound(L.i, n, bins)
        L.data["e"] = L.data.get("e") or S.int("e")
        e = L.data["e"].t
        # arithmetic lemma about the bin boundaries (proved, then used)
        yield "bin boundary lies within the sequence", And(b >= 0, b <= n)
        yield "flat length", eq(SymNum(o.flat_n), b)
        if L.mode != "assume":
            yield "occurrences of every index", eq(SymNum(o.flat_total(e)), SymNum(src.cnt(e, _t(b))))


class PermBinLoop(LoopContract):
    """for b in permutation(bins): out += rearranged seq[lo(b):hi(b)]"""

    name = "bins in shuffled order"

    def match(self, L):
        if L.kind != "for" or not getattr(L.seq, "is_perm_range", False):
            return False
        r = _find_outer(L)
        if r is None:
            return False
        L.data["out"], L.data["src"] = r
        return True

    def _g(self, L, e):
        """occurrences of e in bin b (b = the i-th drawn bin); e None: number of elements"""
        src = L[L.data["src"]].v
        n, bins = SymNum(src.n), SymNum(L.n)

        def c(x):
            return _t(x) if e is None else src.cnt(e, _t(x))

        def g(b):
            b = SymNum(_t(b))
            lo, hi = bound(b, n, bins), bound(b + 1, n, bins)
            return c(hi) - c(lo)

        return g, c(SymNum(src.n))

    def _SG(self, L, e):
        """ghost sums SG(i) = sum_{j<i} g(perm[j]); lemma (see lemmas/PermSum.lean): SG(bins) = c(n) - c(0)"""
        key = "SG%s" % (e.get_id() if e is not None else "len")
        if key not in L.data:
            f = S.func("SG", z3.IntSort(), z3.IntSort())
            L.data[key] = f
            S.assume(f(z3.IntVal(0)) == 0)
            g, tot = self._g(L, e)
            S.assume(f(L.n) == tot)
        return L.data[key]

    def _step(self, L, e, i):
        f = self._SG(L, e)
        g, _ = self._g(L, e)
        S.assume(z3.Implies(z3.And(i >= 0, i < L.n), f(z3.simplify(i + 1)) == f(i) + g(L.seq.at(i))))

    def havoc(self, L):
        o = L[L.data["out"]]
        L.modifies(o)
        fl = self._SG(L, None)
        i = L.i

        def ft(e):
            f = self._SG(L, e)
            self._step(L, e, i)
            return f(i)

        o.v = Nested(L.i, fl(i), ft)
        self._step(L, None, i)
        b = L.seq.at(i)
        src = L[L.data["src"]].v
        n, bins = SymNum(src.n), SymNum(L.n)
        # arithmetic lemmas about bin b
        if S.decide(And(i < L.n)):
            lo, hi = bound(b, n, bins), bound(b + 1, n, bins)
            S.prove(And(lo >= 0, lo <= hi, hi <= n), L.label("bin boundaries are ordered"), kind="lemma")
            S.prove(Implies(eq(b, bins - 1), eq(hi, n)), L.label("the last bin ends at the end"), kind="lemma")
        return {L.data["out"]: o}

    def inv(self, L):
        o = nested_of(L[L.data["out"]].v)
        L.data["e"] = L.data.get("e") or S.int("e")
        e = L.data["e"].t
        if L.mode != "assume":
            yield "flat length", eq(SymNum(o.flat_n), SymNum(self._SG(L, None)(L.i)))
            yield "occurrences of every index", eq(SymNum(o.flat_total(e)), SymNum(self._SG(L, e)(L.i)))


def lens():
    f = S.func("len", z3.IntSort(), z3.IntSort())

    def get_seq_len(i):
        r = f(_t(i))
        S.assume(r >= 0)
        return SymNum(r)

    return get_seq_len


def check_perm(r, n):
    v = to_seq(r)
    S.reachable()
    S.prove(v.n == n.t, "the order has one entry per sequence")
    e = S.int("elem")
    S.prove(
        v.total(e.t) == z3.If(z3.And(e.t >= 0, e.t < n.t), z3.IntVal(1), z3.IntVal(0)),
        "every sequence index occurs exactly once and nothing else occurs",
    )


def u_order(mk, sorted_=None):
    def u():
        n = S.int("n", lo=1)
        S.inputs.update(n=n)
        gl = lens()
        epoch = S.int("epoch", lo=1)
        S.inputs.update(epoch=epoch)
        ds = mkds(seq_ordering=mk())
        r = ds.get_seq_order_for_epoch(epoch, n, gl)
        check_perm(r, n)
        if sorted_:
            v = to_seq(r)
            i, j = S.int("i", lo=0), S.int("j", lo=0)
            S.assume(And(i < j, j < n))
            a, b = v.at(i.t), v.at(j.t)
            la, lb = gl(a), gl(b)
            if sorted_ > 0:
                S.prove(la <= lb, "sorted by length")
            else:
                S.prove(la >= lb, "sorted by decreasing length")
            S.prove(Implies(eq(la, lb), a < b), "stable: equal lengths keep the corpus order")

    return u


def u_identity(kind):
    def u():
        n, epoch = S.int("n", lo=1), S.int("epoch", lo=1)
        S.inputs.update(n=n, epoch=epoch)
        r = to_seq(mkds(seq_ordering=kind).get_seq_order_for_epoch(epoch, n, None))
        S.prove(r.n == n.t, "length")
        j = S.int("j", lo=0)
        S.assume(j < n)
        S.prove(eq(r.at(j.t), j if kind == "default" else n - 1 - j), "element j of the %s order" % kind)

    return u


class UniqueComp(LoopContract):
    """[i for i in seq if (tag[i] not in used, used.add(tag[i]))[0]] -- filter with a growing set"""

    name = "unique tags"

    def match(self, L):
        return False

    def comp(self, kind, s, elt, cond, qual):
        used = getattr(S.g, "used_sets", None)
        # the set mutated by the condition: found by probing one arbitrary element on a side path
        return _unique_comp(kind, s, elt, cond)


def _closure_sets(f):
    out = []
    for c in f.__closure__ or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if isinstance(v, PSet):
            out.append(v)
    return out


def _unique_comp(kind, s, elt, cond):
    """
    loop contract of the filtering comprehension: invariant after i elements
      used = {tag(s[k]) : k < i},  kept = [s[k] for k < i if no k' < k has tag(s[k']) == tag(s[k])]
    """
    if cond is None or kind != "list":
        return None
    sets = _closure_sets(cond)
    if len(sets) != 1 or S.g.tag is None:
        return None
    used, tag = sets[0], S.g.tag
    if used.items or used.base is not None:
        return None
    i = S.int("i_uniq", lo=0)
    S.assume(i.t < s.n)
    # arbitrary iteration (side path)
    if S.decide(S.bool("uniq_body")):
        seen = S.func("seen", z3.IntSort(), z3.BoolSort())  # seen(t) <=> exists k<i: tag(s[k]) == t
        used.base = lambda t: SymBool(seen(t.t))
        x = s.at(i.t)
        t = tag(x)
        before = SymBool(seen(t.t))
        r = cond(x)
        S.prove(Iff(r, Not(before)), "unique tags: an entry is kept iff its tag was not seen before", kind="invariant")
        q = S.int("anytag")
        S.prove(
            Iff(used.has(SymAtom(q.t)), Or(SymBool(seen(q.t)), q == SymNum(t.t))),
            "unique tags: exactly the tag of this entry is added to the seen tags", kind="invariant",
        )
        S.prove(eq(elt(x), x), "unique tags: the kept entry is the sequence index itself", kind="invariant")
        raise PathEnd
    S.approx.append("cut unique-tags comprehension")
    first = S.func("first", z3.IntSort(), z3.BoolSort())  # first(k): no k'<k with the same tag

    def keep(k, x):
        return SymBool(first(k))

    n = S.int("uniq_n", lo=0)
    idx, rank = S.func("uidx", z3.IntSort(), z3.IntSort()), S.func("urank", z3.IntSort(), z3.IntSort())
    r = Fn(n.t, lambda k: s.at(idx(k)), "uniq")
    acc = []

    def fact(k, v):
        j = idx(k)
        out = [j >= 0, j < s.n, first(j), rank(j) == k]
        for k2 in acc:
            out.append(z3.Implies(k2 < k, idx(k2) < j))
            out.append(z3.Implies(k < k2, j < idx(k2)))
            out.append(z3.Implies(k2 != k, tag(s.at(idx(k2))).t != tag(s.at(j)).t))
        acc.append(k)
        return And(*out)

    r.add_fact(fact)
    S.g.uniq = (s, first, idx, rank, n)
    return PList(r)


def u_unique():
    n, epoch = S.int("n", lo=1), S.int("epoch", lo=1)
    S.inputs.update(n=n, epoch=epoch)
    tags = atom_fn("tag", n.t)
    S.g.tag = lambda i: tags.at(_t(i))
    S.g.uniq = None
    ds = mkds(unique_seq_tags=True)
    ds.get_all_tags = lambda: PList(tags)
    r = to_seq(ds.get_seq_order_for_epoch(epoch, n, None))
    i, j = S.int("i", lo=0), S.int("j", lo=0)
    S.assume(And(i.t < j.t, j.t < r.n))
    a, b = r.at(i.t), r.at(j.t)
    S.reachable()
    S.prove(a < b, "the surviving entries keep their order")
    S.prove(tags.at(a.t) != tags.at(b.t), "no tag occurs twice")


class FilterPlain(LoopContract):
    name = "-"

    def match(self, L):
        return False


def u_filter():
    n, epoch = S.int("n", lo=1), S.int("epoch", lo=1)
    S.inputs.update(n=n, epoch=epoch)
    tags = atom_fn("tag", n.t)
    infilter = S.func("infilter", z3.IntSort(), z3.BoolSort())
    flt = PSet(base=lambda t: SymBool(infilter(t.t)))
    ds = mkds(seq_tags_filter=flt)
    ds.get_all_tags = lambda: PList(tags)
    ds.get_total_num_seqs = lambda **kw: n
    # some sequence passes the filter (documented requirement)
    w = S.int("w", lo=0)
    S.assume(And(w < n, SymBool(infilter(tags.at(w.t).t))))
    S.g.filter_witness = (w.t,)
    r = to_seq(ds.get_seq_order_for_epoch(epoch, n, None))
    S.reachable()
    i, j, k = S.int("i", lo=0), S.int("j", lo=0), S.int("k", lo=0)
    S.assume(And(i.t < j.t, j.t < r.n))
    a, b = r.at(i.t), r.at(j.t)
    S.prove(a < b, "the remaining entries keep their order")
    S.prove(SymBool(infilter(tags.at(a.t).t)), "only sequences whose tag is in the filter remain")


def u_filter_complete():
    n, epoch = S.int("n", lo=1), S.int("epoch", lo=1)
    S.inputs.update(n=n, epoch=epoch)
    tags = atom_fn("tag", n.t)
    infilter = S.func("infilter", z3.IntSort(), z3.BoolSort())
    flt = PSet(base=lambda t: SymBool(infilter(t.t)))
    ds = mkds(seq_tags_filter=flt, seq_ordering="random")
    ds.get_all_tags = lambda: PList(tags)
    ds.get_total_num_seqs = lambda **kw: n
    k = S.int("k", lo=0)
    S.assume(And(k < n, SymBool(infilter(tags.at(k.t).t))))
    S.g.filter_witness = (lambda src: src.surj(k.t),)
    r = to_seq(ds.get_seq_order_for_epoch(epoch, n, None))
    if not isinstance(r, FilterSeq):
        raise Unsupported("filter result")
    src = r.src
    p = S.int("p", lo=0)
    S.assume(p.t < src.n)
    x = src.at(p.t)
    t = tags.at(_t(x))
    S.assume(SymBool(infilter(t.t)))
    r.instantiate(p.t)
    pos = r.rank(p.t)
    S.prove(And(pos >= 0, pos < r.n), "a sequence whose tag is in the filter stays in the order")
    S.prove(eq(r.at(pos), x), "and keeps its place relative to the filtered order")


def u_repeat():
    n, epoch, rep = S.int("n", lo=1), S.int("epoch", lo=1), S.int("rep", lo=1)
    S.inputs.update(n=n, epoch=epoch, rep=rep)
    r = to_seq(mkds(repeat_epoch=rep, seq_ordering="random").get_seq_order_for_epoch(epoch, n, None))
    e = S.int("elem", lo=0)
    S.assume(e < n)
    S.prove(r.n == n.t * rep.t, "repeat_epoch: length")
    S.prove(r.total(e.t) == rep.t, "repeat_epoch: every sequence occurs exactly repeat_epoch times")


def u_none():
    r = mkds().get_seq_order_for_epoch(None, S.int("n", lo=0), None)
    S.prove(eq(len_of(r), 0), "no epoch: empty order")


def len_of(r):
    return SymNum(to_seq(r).n)


def symstr(*pieces):
    def mk():
        out = []
        for p in pieces:
            if isinstance(p, str) and p.startswith("$"):
                v = S.int(p[1:], lo=1)
                S.inputs[p[1:]] = v
                out.append(("d", v))
            else:
                out.append(p)
        return SymStr(out) if any(not isinstance(p, str) for p in out) else "".join(out)

    return mk


def units(tier):
    fo = [F + "get_seq_order_for_epoch", F + "_get_random_seed_for_epoch"]
    loops = [BinLoop(), PermBinLoop()]
    for name, mk, srt in [
        ("default", lambda: "default", None),
        ("reverse", lambda: "reverse", None),
        ("sorted", lambda: "sorted", 1),
        ("sorted_reverse", lambda: "sorted_reverse", -1),
        ("random", lambda: "random", None),
        ("random:nth", symstr("random:", "$nth"), None),
        ("sort_bin_shuffle", lambda: "sort_bin_shuffle", None),
        ("sort_bin_shuffle:bins", symstr("sort_bin_shuffle:", "$bins"), None),
        ("sort_bin_shuffle:.size:nth", symstr("sort_bin_shuffle:.", "$size", ":", "$nth"), None),
        ("sort_bin_shuffle_x2:bins", symstr("sort_bin_shuffle_x2:", "$bins"), None),
        ("laplace", lambda: "laplace", None),
        ("laplace:bins", symstr("laplace:", "$bins"), None),
        ("laplace:.size:nth", symstr("laplace:.", "$size", ":", "$nth"), None),
    ]:
        yield "order " + name, u_order(mk, srt), dict(loops=loops, functions=fo)
    yield "identity default", u_identity("default"), dict(functions=fo)
    yield "identity reverse", u_identity("reverse"), dict(functions=fo)
    yield "unique tags", u_unique, dict(loops=[UniqueComp()], functions=fo)
    yield "filter", u_filter, dict(functions=fo)
    yield "filter complete", u_filter_complete, dict(functions=fo)
    yield "repeat", u_repeat, dict(functions=fo)
    yield "no epoch", u_none, dict(functions=fo)
    S.assumptions.extend(
        [
            "numpy.random.RandomState.permutation/shuffle: arbitrary rearrangement",
            "list.sort / numpy.argsort(kind='stable'): stable sorting permutation",
            "numpy.concatenate: concatenation; gathering an array through a permutation of its indices keeps the multiset",
            "lemma: sum of g over a permutation of range(m) with g(b)=T(b+1)-T(b) equals T(m)-T(0) (lemmas/PermSum.lean)",
        ]
    )
