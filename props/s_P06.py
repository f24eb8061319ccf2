from props.lib import *
from props.lib import _t, _simp
from pyvc.helpers import FilterSeq
import returnn.engine.base as EB
import returnn.learning_rate_control as LR

F = "returnn/engine/base.py:EngineBase."


class Err:
    """scores of one epoch: dict score key -> value; has(key, epoch) / val(key, epoch) are arbitrary"""

    def __init__(self, e):
        self.e = _t(e)

    def _has(self, k):
        S.g.touch(self.e)
        return k in S.g.keys and S.decide(S.g.has(k, self.e))

    def keys(self):
        return [k for k in S.g.keys if self._has(k)]

    __iter__ = lambda self: iter(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __contains__(self, k):
        return self._has(k)

    def __getitem__(self, k):
        if not self._has(k):
            raise KeyError(k)
        return SymNum(S.g.val(k, self.e))

    def get(self, k, d=None):
        if k not in S.g.keys:
            return d
        if d is None:
            return self[k] if self._has(k) else None
        return If(S.g.has(k, self.e), SymNum(S.g.val(k, self.e)), d)


class Data:
    def __init__(self, e):
        self.error = Err(e)


class File:
    def __init__(self, e):
        self.e = e


class CollectKeys(LoopContract):
    name = "collect score keys"

    def match(self, L):
        if L.kind != "for":
            return False
        x = L.seq
        if x is not S.g.data_seq:
            return False
        self.v = [k for k, v in L.env.items() if isinstance(v, PSet) and v._conc() and not v.items]
        return len(self.v) == 1

    def havoc(self, L):
        st = L[self.v[0]]
        ks = [k for k in S.g.keys if S.choose(2, "key " + k)]
        L.modifies(st)
        st.items = list(ks)
        return {self.v[0]: st} if self.v[0] in L.names else {}

    def inv(self, L):
        g = S.g
        st = L[self.v[0]]
        if not st._conc():
            raise Unsupported("score key set")
        yield "only score keys", all(k in g.keys for k in st.items)
        i = L.i
        for k in g.keys:
            if k not in st.items:
                L.forall(g.data_seq, lambda j, d, k=k: Implies(j < i, Not(g.has(k, d.error.e))), "every score key of the epochs seen is collected")


class CollectScores(LoopContract):
    name = "collect scores"

    def match(self, L):
        if L.kind != "for" or L.seq is not S.g.ep:
            return False
        for k, v in L.env.items():
            if isinstance(v, PDict) and v.base_has is not None:
                continue
            if isinstance(v, (dict, PDict)) and set(v.keys()) <= set(S.g.keys) and all(isinstance(x, (PList, list)) for x in v.values()) and len(list(v.keys())):
                self.v = k
                return True
        return False

    def havoc(self, L):
        g = S.g
        d = L[self.v]
        for k in list(d.keys()):
            n = S.int("nsc_" + k, lo=0)
            src = S.func("sc_src_" + k, z3.IntSort(), z3.IntSort())
            rank = S.func("sc_rank_" + k, z3.IntSort(), z3.IntSort())
            if not isinstance(d[k], PList):
                raise Unsupported("score list")
            i = L.i

            def where(j, src=src, rank=rank):
                """position of the epoch of the j-th score"""
                j = _simp(_t(j))
                return j.arg(0) if z3.is_app(j) and j.decl().eq(rank) else src(j)

            def mk(j, k=k, where=where):
                return SymNum(g.val(k, _t(g.ep.at(where(j)))))

            fs = Fn(n.t, mk, "scores")
            fs.add_fact(lambda j, v, where=where, src=src, k=k: And(src(j) >= 0, src(j) < i, src(j) == where(j), g.has(k, _t(g.ep.at(where(j))))))
            L.modifies(d[k])
            d[k].v = fs
            g.sc[k] = (fs, src, rank)
            # completeness: every epoch seen with this key is in the list
            add_elem_fact(g.ep, lambda j, e, k=k, fs=fs, rank=rank: Implies(And(j < i, g.has(k, _t(e))), And(rank(j) >= 0, rank(j) < fs.n, self.at_is(fs, rank(j), g.val(k, _t(e))))))
        return {}

    @staticmethod
    def at_is(fs, r, val):
        v = fs.at(r)
        return eq(v, SymNum(val))

    def inv(self, L):
        g = S.g
        d = L[self.v]
        if L.mode == "assume":
            return
        for k in list(d.keys()):
            s = to_seq(d[k])
            if L.mode == "entry":
                yield "no scores yet", eq(SymNum(s.n), 0)
                continue
            # preservation: exactly the score of this epoch is appended, if it has one
            fs = g.sc[k][0]
            e = _t(g.ep.at(_simp(L.i - 1)))
            if S.decide(g.has(k, e)):
                yield "the score of the epoch is collected", And(eq(SymNum(s.n), SymNum(fs.n) + 1), eq(s.at(fs.n), SymNum(g.val(k, e))))
            else:
                yield "no score is collected for an epoch without", eq(SymNum(s.n), SymNum(fs.n))
            if not (s is fs or isinstance(s, Cat) and s.a is fs):
                raise Unsupported("score list is rebuilt")


class Pattern(LoopContract):
    """default keep pattern: any set of epochs (nothing else depends on which)"""

    name = "default keep pattern"

    def match(self, L):
        if L.kind != "for" or not getattr(L.seq, "infinite", False):
            return False
        self.v = [k for k, v in L.env.items() if isinstance(v, PSet)]
        return True

    def havoc(self, L):
        for k in self.v:
            st = L[k]
            f = S.func("pat", z3.IntSort(), z3.BoolSort())
            L.modifies(st)
            st.items, st.ops, st.iter_ = [], [], None
            st.base = lambda x, f=f: mkbool(f(_t(x)))
        return {}

    def inv(self, L):
        return []


class Delete(LoopContract):
    name = "delete"

    def match(self, L):
        return L.kind == "for" and S.g.phase == "score" and isinstance(L.seq, Seq) and L.seq is not S.g.ep

    def havoc(self, L):
        L.ghost("ndel")
        S.g.ndel = L.i
        return {}

    def inv(self, L):
        yield "one deletion per removed epoch", eq(SymNum(S.g.ndel), SymNum(L.i))


def deleted(fobj):
    """contract of delete_model: called with the file of an epoch that must not be kept"""
    g = S.g
    if not isinstance(fobj, File):
        raise Unsupported("delete_model argument")
    e = fobj.e
    g.ndel = _simp(g.ndel + 1)
    S.prove(Not(g.dry), "nothing is deleted in a dry run")
    S.prove(g.do_save, "nothing is deleted by a process which does not save")
    S.prove(And(g.n > g.last, g.n > g.best), "nothing is deleted while no more models are stored than are to be kept")
    # not one of the last
    p = S.int("lastpos", lo=0)
    S.assume(And(p < g.n, p >= g.n - g.last))
    S.prove(Not(eq(SymNum(e), g.ep.at(p.t))), "none of the last keep_last_n stored epochs is deleted")
    if g.keep_has is not None:
        S.prove(Not(g.keep_has(SymNum(e))), "no epoch of the configured keep list is deleted")
    # not one of the best: fewer than keep_best_n stored epochs are better
    for k, srt in g.sorted.items():
        # srt: the ranking of the stored epochs by score k, best (lowest) first; epochs without the score last
        S.prove(eq(SymNum(srt.n), g.n), "every stored epoch is ranked")
        p, q = S.int("rank_p", lo=0), S.int("rank_q", lo=0)
        S.assume(And(p < g.n, q < g.n))
        (vp, ep_), (vq, eq_) = srt.at(p.t), srt.at(q.t)
        if k in g.sc:
            fs, src, rank = g.sc[k]
            fs.at(rank(g.pos(_t(eq_))))
        S.prove(Implies(g.has(k, _t(ep_)), eq(vp, SymNum(g.val(k, _t(ep_))))), "an epoch is ranked by its score")
        S.prove(Implies(And(Not(g.has(k, _t(ep_))), g.has(k, _t(eq_))), vp >= vq), "an epoch without the score is ranked as the worst")
        S.prove(Implies(p < q, vp <= vq), "the ranking is from the lowest (best) score on")
        r = S.int("bestpos", lo=0)
        S.assume(And(r < g.best, r < g.n))
        S.prove(Not(eq(SymNum(e), srt.at(r.t)[1])), "none of the keep_best_n best epochs by any score is deleted")
    for k in g.keys:
        if k in g.sorted:
            continue
        # only a score which no stored epoch has, or which is the same everywhere, may be left out
        a, b = S.int("ka", lo=0), S.int("kb", lo=0)
        S.assume(And(a < g.n, b < g.n))
        ea, eb = _t(g.ep.at(a.t)), _t(g.ep.at(b.t))
        g.touch(ea), g.touch(eb)
        if k in g.sc:
            fs, src, rank = g.sc[k]
            fs.at(rank(a.t)), fs.at(rank(b.t))
        S.prove(Implies(And(g.has(k, ea), g.has(k, eb)), g.val(k, ea) == g.val(k, eb)), "only scores without any difference between the stored epochs are ignored")
    S.prove(g.is_stored(e), "only stored epochs are deleted")
    return 1


def mentions(t, f):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f):
            return True
        todo += x.children()
    return False


def u(keys, keep, opts_given=True, late=False):
    def un():
        g = S.g
        S.skolem_in = True
        S.max_inst = 1
        g.keys = keys
        g.phase = "score"
        g.n = S.int("n", lo=0)
        S.inputs["n"] = g.n
        hasf = {k: S.func("has_" + k, z3.IntSort(), z3.BoolSort()) for k in keys}
        valf = {k: S.func("val_" + k, z3.IntSort(), z3.RealSort()) for k in keys}
        g.has = lambda k, e: hasf[k](_t(e))
        g.val = lambda k, e: valf[k](_t(e))
        g.sc = {}
        # stored epochs, in sorted order (ascending, distinct, >= 1)
        epf = S.func("ep", z3.IntSort(), z3.IntSort())
        g.ep = Fn(g.n.t, lambda j: SymNum(epf(j)), "epochs")
        g.ep.add_fact(lambda j, e: e >= 1)
        g.ep.distinct = True
        pos = S.func("pos", z3.IntSort(), z3.IntSort())
        g.pos = pos
        g.is_stored = lambda e: And(pos(_t(e)) >= 0, pos(_t(e)) < g.n.t, epf(pos(_t(e))) == _t(e))
        kp = S.func("keyperm", z3.IntSort(), z3.IntSort())
        ki = S.func("keyperm_inv", z3.IntSort(), z3.IntSort())
        keys_ = Fn(g.n.t, lambda j: g.ep.at(kp(j)), "unsorted epochs")
        keys_.add_fact(lambda j, e: And(kp(j) >= 0, kp(j) < g.n.t, ki(kp(j)) == j))
        keys_.distinct = True
        models = PDict(base_has=lambda x: g.is_stored(_t(x)), base_get=lambda x: File(_t(x)), keys=keys_)
        # scores: epoch_data covers at least the stored epochs
        m = S.int("m", lo=0)
        dpos = S.func("dpos", z3.IntSort(), z3.IntSort())
        depf = S.func("dep", z3.IntSort(), z3.IntSort())
        g.data_seq = Fn(m.t, lambda j: Data(depf(j)), "epoch data")

        g.ep.add_fact(lambda j, e: pos(_t(e)) == j)

        def cover(j, e):
            d = dpos(j)
            g.data_seq.at(d)
            return And(d >= 0, d < m.t, depf(d) == _t(e))

        g.ep.add_fact(cover)

        def touch(e):
            if S.evaluating is None and S.active:
                g.data_seq.at(dpos(pos(e)))

        g.touch = touch
        S.assume(m >= 1)
        if late:
            S.assume(Implies(g.n > 0, g.ep.at(_simp(g.n.t - 1)) > 100))
        S.assume(Or(*[g.has(k, depf(z3.IntVal(0))) for k in keys]))
        g.data_seq.at(z3.IntVal(0))
        ed = PDict(base_has=lambda x: True, base_get=lambda x: Data(_t(x)), keys=None)
        ed.values = lambda: PList(g.data_seq)
        lrc = SymMethodObj(epoch_data=ed)
        g.last, g.best = S.int("keep_last_n", lo=1), S.int("keep_best_n", lo=0)
        S.inputs.update(keep_last_n=g.last, keep_best_n=g.best)
        opts = dict(keep_last_n=g.last, keep_best_n=g.best) if opts_given else {}
        if not opts_given:
            g.last, g.best = 2, 4
        g.keep_has = None
        if keep:
            kf = S.func("keep", z3.IntSort(), z3.BoolSort())
            g.keep_has = lambda x: mkbool(kf(_t(x)))
            opts["keep"] = PSet((), base=g.keep_has)
        g.dry, g.do_save = S.bool("dry"), S.bool("do_save")
        cfg = SymMethodObj(get_of_type=lambda k, t, d=None: opts if k == "cleanup_old_models" else d, bool=lambda k, d: g.dry if k == "dry_run" else d)
        eng = object.__new__(EB.EngineBase)
        eng.__dict__.update(config=cfg, learning_rate_control=lrc)
        eng._do_save = lambda: g.do_save
        eng.get_existing_models = lambda **k: models
        eng.delete_model = deleted
        g.ndel = z3.IntVal(0)
        g.sorted = {}
        import returnn.util.basic as UB

        UB.human_bytes_size = lambda *a, **k: ""  # contract of the log formatting: it returns a string
        S.reachable()
        import pyvc.seqs as SQ

        orig = SQ.sorted_seq

        def sorted_seq(s, key=None, reverse=False):
            r = g.ep if (s is g.ep or s is keys_) and key is None and not reverse else orig(s, key=key, reverse=reverse)
            try:
                v = s.at(z3.IntVal(0)) if S.decide(s.n > 0) else None
            except Unsupported:
                v = None
            if isinstance(v, tuple) and len(v) == 2:
                ks = [k for k in keys if mentions(_t(v[0]), valf[k])]
                if len(ks) == 1:
                    g.sorted[ks[0]] = r
            return r

        for mod in (SQ, HM):
            if hasattr(mod, "sorted_seq"):
                setattr(mod, "sorted_seq", sorted_seq)
        try:
            EB.EngineBase.cleanup_old_models(eng)
        finally:
            for mod in (SQ, HM):
                if hasattr(mod, "sorted_seq"):
                    setattr(mod, "sorted_seq", orig)

    return un


import pyvc.helpers as HM


def units(tier):
    L = [CollectKeys(), CollectScores(), Pattern(), Delete()]
    fs = [F + "cleanup_old_models"]
    yield "one score, configured keep list", u(["dev_score"], True), dict(loops=L, functions=fs)
    if tier != "quick":
        yield "two scores, newest epoch > 100", u(["dev_error", "dev_score"], True, late=True), dict(loops=L, functions=fs, time_limit=2400, max_paths=4000)
    yield "default options", u(["dev_score"], False, False), dict(loops=L, functions=fs)
    yield "one score, default pattern", u(["dev_score"], False), dict(loops=L, functions=fs)
