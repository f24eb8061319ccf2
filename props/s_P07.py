from props.lib import *
from props.lib import _t, _simp
import returnn.learning_rate_control as LR

F = "returnn/learning_rate_control.py:"
ED = LR.LearningRateControl.EpochData


def data_at(e):
    d = object.__new__(ED)
    d.learning_rate = SymNum(S.g.lr(_t(e)))
    d.error = S.g.errs
    d.meta = {}
    return d


def control(cls, **kw):
    """a control object with an arbitrary history: epochs has(e), rate lr(e), score key key(e) and value err(e)"""
    g = S.g
    g.n = S.int("n", lo=0)
    S.inputs["n"] = g.n
    kf = S.func("epoch", z3.IntSort(), z3.IntSort())
    g.kpos = S.func("epoch_pos", z3.IntSort(), z3.IntSort())
    g.lr = S.func("lr", z3.IntSort(), z3.RealSort())
    g.err = S.func("err", z3.IntSort(), z3.RealSort())
    g.key = S.func("errkey", z3.IntSort(), z3.IntSort())
    g.haserr = S.func("haserr", z3.IntSort(), z3.BoolSort())
    g.errs = {}
    g.keys = Fn(g.n.t, lambda j: SymNum(kf(j)), "epochs")
    g.keys.add_fact(lambda j, e: And(e >= 1, g.kpos(_t(e)) == j))
    g.keys.distinct = True
    g.has = lambda e: And(g.kpos(_t(e)) >= 0, g.kpos(_t(e)) < g.n.t, mkbool(kf(g.kpos(_t(e))) == _t(e)), e >= 1)
    c = object.__new__(cls)
    g.ed = PDict(base_has=g.has, base_get=data_at, keys=g.keys)
    g.default, g.minlr, g.decay, g.growth = S.real("default_lr"), S.real("min_lr"), S.real("decay"), S.real("growth")
    S.assume(And(g.default > 0, g.minlr >= 0, g.decay > 0, g.growth > 0))
    c.__dict__.update(
        epoch_data=g.ed, filename=None, default_learning_rate=g.default, min_learning_rate=g.minlr, default_learning_rates=None,
        error_measure_key=None, relative_error_also_relative_to_learning_rate=False, min_num_epochs_per_new_learning_rate=0,
        relative_error_div_by_old=False, learning_rate_decay=g.decay, learning_rate_growth=g.growth,
    )
    c.__dict__.update(kw)

    def err(epoch):
        e = _t(epoch)
        if not S.decide(And(g.has(SymNum(e)), mkbool(g.haserr(e)))):
            return None, None
        return SymAtom(g.key(e)), SymNum(g.err(e))

    c.get_epoch_error_key_value = err  # contract: a function of the epoch's recorded scores; (None, None) without scores
    g.ep = S.int("epoch", lo=1)
    S.inputs["epoch"] = g.ep
    return c


def is_last(r, epoch, label, below=None):
    """postcondition: r is the newest epoch with data before epoch, None if there is none"""
    g = S.g
    if r is not None:
        S.prove(And(g.has(r), r < epoch), label + ": has data and is before")
    e = S.int("any_epoch", lo=1)
    S.assume(And(g.has(e), e < epoch))
    touch(g.keys, g.kpos(e.t))
    if r is None:
        S.prove(False, label + ": found if there is one")
    else:
        S.prove(e <= r, label + ": none newer")


def last_of(c, epoch):
    """ghost: the newest epoch with data before epoch (by the contract of get_last_epoch, proved separately)"""
    g = S.g
    r = LR.LearningRateControl.get_last_epoch(c, epoch)
    return r


def u_last():
    c = control(LR.ConstantLearningRate)
    S.reachable()
    is_last(c.get_last_epoch(S.g.ep), S.g.ep, "last epoch")


def u_lastn():
    g = S.g
    c = control(LR.ConstantLearningRate)
    k = S.int("num_epochs", lo=1)
    S.reachable()
    r = to_seq(c._last_epochs_for_epoch(g.ep, num_epochs=k))
    S.prove(SymNum(r.n) <= k, "at most num_epochs")
    i, j = S.int("i", lo=0), S.int("j", lo=0)
    S.assume(And(i < j, j < SymNum(r.n)))
    S.prove(And(r.at(i.t) < r.at(j.t), r.at(j.t) < g.ep, g.has(r.at(i.t)), g.has(r.at(j.t))), "ascending epochs with data before the epoch")


def u_lastn_complete():
    g = S.g
    c = control(LR.ConstantLearningRate)
    k = S.int("num_epochs", lo=1)
    S.reachable()
    r = to_seq(c._last_epochs_for_epoch(g.ep, num_epochs=k))
    e = S.int("any_epoch", lo=1)
    S.assume(And(g.has(e), e < g.ep))
    pos = touch(g.keys, g.kpos(e.t))
    S.prove(SymNum(r.n) >= 1, "not empty if there is data before")
    if id(r) in pos:
        p = pos[id(r)][0]
        S.prove(And(p >= 0, p < r.n), "nothing is left out")
    elif isinstance(r, Slice) and id(r.s) in pos:
        p = pos[id(r.s)][0]
        S.prove(Implies(Not(And(p >= r.lo, p < r.hi)), And(e < r.at(z3.IntVal(0)), eq(SymNum(r.n), k))), "only older epochs are left out, and only beyond num_epochs")
    else:
        raise Unsupported("result shape")


class Descending(LoopContract):
    """get_most_recent_learning_rate: all entries seen so far are not before the epoch"""

    name = "most recent rate"

    def match(self, L):
        return L.kind == "for" and isinstance(L.seq, Seq)

    def havoc(self, L):
        return {}

    def inv(self, L):
        g = S.g
        ep = g.ep
        i = L.i
        L.forall(L.seq, lambda j, x: Implies(j < i, x[0] >= ep if g.excl else x[0] > ep), "the entries passed over are newer")


def u_recent(excl):
    def un():
        g = S.g
        g.excl = excl
        c = control(LR.NewbobRelative)
        S.reachable()
        r = c.get_most_recent_learning_rate(g.ep, exclude_current=excl)
        e = S.int("e_star", lo=1)
        lim = g.ep if excl else g.ep + 1
        e2 = S.int("any_epoch", lo=1)
        S.assume(And(g.has(e), e < lim))
        touch(g.keys, g.kpos(e.t))
        # e is the newest
        g.keys.at(g.kpos(e.t))
        g.newest = e
        st = S.sorts[-1] if S.sorts else None
        if st is None:
            raise Unsupported("no sort")
        S.assume(newest_before(st, e, lim))
        S.prove(eq(r, SymNum(g.lr(e.t))), "rate of the newest epoch with data")

    return un


def newest_before(st, e, lim):
    """assumption that e is the newest epoch before lim, at all accessed entries"""
    g = S.g
    out = []
    for (v, i) in list(st.cache.values()):
        x = v[0] if isinstance(v, tuple) else v
        out.append(Implies(And(i >= 0, i < st.n, x < lim), x <= e))
    return And(*out)


def u_recent_none(excl):
    def un():
        g = S.g
        g.excl = excl
        c = control(LR.NewbobRelative)
        S.reachable()
        lim = g.ep if excl else g.ep + 1
        g.keys.add_fact(lambda j, e: e >= lim)
        r = c.get_most_recent_learning_rate(g.ep, exclude_current=excl)
        S.prove(eq(r, g.default), "default rate without earlier data")

    return un


def with_last(c):
    """replace get_last_epoch by its contract: same result for the same epoch"""
    g = S.g
    memo = []

    def get_last_epoch(epoch):
        for e0, r in memo:
            if e0 is epoch or isinstance(epoch, SymNum) and isinstance(e0, SymNum) and e0.t.eq(epoch.t):
                return r
        if S.decide(S.bool("none_before")):
            r = None
        else:
            r = S.int("last")
            S.assume(And(g.has(r), r < epoch, r >= 1))
        memo.append((epoch, r))
        return r

    c.get_last_epoch = get_last_epoch
    return get_last_epoch


def changed(lr, decay, grow, label=""):
    """ghost: decay (not below the minimum) or growth"""
    g = S.g
    d = lr * g.decay
    return If(decay, If(d < g.minlr, g.minlr, d), If(grow, lr * g.growth, lr))


def u_const():
    g = S.g
    c = control(LR.ConstantLearningRate)
    last = with_last(c)
    S.reachable()
    r = c.calc_learning_rate_for_epoch(g.ep)
    l = last(g.ep)
    S.prove(eq(r, g.default if l is None else SymNum(g.lr(_t(l)))), "the rate stays as in the epoch before")


def u_newbob(absolute):
    def un():
        g = S.g
        thr = S.real("threshold")
        if absolute:
            c = control(LR.NewbobAbs, error_threshold=thr)
        else:
            c = control(LR.NewbobRelative, relative_error_threshold=thr)
        rel = S.func("relerr", z3.IntSort(), z3.IntSort(), z3.RealSort())
        relnone = S.func("relnone", z3.IntSort(), z3.IntSort(), z3.BoolSort())

        def calc_rel(old_epoch, new_epoch):
            a, b = _t(old_epoch), _t(new_epoch)
            return None if S.decide(relnone(a, b)) else SymNum(rel(a, b))

        c.calc_relative_error = calc_rel  # contract, proved separately
        last = with_last(c)
        S.reachable()
        r = c.calc_learning_rate_for_epoch(g.ep)
        l = last(g.ep)
        if l is None:
            S.prove(eq(r, g.default), "initial rate in the first epoch")
            return
        lr = SymNum(g.lr(_t(l)))
        l2 = last(l)
        if l2 is None:
            S.prove(eq(r, lr), "unchanged with only one epoch of history")
            return
        if absolute:
            known = And(g.haserr(_t(l)), g.haserr(_t(l2)), mkbool(g.key(_t(l)) == g.key(_t(l2))))
            diff = SymNum(g.err(_t(l)) - g.err(_t(l2)))
        else:
            known, diff = Not(mkbool(relnone(_t(l2), _t(l)))), SymNum(rel(_t(l2), _t(l)))
        S.prove(Implies(Not(known), eq(r, lr)), "unchanged without comparable scores")
        dec = diff > thr
        S.prove(Implies(known, eq(r, changed(lr, dec, Not(dec)))), "decayed exactly if the error change is above the threshold, else grown")
        S.prove(Implies(And(known, dec), r >= g.minlr), "a decayed rate is not below the minimum")

    return un


def u_relerr(div_old, rel_lr):
    def un():
        g = S.g
        c = control(LR.NewbobRelative, relative_error_div_by_old=div_old, relative_error_also_relative_to_learning_rate=rel_lr)
        cur = S.real("recent_lr")
        g.asked = None

        def recent(epoch, exclude_current=True):
            g.asked = (epoch, exclude_current)
            return cur

        c.get_most_recent_learning_rate = recent
        a, b = S.int("old"), S.int("new")
        S.assume(And(g.err(a.t) != 0, g.err(b.t) != 0))
        S.reachable()
        r = c.calc_relative_error(a, b)
        known = And(g.has(a), g.has(b), g.haserr(a.t), g.haserr(b.t), mkbool(g.key(a.t) == g.key(b.t)))
        if r is None:
            S.prove(Not(known), "None only without comparable scores")
            return
        S.prove(known, "a value only for comparable scores")
        o, n = SymNum(g.err(a.t)), SymNum(g.err(b.t))
        d = o if div_old else n
        want = (n - o) / If(d < 0, -d, d)
        if rel_lr:
            S.prove(g.asked is not None and g.asked[0] is b and g.asked[1] is False, "relative to the rate used in the new epoch")
            S.prove(Implies(cur <= 0, eq(r, want)), "unscaled without a positive rate")
            S.prove(Implies(cur > 0, eq(r * cur, want * g.default)), "scaled by the ratio of the initial rate to the rate of the new epoch")
        else:
            S.prove(eq(r, want), "change relative to the size of the score")

    return un


def u_multi():
    g = S.g
    thr, gthr = S.real("threshold"), S.real("grow_threshold")
    S.assume(gthr <= thr)
    ui = S.int("update_interval", lo=1)
    c = control(LR.NewbobMultiEpoch, num_epochs=S.int("num_epochs", lo=1), update_interval=ui, relative_error_threshold=thr, relative_error_grow_threshold=gthr)
    cur, mean = S.real("recent_lr"), S.real("mean")
    g.q = []
    c.get_most_recent_learning_rate = lambda epoch, exclude_current=True: (g.q.append(("lr", epoch, exclude_current)), cur)[1]
    none = S.bool("mean_none")
    c._calc_recent_mean_relative_error = lambda epoch: (g.q.append(("mean", epoch)), None if S.decide(none) else mean)[1]
    S.reachable()
    r = c.calc_learning_rate_for_epoch(g.ep)
    S.prove(all(x[1] is g.ep and x[2:] in ((), (True,)) for x in g.q), "computed from the history before this epoch")
    m = S.int("interval_no", lo=0)
    upd = Or(ui == 1, (g.ep % ui) == 1)
    S.prove(Implies(Or(Not(upd), none), eq(r, cur)), "unchanged between the update intervals and without history")
    S.prove(Implies(And(upd, Not(none)), eq(r, changed(cur, mean > thr, mean < gthr))), "decay above the threshold, growth below the growth threshold")


def u_mean(m):
    """mean over the relative errors of consecutive epochs among the last num_epochs + 1"""

    def un():
        g = S.g
        k = S.int("num_epochs", lo=1)
        S.assume(k + 1 >= m)
        c = control(LR.NewbobMultiEpoch, num_epochs=k, update_interval=1, relative_error_threshold=S.real("t"), relative_error_grow_threshold=S.real("gt"))
        les = [S.int("le", lo=1) for _ in range(m)]
        for a, b in zip(les, les[1:]):
            S.assume(a < b)
        g.q = []
        c._last_epochs_for_epoch = lambda epoch, num_epochs: (g.q.append((epoch, num_epochs)), PList(Conc(list(les))))[1]
        rel = S.func("rel", z3.IntSort(), z3.IntSort(), z3.RealSort())
        none = [S.bool("rel_none") for _ in range(m)]

        def calc(old_epoch, new_epoch):
            i = [j for j in range(m - 1) if le_is(les[j], old_epoch) and le_is(les[j + 1], new_epoch)]
            S.prove(len(i) == 1, "change between consecutive epochs with data")
            return None if i and S.decide(none[i[0]]) else SymNum(rel(_t(old_epoch), _t(new_epoch)))

        c.calc_relative_error = calc
        S.reachable()
        r = c._calc_recent_mean_relative_error(g.ep)
        for ep, n in g.q:
            S.prove(And(ep == g.ep, n == k + 1), "from the last num_epochs + 1 epochs before this one")
        if m < 2:
            S.prove(r is None, "no change with less than two epochs")
            return
        anynone = Or(*none[: m - 1])
        if r is None:
            S.prove(anynone, "no mean only if some change is not defined")
        else:
            tot = sum((SymNum(rel(les[i].t, les[i + 1].t)) for i in range(1, m - 1)), SymNum(rel(les[0].t, les[1].t)))
            S.prove(And(Not(anynone), eq(r * (m - 1), tot)), "mean of the changes between consecutive epochs")

    return un


def le_is(a, b):
    return _t(a).eq(_t(b))


def u_key_value():
    """score of an epoch: (None, None) without scores, else the value under the key chosen by get_error_key"""
    g = S.g
    c = control(LR.NewbobRelative)
    del c.__dict__["get_epoch_error_key_value"]
    key = SymAtom(S.func("atom", z3.IntSort())(), z3.BoolVal(True))
    val = S.real("score")
    n = S.choose(3, "scores")
    errs = {} if n == 0 else {"dev_score": val} if n == 1 else {"dev_score": S.real("x"), "dev_error": val}
    g.errs = errs
    c.get_error_key = lambda epoch: {0: None, 1: "dev_score", 2: "dev_error"}[n]
    has = g.has(g.ep)
    S.reachable()
    k, v = c.get_epoch_error_key_value(g.ep)
    S.prove(mkbool(z3.BoolVal(v is None)) == Or(Not(has), n == 0), "no score exactly without recorded scores")
    if v is not None:
        S.prove(And(mkbool(z3.BoolVal(k == {1: "dev_score", 2: "dev_error"}.get(n))), eq(v, val)), "the value recorded under the chosen key")
    S.prove(eq(c.get_epoch_error_value(g.ep), val) if v is not None else c.get_epoch_error_value(g.ep) is None, "the same value alone")


def u_decay_grow():
    g = S.g
    c = control(LR.NewbobRelative)
    lr = S.real("rate")
    dec = bool(S.bool("dec"))
    k = S.choose(3, "grow")
    grow = [None, False, True][k]
    S.reachable()
    try:
        r = c.calc_learning_rate_decay_or_grow(lr, decay=dec, grow=grow)
    except AssertionError:
        S.prove(dec and grow is True, "refused only if both are asked for")
        return
    gr = (not dec) if grow is None else grow
    S.prove(eq(r, changed(lr, mkbool(z3.BoolVal(dec)), mkbool(z3.BoolVal(gr)))), "decay not below the minimum, or growth, or unchanged")


def u_get():
    """recorded rates never change; a new one is recorded; nothing else is touched"""
    g = S.g
    c = control(LR.NewbobRelative)
    new = S.real("new_rate")
    S.assume(new > 0)
    g.calls = []
    c.calc_new_learning_rate_for_epoch = lambda epoch: (g.calls.append(epoch), new)[1]
    e2 = S.int("other_epoch", lo=1)
    S.assume(e2 != g.ep)
    had, had2 = g.has(g.ep), g.has(e2)
    S.reachable()
    r = c.get_learning_rate_for_epoch(g.ep)
    S.prove(Implies(had, eq(r, SymNum(g.lr(g.ep.t)))), "a recorded rate is used as it is")
    S.prove(Implies(Not(had), eq(r, new)), "a new rate is calculated for this epoch")
    S.prove(all(x is g.ep for x in g.calls), "calculated for this epoch")
    ok, d = c.epoch_data.lookup(g.ep)
    S.prove(ok, "the rate is recorded")
    if ok:
        S.prove(eq(d.learning_rate, r), "as the rate of this epoch")
    ok, d = c.epoch_data.lookup(e2)
    S.prove(had2 if ok else Not(had2), "no other epoch is added or removed")
    if ok:
        S.prove(eq(d.learning_rate, SymNum(g.lr(e2.t))), "the rates of the other epochs are unchanged")


def u_set_default():
    g = S.g
    c = control(LR.NewbobRelative)
    new = S.real("new_rate")
    had, old = g.has(g.ep), SymNum(g.lr(g.ep.t))
    store = {}

    def get(e):
        for k, d in store.values():
            if k.eq(_t(e)):
                return d
        d = data_at(e)
        store[len(store)] = (_t(e), d)
        return d

    g.ed.base_get = get
    S.reachable()
    c.set_default_learning_rate_for_epoch(g.ep, new)
    ok, d = c.epoch_data.lookup(g.ep)
    S.prove(ok, "recorded")
    if ok:
        S.prove(eq(d.learning_rate, If(And(had, old != 0), old, new)), "a recorded non-zero rate is not overwritten")


def u_calc_new(k2):
    def un():
        g = S.g
        k = S.int("min_num_epochs", lo=0)
        c = control(LR.NewbobRelative, min_num_epochs_per_new_learning_rate=k)
        calc = S.real("calc")
        c.calc_learning_rate_for_epoch = lambda epoch: calc
        m = k2
        les = [S.int("le", lo=1) for _ in range(m)]
        for x in les:
            S.assume(And(g.has(x), x < g.ep))
        c._last_epochs_for_epoch = lambda epoch, num_epochs: PList(Conc(list(les)))
        S.assume(Implies(k > 1, k >= m))
        S.reachable()
        r = c.calc_new_learning_rate_for_epoch(g.ep)
        lrs = [SymNum(g.lr(x.t)) for x in les]
        same = And(*[eq(lrs[0], x) for x in lrs[1:]]) if lrs else mkbool(z3.BoolVal(True))
        if not les:
            S.prove(eq(r, calc), "new rate without history")
            return
        keep = And(k > 1, Or(Not(same), k > m))
        S.prove(Implies(keep, eq(r, lrs[-1])), "a rate is kept for at least the minimum number of epochs")
        S.prove(Implies(Not(keep), eq(r, calc)), "after that a new rate is calculated")

    return un


def units(tier):
    B, R = F + "LearningRateControl.", F
    L = [Descending()]
    yield "last epoch", u_last, dict(functions=[B + "get_last_epoch"])
    yield "last n epochs", u_lastn, dict(functions=[B + "_last_epochs_for_epoch"])
    yield "last n epochs, complete", u_lastn_complete, dict(functions=[B + "_last_epochs_for_epoch"])
    for ex in (True, False):
        yield "most recent rate, exclude_current=%s" % ex, u_recent(ex), dict(functions=[B + "get_most_recent_learning_rate"], loops=L)
        yield "most recent rate, no history, exclude_current=%s" % ex, u_recent_none(ex), dict(functions=[B + "get_most_recent_learning_rate"], loops=L)
    yield "constant", u_const, dict(functions=[F + "ConstantLearningRate.calc_learning_rate_for_epoch"])
    upd = [B + "calc_learning_rate_decay_or_grow", B + "_calc_learning_rate_decay", B + "_calc_learning_rate_growth", B + "_calc_learning_rate_update"]
    yield "newbob relative", u_newbob(False), dict(functions=[F + "NewbobRelative.calc_learning_rate_for_epoch"] + upd)
    yield "newbob absolute", u_newbob(True), dict(functions=[F + "NewbobAbs.calc_learning_rate_for_epoch"] + upd)
    yield "newbob multi epoch", u_multi, dict(functions=[F + "NewbobMultiEpoch.calc_learning_rate_for_epoch"] + upd)
    for m in range(0, 5):
        yield "mean relative error, %d epochs of history" % m, u_mean(m), dict(functions=[F + "NewbobMultiEpoch._calc_recent_mean_relative_error", F + "NewbobMultiEpoch._calc_mean_relative_error"], bounded="history window of 0 to 4 epochs")
    yield "score of an epoch", u_key_value, dict(functions=[B + "get_epoch_error_key_value", B + "get_epoch_error_value", B + "get_epoch_error_dict"])
    yield "decay or grow", u_decay_grow, dict(functions=upd)
    for d in (False, True):
        for r in (False, True):
            yield "relative error, div_by_old=%s relative_lr=%s" % (d, r), u_relerr(d, r), dict(functions=[B + "calc_relative_error"])
    yield "rate for epoch", u_get, dict(functions=[B + "get_learning_rate_for_epoch", B + "set_default_learning_rate_for_epoch", B + "EpochData.__init__"])
    yield "set default", u_set_default, dict(functions=[B + "set_default_learning_rate_for_epoch"])
    for m in range(0, 4):
        yield "minimum epochs per rate, %d epochs of history" % m, u_calc_new(m), dict(functions=[B + "calc_new_learning_rate_for_epoch"], bounded="history window of 0 to 3 epochs")
    S.assumptions += [
        "rates and scores as mathematical reals (no rounding, no NaN); scores compared relatively are not 0",
        "recorded rates are floats (EpochData refuses None)",
        "get_error_key: a key of the recorded scores, chosen from them only (run-time checked only)",
        "numpy.mean of a list of reals is their sum divided by their number",
    ]
