"""P14 concrete side: real training with the torch engine, compared with plain numpy gradient descent over the same batches"""
import os
import random
import shutil
import tempfile
import numpy
from pyvc.concrun import Violation, Skip

CASE_S = 120


def cases(tier, seed):
    R = random.Random(seed)
    for _ in range(150 if tier == "quick" else 2500):
        yield gen(R)


def gen(R):
    acc = R.choice([["one"], ["int", R.randint(1, 4)], ["typed", R.randint(1, 4)], ["func", R.randint(1, 3)], ["func", R.randint(1, 3)]])
    return dict(n=R.randint(1, 9), max_seqs=R.randint(1, 3), accum=acc, epochs=R.randint(1, 3), dyn=R.random() < 0.6, mult=R.choice([None, None, 0.5, 2.0]), momentum=R.choice([0.0, 0.0, 0.5]),
                scale=R.choice([1.0, 0.5]), norm=R.random() < 0.3, custom=R.random() < 0.3, clip=R.choice([0, 0, 0.05]), save=R.choice([1, 1, 2, 3]), dev=R.randint(0, 4), second=R.random() < 0.4,
                resume=R.random() < 0.3, rates=R.random() < 0.4, rnd=R.randint(0, 9999), expl=R.random() < 0.2, wd=R.choice([0, 0, 0.1]), clipv=R.choice([0, 0, 0.04]), nofrac=R.random() < 0.2)


def from_model(unit, label, m):
    R = random.Random(14)
    for k in range(60):
        c = gen(R)
        u = unit.lower()
        if "accumulation func" in u:
            c["accum"] = ["func", 1 + k % 3]
        elif "accumulation" in u or "train" in u:
            c["accum"] = [R.choice(["int", "typed"]), 1 + k % 4]
        elif "dynamic" in u or "start" in u:
            c["dyn"] = True
        elif "evaluation" in u:
            c["dev"] = 1 + k % 4
        yield c


def data(R, n):
    out = []
    for i in range(n):
        t = int(R.randint(1, 5))
        out.append(dict(data=R.uniform(-0.5, 0.5, (t, 2)).astype("float32"), classes=R.uniform(-1, 1, (t, 1)).astype("float32")))
    return out


def dyn_lr(step, epoch, cont, lr):
    return lr * (1.0 + 0.3 * (step % 5) + 0.1 * epoch + (0.7 * cont if cont is not None else 3.0))


def acc_fn(a, step, epoch, cont):
    return a + (step + epoch) % 3 + (1 if cont is not None and cont - int(cont) > 0.5 else 0)


_D = {}


def data_class(unknown):
    """data set in memory; unknown: it cannot tell how much of the epoch is finished"""
    from returnn.datasets.generating import StaticDataset

    if not unknown:
        return StaticDataset
    if not _D:

        class Unknown(StaticDataset):
            def get_complete_frac(self, *args, **kw):
                return None

        _D["u"] = Unknown
    return _D["u"]


_M = []


def model_class():
    if _M:
        return _M[0]
    import torch

    class M(torch.nn.Module):
        def __init__(self, **kw):
            super().__init__()
            self.w = torch.nn.Parameter(torch.tensor([0.3, -0.2]))
            self.bias = torch.nn.Parameter(torch.tensor([0.1]))

    _M.append(M)
    return M


def run_case(c):
    tmp = tempfile.mkdtemp(prefix="pyvc_p14_", dir=os.environ.get("PYVC_TMP"))
    try:
        _run(c, tmp)
    finally:
        shutil.rmtree(tmp)


def _run(c, tmp):
    import torch
    import returnn.frontend as rf
    from returnn.config import Config, global_config_ctx
    from returnn.datasets.generating import StaticDataset
    from returnn.torch.engine import Engine

    R = numpy.random.RandomState(c["rnd"])
    train, devs = data(R, c["n"]), {"dev": data(R, c["dev"])} if c["dev"] else {}
    if c["second"]:
        devs["extra"] = data(R, 2)
    seen = []
    rnds = []

    def train_step(*, model, extern_data, **kw):
        x, y = extern_data["data"], extern_data["classes"]
        if model.training:
            rnds.append(float(torch.rand(1)))
        seen.append((model.training, [int(v) for v in x.dims[1].dyn_size]))
        raw = ((x.raw_tensor * model.w).sum(-1) + model.bias - y.raw_tensor[..., 0]) ** 2
        loss = rf.convert_to_tensor(raw, dims=x.dims[:2])
        kw = {}
        if c["custom"]:
            kw["custom_inv_norm_factor"] = rf.copy_to_device(x.dims[1].get_size_tensor(), loss.device) * 3
        ctx = rf.get_run_ctx()
        ctx.mark_as_loss(loss, "mse", scale=c["scale"], use_normalized_loss=c["norm"], **kw)
        ctx.mark_as_loss(rf.convert_to_tensor(raw.detach().sqrt(), dims=x.dims[:2]), "abs", as_error=True)

    def dyn(*, global_train_step, epoch, epoch_continuous, learning_rate, **kw):
        return dyn_lr(global_train_step, epoch, epoch_continuous, learning_rate)

    def acc(*, epoch, epoch_continuous, global_train_step, **kw):
        return acc_fn(c["accum"][1], global_train_step, epoch, epoch_continuous)

    opt = {"class": "SGD"}
    if c["mult"]:
        opt["learning_rate_multiplier"] = c["mult"]
    if c["wd"]:
        opt["weight_decay"] = c["wd"]
    if c["momentum"]:
        opt["momentum"] = c["momentum"]
    rates = [0.04, 0.02, 0.03] if c["rates"] else [0.03] * 3
    cfg = dict(task="train", device="cpu", extern_data={"data": {"dim": 2}, "classes": {"dim": 1}}, get_model=lambda **kw: model_class()(), train_step=train_step, batch_size=10000, max_seqs=c["max_seqs"],
               optimizer=opt, num_epochs=c["epochs"], model=os.path.join(tmp, "m", "net"), save_interval=c["save"], torch_dataloader_opts={"num_workers": 0}, calculate_exp_loss=c["expl"])
    if c["rates"]:
        cfg["learning_rates"] = rates[: c["epochs"]]
    else:
        cfg["learning_rate"] = 0.03
    cfg["learning_rate_file"] = os.path.join(tmp, "lr")
    if c["dyn"]:
        cfg["dynamic_learning_rate"] = dyn
    if c["clip"]:
        cfg["gradient_clip_global_norm"] = c["clip"]
    if c["clipv"]:
        cfg["gradient_clip"] = c["clipv"]
    a = c["accum"]
    if a[0] == "int":
        pass
    elif a[0] == "typed":
        cfg["accum_grad_multiple_step"] = a[1]
    elif a[0] == "func":
        cfg["accum_grad_multiple_step"] = acc

    def go(stops, where):
        errors, steps = {}, None
        for stop in stops:
            cf = Config(dict(cfg, num_epochs=stop, model=os.path.join(tmp, where, "net"), learning_rate_file=os.path.join(tmp, where + "-lr")))
            if a[0] == "int":
                cf.dict["accum_grad_multiple_step"] = [str(a[1])]
            mk = lambda d, name: data_class(c["nofrac"])(d, name=name, output_dim={"data": (2, 2), "classes": (1, 2)})
            with global_config_ctx(cf):
                eng = Engine(config=cf)
                if c["second"]:
                    ds = {k: mk(v, k) for k, v in devs.items()}
                    eng.init_train_from_config(train_data=mk(train, "train"), dev_data=ds.get("dev"), eval_data=ds["extra"])
                else:
                    eng.init_train_from_config(train_data=mk(train, "train"), dev_data=mk(devs["dev"], "dev") if devs else None)
                eng.train()
                steps = eng.global_train_step
                for ep, d in eng.learning_rate_control.epoch_data.items():
                    errors[ep] = dict(d.error)
        return steps, errors

    stops = [c["epochs"]]
    if c["resume"] and c["epochs"] > 1:
        c = dict(c, save=1)
        cfg["save_interval"] = 1
        go(stops, "u")
        whole = list(rnds)
        del seen[:], rnds[:]
        stops = [c["epochs"] - 1, c["epochs"]]
        steps, errors = go(stops, "m")
        if rnds != whole:
            raise Violation("random numbers drawn in the training steps after a restart differ: %s, uninterrupted %s" % (rnds, whole))
    else:
        steps, errors = go(stops, "m")
    if c["second"]:
        devs["eval"] = devs.pop("extra")
    exp, scores, nsteps, log = oracle(c, train, devs, rates)
    if steps != nsteps:
        raise Violation("global train step %s after training, expected %s" % (steps, nsteps))
    order = list(seen)
    if order != log:
        raise Violation("batches run (training, lengths): %s, expected %s" % (order, log))
    for ep in range(1, c["epochs"] + 1):
        fn = os.path.join(tmp, "m", "net.%03d.pt" % ep)
        due = ep % c["save"] == 0 or ep == c["epochs"]
        if os.path.exists(fn) != due:
            raise Violation("model of epoch %d: saved %s, expected %s" % (ep, os.path.exists(fn), due))
        if due:
            d = torch.load(fn)
            got = numpy.concatenate([d["model"]["w"].numpy(), d["model"]["bias"].numpy()])
            if d["epoch"] != ep or d["step"] != exp[ep][1]:
                raise Violation("saved epoch/step %s/%s, expected %s/%s" % (d["epoch"], d["step"], ep, exp[ep][1]))
            if not numpy.allclose(got, exp[ep][0], rtol=0, atol=2e-5):
                raise Violation("parameters after epoch %d: %s, expected %s" % (ep, got.tolist(), exp[ep][0].tolist()))
        for k, v in scores[ep].items():
            g = errors.get(ep, {}).get(k)
            if g is None or abs(g - v) > 1e-4 * max(1.0, abs(v)):
                raise Violation("score %s of epoch %d: %s, expected %s" % (k, ep, g, v))
        if set(errors[ep]) - set(scores[ep]):
            raise Violation("unexpected scores %s" % sorted(set(errors[ep]) - set(scores[ep])))


def batches(seqs, k):
    return [seqs[i : i + k] for i in range(0, len(seqs), k)]


def oracle(c, train, devs, rates):
    w = numpy.array([0.3, -0.2, 0.1], "float64")
    mom = None
    step = 0
    exp, scores, log = {}, {}, []
    n = len(train)

    def err(s):
        x = numpy.concatenate([s["data"].astype("float64"), numpy.ones((len(s["data"]), 1))], axis=1)
        return x, x.dot(w) - s["classes"][:, 0]

    def norm(bt):
        return float(sum(len(s["data"]) for s in bt)) * (3 if c["custom"] else 1)

    def score(bs):
        tot = sum(float((err(s)[1] ** 2).sum()) for b in bs for s in b)
        return tot

    for ep in range(1, c["epochs"] + 1):
        sums = numpy.zeros(4)
        grad, cnt = numpy.zeros(3), 0
        cont = ep - 1.0
        done = 0
        for bt in batches(train, c["max_seqs"]):
            log.append((True, [len(s["data"]) for s in bt]))
            lr = rates[ep - 1]
            eff = dyn_lr(step, ep, cont, lr) if c["dyn"] else lr
            eff *= c["mult"] or 1.0
            g = numpy.zeros(3)
            for s in bt:
                x, e = err(s)
                g += 2 * x.T.dot(e)
                sums += [(e**2).sum(), 0, numpy.abs(e).sum(), len(e)]
            sums[1] += norm(bt)
            g *= c["scale"]
            if c["norm"]:
                g /= norm(bt)
            grad += g
            cnt += 1
            done += len(bt)
            cont = None if c["nofrac"] else ep - 1 + done / n
            a = {"one": 1, "func": None}.get(c["accum"][0], c["accum"][-1])
            if a is None:
                a = acc_fn(c["accum"][1], step, ep, cont)
            if cnt >= a:
                if c["clipv"]:
                    grad = numpy.clip(grad, -c["clipv"], c["clipv"])
                if c["clip"]:
                    grad = grad * min(1.0, c["clip"] / (numpy.linalg.norm(grad) + 1e-6))
                grad = grad + c["wd"] * w * [1, 1, 0]
                if c["momentum"]:
                    mom = grad if mom is None else c["momentum"] * mom + grad
                    w = w - eff * mom
                else:
                    w = w - eff * grad
                grad, cnt = numpy.zeros(3), 0
            step += 1
        sc = {"train_loss_mse": sums[0] / sums[1], "train_loss_abs": sums[2] / sums[3]}
        for name, d in devs.items():
            bs = batches(d, c["max_seqs"])
            log += [(False, [len(s["data"]) for s in b]) for b in bs]
            sc[name + "_loss_mse"] = score(bs) / sum(norm(b) for b in bs)
            sc[name + "_loss_abs"] = sum(float(numpy.abs(err(s)[1]).sum()) for s in d) / sum(len(s["data"]) for s in d)
        if c["expl"]:
            for k in list(sc):
                if k.endswith("_mse"):
                    sc[k + ":exp"] = float(numpy.exp(sc[k]))
        scores[ep] = sc
        exp[ep] = (w.copy(), step)
    return exp, scores, step, log
