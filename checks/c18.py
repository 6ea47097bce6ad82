"""C18: optimizers implement their update rule and resume exactly."""
import copy
import io
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from utils import fused_adamw
from utils.fused_adamw import MultiTensorAdamW
from utils.muon import zeropower_via_newtonschulz5
from utils.training_utils import build_lr_scheduler, build_optimizer
from vlib.api import Campaign, require

RULE = ("A case is a small model (matrix, convolution, embedding, vector, scalar and frozen parameters, possibly split over several models), an "
        "optimizer with hyper-parameters and a sequence of gradients (some missing), learning rates and save points. "
        "Non-trivial: at least two steps changed a parameter.")
ASSUMPTIONS = ["CPU only: the Triton kernel itself is not executed, its reference path and the layout test that guards it are",
               "float32 parameters; updates are compared to a float64 reference to 2e-4 relative (Muon: 1e-3)"]
BUDGET = {"quick": 40, "thorough": 600}
NEEDS_EXT = False

SHAPES = [["v", 3], ["v", 1], ["s"], ["m", 4, 3], ["m", 3, 4], ["m", 4, 4], ["m", 1, 5], ["c", 4, 2, 3, 3], ["c", 4, 2, 3, 1], ["c", 2, 6, 1, 1],
          ["k", 3, 2, 3], ["e", 5, 3], ["n", 3, 3]]
# v vector, s scalar, m matrix, c conv2d, k conv1d, e nn.Embedding, n matrix whose name ends in "embed" / "emb" / "embedding"


class Holder(nn.Module):
    """One parameter of each requested kind, held the way models hold them."""

    def __init__(self, items, values):
        super().__init__()
        self.routes = []
        for i, ((kind, *shape), frozen) in enumerate(items):
            value = torch.tensor(np.asarray(values[i], np.float32).reshape(shape))
            if kind == "e":
                mod = nn.Embedding(*shape)
                mod.weight = nn.Parameter(value)
                self.add_module(f"table{i}", mod)
                p = mod.weight
            else:
                name = f"p{i}_" + ["embed", "emb", "embedding"][i % 3] if kind == "n" else f"p{i}"
                p = nn.Parameter(value)
                holder = self if i % 2 else nn.Module()
                holder.register_parameter(name, p)
                if holder is not self:
                    self.add_module(f"sub{i}", holder)
            p.requires_grad_(not frozen)
            self.routes.append((p, kind in "mck"))


def numbers(rng, shape, scale):
    return rng.standard_normal(shape) * scale


def optimizers(draw):
    kind = draw(st.sampled_from(["adamw", "adamw-ams", "sgd", "sgd-momentum", "sgd-nesterov", "muon-adamw", "multi", "multi-ams", "multi-max"]))
    beta = st.sampled_from([[0.9, 0.999], [0.8, 0.9], [0.0, 0.5], [0.95, 0.95]])
    eps = st.sampled_from([1e-8, 1e-3, 1e-12])
    kw = {}
    if kind in ("adamw", "adamw-ams", "multi", "multi-ams", "multi-max"):
        if draw(st.booleans()):
            kw["betas"] = draw(beta)
        if draw(st.booleans()):
            kw["eps"] = draw(eps)
    elif kind.startswith("sgd"):
        if draw(st.booleans()):
            kw["momentum"] = draw(st.sampled_from([0.5, 0.9]))
        if kind != "sgd-nesterov" and draw(st.booleans()):
            kw["dampening"] = draw(st.sampled_from([0, 0.5]))
    else:
        if draw(st.booleans()):
            kw["adamw_args"] = draw(st.fixed_dictionaries({}, optional={"betas": beta, "eps": eps, "weight_decay": st.sampled_from([0.0, 0.3])}))
        if draw(st.booleans()):
            kw["muon_args"] = draw(st.fixed_dictionaries({}, optional={
                "momentum": st.sampled_from([0.5, 0.0, 0.95]), "nesterov": st.booleans(), "ns_steps": st.integers(1, 6),
                "use_baddbmm": st.booleans(), "weight_decay": st.sampled_from([0.0, 0.2])}))
    return kind, kw


def cases(draw):
    kind, kw = optimizers(draw)
    models = draw(st.lists(st.lists(st.tuples(st.sampled_from(SHAPES), st.sampled_from([False, False, False, True])), min_size=1, max_size=5),
                           min_size=1, max_size=2))
    models[0].append((["m", 4, 3], False))
    models[0].append((["v", 3], False))
    if draw(st.booleans()):
        models[-1].append((["m", 4, 3], False))
    steps = draw(st.lists(st.fixed_dictionaries({
        "seed": st.integers(0, 2**31), "missing": st.integers(0, 9), "scale": st.sampled_from([1.0, 1e-3, 30.0, 1.0]),
        "lr": st.sampled_from([None, None, 0.003, 0.2]), "save": st.sampled_from([False, False, True]), "zero": st.integers(0, 6),
        "closure": st.sampled_from([False, False, True])}), min_size=2, max_size=8))
    later = draw(st.none() | st.none() | st.fixed_dictionaries({"at": st.integers(0, 5), "lr": st.sampled_from([None, 0.05]), "tensor": st.booleans(),
                                                                 "shapes": st.lists(st.sampled_from([[3], [4, 3], [2, 2, 3, 3]]), min_size=1, max_size=2)}))
    return dict(kind=kind, kw=kw, models=models, steps=steps, lr=draw(st.sampled_from([0.01, 0.1, 1e-3])),
                wd=draw(st.sampled_from([0.0, 0.0, 0.1, 1e-3])), seed=draw(st.integers(0, 2**31)), sched=draw(st.booleans()), later=later)


def build(c, models):
    kind, kw = c["kind"], copy.deepcopy(c["kw"])
    target = models if len(models) > 1 else models[0]
    if not kind.startswith("multi"):
        return build_optimizer(kind, target, c["lr"], c["wd"], **kw)
    params = [p for m in models for p in m.parameters() if p.requires_grad]
    return MultiTensorAdamW(params, lr=c["lr"], weight_decay=c["wd"], amsgrad=kind == "multi-ams", maximize=kind == "multi-max", **kw)


class Reference:
    """The published rules in float64, one parameter at a time."""

    def __init__(self, c, models):
        self.c, kw = c, c["kw"]
        self.params = []
        for m in models:
            for p, matrix in m.routes:
                if p.requires_grad:
                    rule = c["kind"].split("-")[0]
                    if c["kind"] == "muon-adamw":
                        rule = "muon" if matrix else "adamw"
                    self.params.append((p, rule, dict(value=p.detach().double().numpy().copy(), step=0)))
        self.betas = kw.get("betas", [0.9, 0.999])
        self.eps = kw.get("eps", 1e-8)
        self.wd = c["wd"]
        self.muon = dict(momentum=0.95, nesterov=True, ns_steps=5, weight_decay=c["wd"])
        if c["kind"] == "muon-adamw":
            a = kw.get("adamw_args", {})
            self.betas, self.eps, self.wd = a.get("betas", self.betas), a.get("eps", self.eps), a.get("weight_decay", self.wd)
            self.muon.update({k: v for k, v in kw.get("muon_args", {}).items() if k != "use_baddbmm"})
        defaults = dict(sgd=(0, 0), )
        self.momentum = kw.get("momentum", {"sgd": 0.0}.get(c["kind"], 0.9))
        self.dampening = kw.get("dampening", 0.1 if c["kind"] == "sgd-momentum" else 0.0)

    def step(self, lr, late=None):
        for p, rule, s in self.params:
            if late is not None and s.get("late"):
                lr = late
            if p.grad is None:
                s["delta"] = 0.0
                continue
            before = s["value"]
            getattr(self, rule)(s, p.grad.detach().double().numpy(), lr)
            s["delta"] = np.abs(s["value"] - before).max() if before.size else 0.0

    def adamw(self, s, g, lr, sign=1.0):
        b1, b2 = self.betas
        g = sign * g
        s["step"] += 1
        m = s["m"] = b1 * s.get("m", 0.0) + (1 - b1) * g
        v = s["v"] = b2 * s.get("v", 0.0) + (1 - b2) * g * g
        if self.c["kind"].endswith("-ams"):
            v = s["vmax"] = np.maximum(s.get("vmax", 0.0), v)
        mhat, vhat = m / (1 - b1 ** s["step"]), v / (1 - b2 ** s["step"])
        s["value"] = s["value"] - lr * self.wd * s["value"] - lr * mhat / (np.sqrt(vhat) + self.eps)

    def multi(self, s, g, lr):
        self.adamw(s, g, lr, -1.0 if self.c["kind"] == "multi-max" else 1.0)

    def sgd(self, s, g, lr):
        g = g + self.wd * s["value"]
        if self.momentum:
            s["buf"] = g if "buf" not in s else self.momentum * s["buf"] + (1 - self.dampening) * g
            g = g + self.momentum * s["buf"] if self.c["kind"] == "sgd-nesterov" else s["buf"]
        s["value"] = s["value"] - lr * g

    def muon(self, s, g, lr):
        raise NotImplementedError


def newton_schulz(g, steps):
    """Orthogonalise one matrix: the quintic iteration of the Muon paper."""
    flip = g.shape[0] > g.shape[1]
    x = g.T if flip else g
    x = x / max(np.linalg.norm(x), 1e-7)
    for _ in range(steps):
        a = x @ x.T
        x = 3.4445 * x + (-4.7750 * a + 2.0315 * a @ a) @ x
    return x.T if flip else x


def muon_rule(self, s, g, lr):
    o = self.muon_args
    s["buf"] = o["momentum"] * s.get("buf", 0.0) + (1 - o["momentum"]) * g
    u = (1 - o["momentum"]) * g + o["momentum"] * s["buf"] if o["nesterov"] else s["buf"]
    u = u.reshape(u.shape[0], -1)
    scale = max(u.shape) ** 0.5
    u = newton_schulz(u, o["ns_steps"]).reshape(g.shape)
    s["value"] = s["value"] * (1 - lr * o["weight_decay"]) - lr * scale * u


def make_reference(c, models):
    r = Reference(c, models)
    r.muon_args = r.muon
    r.muon = lambda s, g, lr: muon_rule(r, s, g, lr)
    return r


def make_models(c):
    rng = np.random.default_rng(c["seed"])
    return [Holder(items, [numbers(rng, shape, 0.5) for (_, *shape), _ in items]) for items in c["models"]]


def set_grads(models, step):
    rng = np.random.default_rng(step["seed"])
    i = 0
    for m in models:
        for p, _ in m.routes:
            g = numbers(rng, tuple(p.shape), step["scale"])
            missing = rng.integers(0, 10) < step["missing"] - 5 or not p.requires_grad
            if step["zero"] == 1:
                g = g * (rng.random(g.shape) < 0.5)
            if missing:
                p.grad = None
            elif p.ndim == 2 and step["seed"] % 3 == 0:
                p.grad = torch.tensor(np.asarray(g, np.float32).T.copy()).T     # another memory layout
            elif p.ndim == 4 and step["seed"] % 3 == 0:
                p.grad = torch.tensor(np.asarray(g, np.float32)).contiguous(memory_format=torch.channels_last)
            else:
                p.grad = torch.tensor(np.asarray(g, np.float32))
            i += 1


def roundtrip(state):
    buf = io.BytesIO()
    torch.save(state, buf)
    buf.seek(0)
    return torch.load(buf, map_location="cpu", weights_only=True)


def params_of(models):
    return [p for m in models for p, _ in m.routes]


def check(c, ctx):
    models = make_models(c)
    start = [p.detach().clone() for p in params_of(models)]
    opt = build(c, models)
    ref = make_reference(c, models)
    sched = None
    if c["sched"]:
        sched = build_lr_scheduler(opt, "step", 100, step_size=2, step_gamma=0.5)
    twin = None
    changed = 0
    tol = {"muon": 1e-3}
    slack = {id(p): 0.0 for p in params_of(models)}
    for n, step in enumerate(c["steps"]):
        if step["lr"] is not None and not c["sched"]:
            for group in opt.param_groups:
                group["lr"] = step["lr"]
        later = not c["sched"] and c.get("later")
        if later and n == min(later["at"], len(c["steps"]) - 1):
            # parameters that join the training later, with a learning rate of their own
            rng = np.random.default_rng(c["seed"] + 1)
            new = [nn.Parameter(torch.tensor(np.asarray(numbers(rng, shape, 0.5), np.float32))) for shape in later["shapes"]]
            opt.add_param_group(dict({"params": new[0] if later["tensor"] and len(new) == 1 else new}, **({"lr": later["lr"]} if later["lr"] else {})))
            rule = "adamw" if c["kind"] == "muon-adamw" else c["kind"].split("-")[0]
            for p in new:
                ref.params.append((p, rule, dict(value=p.detach().double().numpy().copy(), step=0, late=True)))
                slack[id(p)] = 0.0
            ctx.label("added")
        late = opt.param_groups[-1]["lr"]
        lr = opt.param_groups[0]["lr"]
        if c["sched"]:
            want_lr = c["lr"] * 0.5 ** (n // 2)
            require(abs(lr - want_lr) <= 1e-12 * want_lr, "learning rate %s instead of %s", lr, want_lr)
        set_grads(models, step)
        grads = [None if p.grad is None else p.grad.clone() for p in params_of(models)]
        for p, _, s in ref.params:
            if s.get("late"):
                p.grad = torch.tensor(np.asarray(numbers(np.random.default_rng([step["seed"], p.numel()]), tuple(p.shape), step["scale"]), np.float32))
        ref.step(lr, late)
        if step.get("closure"):
            calls = []

            def closure():
                require(torch.is_grad_enabled(), "a closure runs without gradients")
                calls.append(1)
                return torch.tensor(1.5)
            loss = opt.step(closure)
            require(len(calls) == 1 and float(loss) == 1.5, "step evaluated its closure %d times and returned %s", len(calls), loss)
        else:
            opt.step()
        for (p, rule, s), k in zip(ref.params, range(10**6)):
            slack[id(p)] += tol.get(rule, 2e-4) * s["delta"] + 1e-9
            if rule == "muon":
                slack[id(p)] += 5e-4 * lr * max(1, max(p.shape)) ** 0.5 * bool(s["delta"])
            got = p.detach().double().numpy()
            limit = slack[id(p)] + 3e-6 * (np.abs(s["value"]).max() if s["value"].size else 0)
            diff = np.abs(got - s["value"]).max() if got.size else 0.0
            require(np.isfinite(got).all() and diff <= limit,
                    lambda: f"step {n}: parameter {tuple(p.shape)} ({rule}) is off by {diff:.3g}, update {s['delta']:.3g}, allowed {limit:.3g}")
        changed += any(s["delta"] > 0 for _, _, s in ref.params)
        for p, before in zip(params_of(models), start):
            require(p.requires_grad or torch.equal(p, before), "a frozen parameter changed")
        if twin is not None:
            tm, topt = twin
            for group in topt.param_groups:
                group["lr"] = lr
            for p, g in zip(params_of(tm), grads):
                p.grad = g
            topt.step()
            for p, q in zip(params_of(models), params_of(tm)):
                require(torch.equal(p, q), lambda: f"step {n}: a restored optimizer moves parameter {tuple(p.shape)} differently")
            require(same_state(opt.state_dict(), topt.state_dict()), "step %d: the restored optimizer's state differs", n)
            ctx.label("continued")
        if sched is not None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sched.step()
        opt.zero_grad()
        require(all(p.grad is None for _, p in [(0, q) for q, _, _ in ref.params]), "zero_grad leaves gradients")
        if step["save"] and not later:
            before = copy.deepcopy(opt.state_dict())
            tm = make_models(c)
            with torch.no_grad():
                for p, q in zip(params_of(tm), params_of(models)):
                    p.copy_(q)
            other = dict(c, lr=0.5, wd=c["wd"])
            if c["kind"] == "adamw" and step["seed"] % 2:
                other["kind"] = "multi"             # the layouts are documented as interchangeable
            elif c["kind"] == "multi" and step["seed"] % 2:
                other["kind"] = "adamw"
            topt = build(other, tm)
            saved = roundtrip(opt.state_dict())
            topt.load_state_dict(saved)
            require(same_state(opt.state_dict(), before), "saving or loading changed the optimizer that was saved")
            if other["kind"] == c["kind"]:
                require(same_state(topt.state_dict(), before), "the loaded state differs from the saved one")
                twin = tm, topt
            else:
                ctx.label("interchanged")
                continue_interchanged(c, models, opt, tm, topt, step)
            ctx.label("saved")
    ctx.nontrivial(changed >= 2)
    ctx.label(c["kind"])


def continue_interchanged(c, models, opt, tm, topt, step):
    """One step of the other implementation from the same state agrees closely."""
    cm = make_models(c)
    copt = build(c, cm)
    with torch.no_grad():
        for p, q in zip(params_of(cm), params_of(models)):
            p.copy_(q)
    copt.load_state_dict(copy.deepcopy(opt.state_dict()))
    for ms, o in ((cm, copt), (tm, topt)):
        set_grads(ms, dict(step, seed=step["seed"] + 1))
        o.step()
    lr = copt.param_groups[0]["lr"]
    for p, q in zip(params_of(cm), params_of(tm)):
        require(torch.allclose(p, q, rtol=1e-4, atol=1e-4 * lr), "continuing with the other AdamW implementation diverges")


def same_state(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same_state, a, b))
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.dtype == b.dtype and torch.equal(a, b)
    return a == b


# ---- orthogonalisation -----------------------------------------------------

def ns_cases(draw):
    return dict(n=draw(st.integers(1, 4)), shape=draw(st.tuples(st.integers(1, 12), st.integers(1, 12))), steps=draw(st.integers(1, 8)),
                badd=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1e-4, 1e3])), seed=draw(st.integers(0, 2**31)),
                rank=draw(st.sampled_from([None, None, 1, 0])))


def check_ns(c, ctx):
    rng = np.random.default_rng(c["seed"])
    g = rng.standard_normal((c["n"], *c["shape"]))
    if c["rank"] is not None:
        g[0] = 0 if c["rank"] == 0 else np.outer(g[0][:, 0], g[0][0])
    g = (g * c["scale"]).astype(np.float32)
    t = torch.tensor(g)
    out = zeropower_via_newtonschulz5(t, c["steps"], c["badd"], False)
    require(out.shape == t.shape and out.dtype == t.dtype, "shape or dtype of the result")
    require(np.array_equal(t.numpy(), g), "the input was changed")
    for i in range(c["n"]):
        want = newton_schulz(g[i].astype(np.float64), c["steps"])
        d = np.abs(out[i].numpy() - want).max()
        require(d <= 2e-3, lambda: f"matrix {i} is off by {d:.3g}")
        if c["rank"] is None and min(c["shape"]) > 0 and c["steps"] >= 5:
            s = np.linalg.svd(g[i].astype(np.float64), compute_uv=False)
            r = np.linalg.svd(out[i].double().numpy(), compute_uv=False)
            if s[-1] > 0.05 * np.linalg.norm(g[i]):
                require(r.min() > 0.3 and r.max() < 1.6, lambda: f"singular values {r} are not near one")
                ctx.nontrivial()
    if c["rank"] == 0:
        require(bool((out[0] == 0).all()), "the zero matrix does not stay zero")


# ---- layouts the single-pass kernel may take -------------------------------

def layout_cases(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=4))

    def tensor():
        return dict(perm=draw(st.permutations(list(range(len(shape))))), pad=draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=len(shape),
                    max_size=len(shape))), offset=draw(st.integers(0, 3)), expand=draw(st.sampled_from([False] * 5 + [True])),
                    odd=draw(st.booleans()))
    return dict(shape=shape, a=tensor(), b=tensor())


def lay_out(shape, spec):
    """A tensor of the given shape in some memory layout, holding its own logical positions."""
    perm = spec["perm"]
    physical = [shape[i] + spec["pad"][i] for i in perm]
    n = int(np.prod(physical))
    base = torch.full((n + spec["offset"],), -1.0)[spec["offset"]:].view(physical)
    inverse = [perm.index(i) for i in range(len(shape))]
    t = base.permute(inverse)
    for d, size in enumerate(shape):
        t = t.narrow(d, 0, size)
    if spec["expand"] and shape[0] > 1:
        t = t.narrow(0, 0, 1).expand(shape)
        t = t.as_strided(t.shape, t.stride(), t.storage_offset())
    else:
        t.copy_(torch.arange(t.numel(), dtype=torch.float32).view(shape))
    if spec["odd"]:          # strides of size-one dimensions are arbitrary
        t = t.as_strided(t.shape, [s if n != 1 else 7 for n, s in zip(t.shape, t.stride())], t.storage_offset())
    return t


def walk(t):
    flat = torch.as_strided(t, (t.numel(),), (1,), t.storage_offset())
    return flat.tolist()


def check_layout(c, ctx):
    key = getattr(fused_adamw, "_flat_layout", None)
    if key is None:     # an internal helper; the updates themselves are decided by the other campaigns
        return
    ts = [lay_out(c["shape"], c[k]) for k in "ab"]
    keys = [key(t) for t in ts]
    walks = []
    for k, t, spec in zip(keys, ts, (c["a"], c["b"])):
        dense = not (spec["expand"] and c["shape"][0] > 1) and sorted(
            (s, n) for n, s in zip(t.shape, t.stride()) if n != 1) == dense_strides(t)
        require((k is not None) == dense, "layout %s with strides %s: key %s", list(t.shape), t.stride(), k)
        if k is not None:
            w = walk(t)
            require(sorted(w) == list(range(t.numel())), "a flat pass would leave the tensor %s %s", list(t.shape), t.stride())
            walks.append(w)
    if len(walks) == 2:
        require((keys[0] == keys[1]) == (walks[0] == walks[1]), "layouts %s and %s: same key %s, same order %s", ts[0].stride(), ts[1].stride(),
                keys[0] == keys[1], walks[0] == walks[1])
        ctx.nontrivial()
        ctx.label("same", keys[0] == keys[1])


def dense_strides(t):
    out, covered = [], 1
    for s, n in sorted((s, n) for n, s in zip(t.shape, t.stride()) if n != 1):
        out.append((covered, n))
        covered *= n
    return out


CAMPAIGNS = [
    Campaign("update rules", lambda: st.composite(cases)(), check, 700, shards=4),
    Campaign("orthogonalisation", lambda: st.composite(ns_cases)(), check_ns, 400, shards=2),
    Campaign("flat layouts", lambda: st.composite(layout_cases)(), check_layout, 600, shards=2),
]
