"""C19: learning rate schedules, gradient clipping and weight clipping follow their definitions."""
import math
import os

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from utils.training_utils import (apply_weight_clipping, build_lr_scheduler, build_optimizer, clip_grad_norm,
                                  resolve_weight_clipping)
from vlib import data, train, zoo
from vlib.api import Campaign, Reject, require

RULE = ("A case is a schedule with its parameters, an optimizer and save points; or a set of gradients with a limit; or weights (with virtual weights) "
        "and clipping groups; or a model of the zoo with scaled weights; or a whole training run with a resume. Non-trivial: the rate, a gradient or a "
        "weight was really changed by the schedule or the clipping.")
ASSUMPTIONS = ["rates are compared to the closed form to 1e-9 of the largest rate (the library evaluates them recursively)",
               "gradients are compared to a float64 reference to 1e-5 relative",
               "weights are clipped at the start of every training step (the weights saved after the last step may lie outside)"]
BUDGET = {"quick": 40, "thorough": 600}
NEEDS_EXT = True


def rate(case, lr, k):
    """The learning rate of the step that follows k completed ones."""
    kind, args = case["schedule"]
    if kind == "constant":
        return lr
    if kind == "step":
        return lr * args.get("step_gamma", 0.9) ** (k // args.get("step_size", 50000))
    low = args.get("eta_min", 1e-5)
    return low + (lr - low) * (1 + math.cos(math.pi * k / case["iterations"])) / 2


def schedules(draw):
    kind = draw(st.sampled_from(["constant", "step", "cosine"]))
    args = {}
    if kind == "step":
        args["step_size"] = draw(st.integers(1, 7))
        if draw(st.booleans()):
            args["step_gamma"] = draw(st.sampled_from([0.5, 0.99, 1.0, 0.1]))
    if kind == "cosine" and draw(st.booleans()):
        args["eta_min"] = draw(st.sampled_from([0.0, 1e-6, 1e-3]))
    return [kind, args]


@st.composite
def schedule_case(draw):
    n = draw(st.integers(1, 30))
    return dict(schedule=schedules(draw), iterations=n, lr=draw(st.sampled_from([1e-3, 0.1, 1.0, 3e-4])),
                optimizer=draw(st.sampled_from(["sgd", "adamw", "muon-adamw", "sgd-nesterov"])),
                steps=draw(st.integers(1, n)), restores=draw(st.lists(st.integers(0, n), max_size=3, unique=True)))


def schedule_check(case, ctx):
    lr = case["lr"]

    def build():
        torch.manual_seed(0)
        model = nn.Sequential(nn.Linear(3, 2), nn.Linear(2, 2))
        opt = build_optimizer(case["optimizer"], model, lr)
        kind, args = case["schedule"]
        return model, opt, build_lr_scheduler(opt, kind, case["iterations"], last_it=-1, **args)

    model, opt, sched = build()
    distinct = set()
    for k in range(case["steps"]):
        if k in case["restores"]:
            saved = opt.state_dict(), sched.state_dict()
            rates = [g["lr"] for g in opt.param_groups]
            model, opt, sched = build()
            opt.load_state_dict(saved[0])
            sched.load_state_dict(saved[1])
            for g, value in zip(opt.param_groups, rates):
                g["lr"] = value
        want = rate(case, lr, k)
        for g in opt.param_groups:
            require(abs(float(g["lr"]) - want) <= 1e-9 * max(lr, want), "rate before step %d is %r, the schedule gives %r", k, g["lr"], want, key="rate")
        distinct.add(round(want, 12))
        for p in model.parameters():
            p.grad = torch.ones_like(p)
        opt.step()
        sched.step()
    ctx.label(case["schedule"][0])
    ctx.nontrivial(len(distinct) > 1 or case["schedule"][0] == "constant")
    try:
        build_lr_scheduler(opt, "no such schedule", case["iterations"])
    except ValueError:
        pass
    else:
        require(False, "an unknown schedule was accepted")


# ---------------------------------------------------------------------------------------------------------------------
SHAPES = [[3], [2, 4], [1], [], [2, 3, 3, 3], [17]]


@st.composite
def grad_case(draw):
    n = draw(st.integers(0, 5))
    return dict(seed=draw(st.integers(0, 999)), shapes=[draw(st.sampled_from(SHAPES)) for _ in range(n)],
                missing=draw(st.lists(st.integers(0, 4), max_size=2)), wide=draw(st.lists(st.integers(0, 4), max_size=1)),
                scale=draw(st.sampled_from([0.0, 1e-6, 0.01, 1.0, 100.0, 1e6])), limit=draw(st.sampled_from([1e-4, 0.5, 1.0, 10.0, "inf"])),
                norm=draw(st.sampled_from([2.0, 1.0, "inf"])), value=draw(st.sampled_from([None, 0.1, 1.0])),
                through=draw(st.sampled_from(["function", "trainer", "trainer-none"])), generator=draw(st.booleans()))


def grad_check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    params, raw = [], []
    for i, shape in enumerate(case["shapes"]):
        p = nn.Parameter(torch.zeros(shape, dtype=torch.float64 if i in case["wide"] else torch.float32))
        g = rng.standard_normal(shape) * case["scale"] * rng.choice([1.0, 1e-3])
        params.append(p)
        raw.append(None)
        if i not in case["missing"]:
            p.grad = torch.tensor(g, dtype=p.dtype)
            raw[i] = p.grad.numpy().astype(np.float64)
    if case["through"] != "function" and case["value"] is not None and all(g is None for g in raw):
        raise Reject("the library's value clipping wants a gradient; training always has one")
    limit, kind = float(case["limit"]), float(case["norm"])
    if case["through"] == "function":
        total = clip_grad_norm(list(params), limit, kind)
        value = None
    else:
        from accelerate import Accelerator
        from trainer.base import BaseTrainer

        self = BaseTrainer.__new__(BaseTrainer)
        self.accelerator = Accelerator(cpu=True)
        self.clip_grad_norm = None if case["through"] == "trainer-none" else limit
        self.clip_grad_value = value = case["value"]
        if self.clip_grad_norm is None:
            limit = math.inf
        kind = 2.0
        total = self._clip_gradients(iter(params) if case["generator"] else params)
    flat = np.concatenate([g.ravel() for g in raw if g is not None] + [np.zeros(0)])
    norm = float(np.linalg.norm(flat, kind)) if flat.size else 0.0
    tol = 1e-5
    require(abs(float(total) - norm) <= tol * norm + 1e-30, "reported norm %r, expected %r", float(total), norm, key="norm")
    coef = min(1.0, limit / (norm + 1e-6))
    got = []
    for p, g in zip(params, raw):
        require((p.grad is None) == (g is None), "a missing gradient appeared or one vanished", key="missing")
        if g is None:
            continue
        want = g * coef
        if value is not None:
            want = np.clip(want, -value, value)
        have = p.grad.numpy().astype(np.float64)
        near = tol * np.abs(want) + 1e-30
        if limit / (norm + 1e-6) > 1 + 1e-4:
            near = 0 if value is None else 1e-7 * np.abs(want)
        require(np.all(np.abs(have - want) <= near), lambda: f"clipped gradient {have!r}, expected {want!r}", key="grad")
        got.append(have.ravel())
    after = float(np.linalg.norm(np.concatenate(got + [np.zeros(0)]), kind)) if got else 0.0
    require(after <= limit * (1 + tol), "norm after clipping is %r, the limit %r", after, limit, key="limit")
    ctx.label("scaled", coef < 1)
    ctx.label("value clipped", value is not None and bool((np.abs(flat * coef) > value).any()))
    ctx.nontrivial(coef < 1 or (value is not None and bool((np.abs(flat * coef) > value).any())))


# ---------------------------------------------------------------------------------------------------------------------
@st.composite
def weight_case(draw):
    groups = []
    for _ in range(draw(st.integers(1, 3))):
        params = []
        for _ in range(draw(st.integers(1, 3))):
            nd = draw(st.integers(1, 4))
            shape = [draw(st.integers(1, 3)) for _ in range(nd)]
            params.append([shape, [draw(st.integers(1, 3)) for _ in range(nd)]])
        low = draw(st.sampled_from([-1.0, -0.5, -128 / 64, 0.0]))
        groups.append(dict(params=params, low=low, high=draw(st.sampled_from([127 / 128, 0.5, 32767 / 65536, 127 / 64])), virtual=draw(st.booleans())))
    return dict(seed=draw(st.integers(0, 999)), groups=groups, scale=draw(st.sampled_from([0.1, 1.0, 5.0])), times=draw(st.integers(1, 2)))


def weight_check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    named, spec, plan = [], [], []

    def numbers(shape):
        x = (rng.standard_normal(shape) * case["scale"]).astype(np.float32)
        edge = rng.random(shape) < 0.2
        return np.where(edge, np.round(x * 128).astype(np.float32) / 128, x).astype(np.float32)

    for gi, g in enumerate(case["groups"]):
        names, vnames = [], []
        for pi, (shape, rep) in enumerate(g["params"]):
            full = [a * b for a, b in zip(shape, rep)] if g["virtual"] else shape
            x = numbers(full)
            names.append(f"g{gi}p{pi}")
            named.append((names[-1], nn.Parameter(torch.from_numpy(x.copy()))))
            v = None
            if g["virtual"]:
                v = numbers(shape)
                vnames.append(f"g{gi}v{pi}")
                named.append((vnames[-1], nn.Parameter(torch.from_numpy(v.copy()))))
                v = np.tile(v, rep)
            plan.append((named[-2 if g["virtual"] else -1][1], x, v, g["low"], g["high"]))
        entry = dict(params=names, min_weight=g["low"], max_weight=g["high"])
        if g["virtual"]:
            entry["virtual_params"] = vnames
        spec.append(entry)
    before = {n: p.detach().clone() for n, p in named}
    resolved = resolve_weight_clipping(iter(named), spec)
    for _ in range(case["times"]):
        apply_weight_clipping(resolved)
    touched = 0
    for p, x, v, low, high in plan:
        got = p.detach().numpy()
        total = x if v is None else (x.astype(np.float64) + v)
        new = got if v is None else (got.astype(np.float64) + v)
        slack = 0 if v is None else 1e-6 * (1 + np.abs(v))
        low32, high32 = (np.float32(low), np.float32(high)) if v is None else (low, high)
        require(np.all(new >= low32 - slack) and np.all(new <= high32 + slack), lambda: f"weights {got!r} (+{v!r}) outside [{low}, {high}]", key="bounds")
        inside = (total >= low32 + slack) & (total <= high32 - slack)
        require(np.array_equal(got[inside], x[inside]), lambda: f"in-range weights changed: {x!r} -> {got!r}", key="untouched")
        outside = ~inside
        want = np.clip(total, low32, high32) - (0 if v is None else v)
        require(np.all(np.abs(got[outside] - want[outside]) <= np.broadcast_to(slack, got.shape)[outside] * 2), "a weight was not moved to the bound it crossed",
                key="nearest")
        touched += int(outside.sum())
        require(p.requires_grad and p.is_leaf, "a clipped parameter lost its place in the graph", key="leaf")
    clipped = {n for e in spec for n in e["params"]}
    for n, p in named:
        require(n in clipped or torch.equal(p.detach(), before[n]), "%s was changed although it is not clipped", n, key="others")
    ctx.label("virtual", any(g["virtual"] for g in case["groups"]))
    ctx.nontrivial(touched > 0)
    broken = [dict(e) for e in spec]
    broken[0]["virtual_params"] = broken[0]["params"] + broken[0]["params"][:1]
    for bad in (broken, [dict(spec[0], params=["no such parameter"])]):
        try:
            resolve_weight_clipping(iter(named), bad)
        except (ValueError, KeyError):
            pass
        else:
            require(False, "clipping groups that cannot be resolved were accepted: %r", bad)


# ---------------------------------------------------------------------------------------------------------------------
CLIPPED = ["hash7x7", "hash7x7-sub", "hashconv", "ladder1", "ladder2", "ladder3", "linennue", "mix7", "mix7-stm", "mix8", "mix8-stm", "mix9", "mix9-one",
           "mix9-plain", "mix9s", "mix9s-stm", "mix10", "mix10-norm", "pos3x3", "pos3x4", "pos3x4-stride", "square1", "square2", "square3", "square4",
           "square4-unit"]
VQ = ["mix9svq", "mix9svq-2", "square4vq"]


def zoo_cases():
    return [dict(model=key, seed=1, scale=scale) for key in CLIPPED for scale in (1.0, 20.0)]


def zoo_check(case, ctx):
    import sys

    import utils.quant_utils as quant

    key = case["model"]
    model = zoo.build(key, case["seed"], scale=case["scale"])
    groups = getattr(model, "weight_clipping", None)
    if groups is None:
        raise Reject("no clipping")
    before = {n: p.detach().clone() for n, p in model.named_parameters()}
    owner = {p.data_ptr(): n for n, p in model.named_parameters()}
    original, calls = quant.fake_quant, []

    def record(x, *args, **kwargs):
        calls.append((x, args, kwargs))
        return original(x, *args, **kwargs)

    places = [m for m in list(sys.modules.values()) if getattr(m, "fake_quant", None) is original]
    for m in places:
        m.fake_quant = record
    try:
        with torch.no_grad():
            shapes = zoo.ZOO[key][2]
            model(zoo.batch([zoo.sample(key, 1, shapes[-1])]))
    finally:
        for m in places:
            m.fake_quant = original
    apply_weight_clipping(resolve_weight_clipping(model.named_parameters(), groups))
    after = dict(model.named_parameters())
    clipped = {}
    for g in groups:
        require("virtual_params" not in g or g["virtual_params"], "empty virtual group")
        for n in g["params"]:
            clipped.setdefault(n, []).append(g)
    moved = 0
    for n, p in after.items():
        x, y = before[n], p.detach()
        if n not in clipped:
            require(torch.equal(x, y), "%s is not clipped and changed", n, key="others")
            continue
        if any("virtual_params" in g for g in clipped[n]):
            continue
        low, high = max(g["min_weight"] for g in clipped[n]), min(g["max_weight"] for g in clipped[n])
        require(torch.equal(y, x.clamp(low, high)), "%s is not the weight limited to [%r, %r]", n, low, high, key="clamp")
        moved += int((x != y).sum())
    for x, args, kwargs in calls:
        name = owner.get(x.data_ptr())
        bound = dict(zip(["scale", "num_bits"], args), **kwargs)
        scale, bits = bound.get("scale", 128), bound.get("num_bits", 8)
        if name is None or bits is None or tuple(x.shape) != tuple(before[name].shape):
            continue
        p = after[name].detach()
        if name.endswith("bias") and bits > 8:
            continue  # biases use wide accumulators; nothing clips them
        low, high = -2 ** (bits - 1) / scale, (2 ** (bits - 1) - 1) / scale
        require(float(p.min()) >= low and float(p.max()) <= high, "%s: %s lies in [%r, %r] after clipping, its %d-bit code covers [%r, %r]", key, name,
                float(p.min()), float(p.max()), bits, low, high, key="quantised range")
        if bits == 8:
            ctx.label("8-bit weight")
    ctx.label("moved", moved > 0)
    ctx.nontrivial(bool(clipped))


@st.composite
def zoo_case(draw):
    return dict(model=draw(st.sampled_from(CLIPPED)), seed=draw(st.integers(2, 99)), scale=draw(st.sampled_from([1.0, 5.0, 50.0])))


# ---------------------------------------------------------------------------------------------------------------------
@st.composite
def run_case(draw):
    n = draw(st.integers(2, 9))
    return dict(schedule=schedules(draw), iterations=n, lr=draw(st.sampled_from([0.05, 0.5])), seed=draw(st.integers(0, 99)),
                optimizer=draw(st.sampled_from(["sgd", "adamw", "muon-adamw"])), accumulate=draw(st.sampled_from([1, 1, 2])),
                norm=draw(st.sampled_from([None, 0.01, 0.3])), value=draw(st.sampled_from([None, None, 0.02])),
                clip=draw(st.sampled_from([None, 0.02, 0.2])), stop=draw(st.lists(st.integers(1, n), max_size=2, unique=True)))


class Stop(Exception):
    pass


def run_check(case, ctx):
    torch.set_num_threads(1)
    path = os.path.join(ctx.tmp, "a.npz")
    data.save_npz(path, data.processed_arrays(np.random.default_rng(case["seed"]), 24, 7, 7, 0))
    stops = sorted(case["stop"])
    trace = []

    def session(stop):
        trainer = train.trainer(rundir=os.path.join(ctx.tmp, "run"), iterations=case["iterations"], batch_size=2, random_seed=case["seed"],
                                gradient_accumulation_steps=case["accumulate"], dataset_args=dict(boardsizes=[(7, 7)]),
                                dataset_type="batched_processed_katago_numpy", train_datas=[path], model_type="verif_tiny",
                                model_args=dict(seed=3, clip=case["clip"]), temp_save_interval=1, save_interval=1000, learning_rate=case["lr"],
                                optim_type=case["optimizer"], lr_scheduler_type=case["schedule"][0], lr_scheduler_args=case["schedule"][1],
                                clip_grad_norm=case["norm"], clip_grad_value=case["value"], weight_decay=0.0)
        raw, state = {}, {"at": -1}

        def begin(model, batch):
            it = trainer.state.iteration
            if it == stop:
                raise Stop()
            state["model"] = model
            if state["at"] != it:
                state["at"] = it
                if case["clip"] is not None:
                    for n in ("conv.weight", "value.weight"):
                        p = dict(model.named_parameters())[n].detach()
                        require(float(p.min()) >= -np.float32(case["clip"]) and float(p.max()) <= np.float32(case["clip"] / 2),
                                "step %d used weights outside the clipping bounds", it, key="run weights")
                        if state.get("stepped") and n in state["stepped"]:
                            want = state["stepped"][n].clamp(-case["clip"], case["clip"] / 2)
                            require(torch.equal(p, want), "weights of step %d are not the previous ones limited to the bounds", it, key="run weights")
                            ctx.label("weight clipped", not torch.equal(want, state["stepped"][n]))

        def stepped(opt, args, kwargs):
            it = trainer.state.iteration
            trace.append((it, [float(g["lr"]) for g in opt.param_groups]))
            grads = {id(p): p.grad for g in opt.param_groups for p in g["params"] if p.grad is not None}
            for g in opt.param_groups:
                for p in g["params"]:
                    if p.grad is not None:
                        state.setdefault("given", {})[id(p)] = p.grad.detach().clone()
            del grads

        model = trainer._unwrap(trainer.model)
        model.seen = begin
        params = dict(model.named_parameters())
        for p in params.values():
            if p.requires_grad:
                p.register_post_accumulate_grad_hook(lambda p: raw.__setitem__(id(p), p.grad.detach().clone()))

        # observe the optimizer's step from outside: gradients and rate as the update sees them
        optimizer = trainer.optimizer
        inner = getattr(optimizer, "optimizer", optimizer)
        step = inner.step

        def watched(*args, **kwargs):
            it = trainer.state.iteration
            stepped(inner, args, kwargs)
            given = state.pop("given", {})
            flat = [raw[id(p)].double().numpy().ravel() for p in params.values() if id(p) in raw]
            norm = float(np.linalg.norm(np.concatenate(flat)))
            limit = math.inf if case["norm"] is None else case["norm"]
            coef = min(1.0, limit / (norm + 1e-6))
            for n, p in params.items():
                if id(p) not in raw or id(p) not in given:
                    continue
                want = raw[id(p)].double().numpy() * coef
                if case["value"] is not None:
                    want = np.clip(want, -case["value"], case["value"])
                require(np.allclose(given[id(p)].double().numpy(), want, rtol=1e-4, atol=1e-9), "gradient of %s at step %d is not the clipped one", n, it,
                        key="run gradient")
            ctx.label("gradient clipped", coef < 1)
            result = step(*args, **kwargs)
            state["stepped"] = {n: p.detach().clone() for n, p in params.items()}
            raw.clear()
            return result

        inner.step = watched
        with train.quiet():
            try:
                trainer.run()
            except Exception as exc:
                if "Stop" not in repr(exc) and "Stop" not in str(exc):
                    raise
                return False
        return True

    done = False
    for stop in stops + [None]:
        done = session(stop) or done
        if done:
            break
    require(done, "training did not reach its last iteration")
    require(sorted({it for it, _ in trace}) == list(range(case["iterations"])) or sorted({it for it, _ in trace}) == list(range(1, case["iterations"] + 1)),
            lambda: f"iterations trained: {[it for it, _ in trace]}", key="run iterations")
    first = min(it for it, _ in trace)
    for it, rates in trace:
        want = rate(case, case["lr"], it - first)
        for have in rates:
            require(abs(have - want) <= 1e-9 * max(case["lr"], want), "step %d used the rate %r, the schedule gives %r", it, have, want, key="run rate")
    ctx.label("resumed", bool(stops))
    ctx.label(case["schedule"][0])
    ctx.nontrivial(case["schedule"][0] != "constant" or case["norm"] is not None or case["clip"] is not None)


CAMPAIGNS = [Campaign("schedule", schedule_case, schedule_check, quick=300, thorough=4000, shards=1),
             Campaign("gradient clipping", grad_case, grad_check, quick=500, thorough=8000, shards=2),
             Campaign("weight clipping", weight_case, weight_check, quick=300, thorough=5000, shards=1),
             Campaign("model bounds", zoo_case, zoo_check, quick=40, thorough=600, shards=2, exhaustive=zoo_cases),
             Campaign("training runs", run_case, run_check, quick=60, thorough=1500, shards=4)]
