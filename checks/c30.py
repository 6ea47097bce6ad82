"""C30: the equivalence tools accept unchanged code and nothing else."""
import contextlib
import copy
import io
import os

import numpy as np
import torch
import yaml
from hypothesis import strategies as st

from vlib import keops, zoo
from vlib.api import Campaign, Reject, require

RULE = ("A case is a snapshot of a model (or of a short training trajectory) taken by the tool and replayed by it on the same code, or on code that differs in one place: "
        "an output, an auxiliary output, a gradient, a state entry, the layout. Others: inputs made by the tools, FLOP counts of generated convolutions, "
        "percentiles. Non-trivial: the replayed code differs, or the inputs have at least two rows.")
ASSUMPTIONS = ["CPU, float32, no compilation", "a difference is at least 1000 times the tolerance or absent"]
BUDGET = {"quick": 40, "thorough": 500}
NEEDS_EXT = True

KEYS = ["*aux"] * 8 + sorted(k for k, v in zoo.ZOO.items() if any(h == w for h, w in v[2]) and not k.startswith(("patv1-board",)))
PLACES = ["same", "same", "value", "policy", "aux", "aux-missing", "aux-extra", "gradient", "gradient-missing", "state", "layout", "nan", "within"]


def entry(key):
    return ("verif_aux", {"dim": 3}, [(5, 5), (6, 6), (7, 7)], {}) if key == "*aux" else zoo.ZOO[key]


def register():
    """A model with every form of auxiliary loss."""
    from model import MODELS

    if "verif_aux" not in MODELS:
        @MODELS.register("verif_aux")
        class Aux(torch.nn.Module):
            def __init__(self, dim=3):
                super().__init__()
                self.conv, self.norm = torch.nn.Conv2d(2, dim, 3, padding=1), torch.nn.BatchNorm2d(dim)
                self.policy, self.heads = torch.nn.Conv2d(dim, 2, 1), torch.nn.ModuleList([torch.nn.Linear(dim, 3) for _ in range(4)])

            def forward(self, data):
                x = torch.nn.functional.dropout(self.norm(self.conv(data["board_input"].float())).tanh(), 0.3, self.training)
                p, v = self.policy(x), [h(x.mean((2, 3))) for h in self.heads]
                return dict(value=v[0], policy=p[:, 0], aux_losses={
                    "scalar": v[1].square().mean(), "head": ("value_loss", v[2]), "both": ("policy_loss", (p[:, 1], v[3]))})


@st.composite
def gates(draw):
    key = draw(st.sampled_from(KEYS))
    size = draw(st.sampled_from([h for h, w in entry(key)[2] if h == w]))
    return dict(model=key, size=size, batch=draw(st.sampled_from([2, 2, 3])), seed=draw(st.integers(0, 1 << 20)), tool=draw(st.sampled_from(["model", "model", "trajectory"])),
                place=draw(st.sampled_from(PLACES)), at=draw(st.integers(0, 1 << 20)), steps=draw(st.integers(1, 3)), sign=draw(st.sampled_from([1, -1])),
                checkpoint=draw(st.booleans()), noise=draw(st.integers(0, 1 << 20)), rtol=draw(st.sampled_from([None, None, 1e-3])))


def leaves(aux):
    """[(path, tensor)] of the tensors of aux_losses, in whatever nesting they come."""
    out = []
    for name, v in (aux or {}).items():
        if isinstance(v, torch.Tensor):
            out.append(((name,), v))
        elif isinstance(v, tuple) and len(v) == 2:
            if isinstance(v[1], torch.Tensor):
                out.append(((name, 1), v[1]))
            elif isinstance(v[1], tuple):
                out += [((name, 1, i), t) for i, t in enumerate(v[1]) if isinstance(t, torch.Tensor)]
    return out


def bump(t, c, size):
    """The tensor with one element moved."""
    flat = torch.zeros(t.numel())
    flat[c["at"] % t.numel()] = size
    return t + flat.reshape(t.shape)


def altered(model, c, done, ref):
    """Makes the model differ in one place; `done` records whether there was such a place."""
    place = c["place"]
    tol = c["rtol"] or 1e-5

    def hook(module, args, out):
        out = dict(out)
        size = c["sign"] * (0.5 if c["tool"] == "trajectory" else 1000 * tol * (1 + float(out["value"].detach().abs().max() + out["policy"].detach().abs().max())))
        if place in ("value", "policy"):
            out[place] = bump(out[place], c, size) if c["tool"] == "model" else out[place] + size
            done.append(1)
        elif place == "nan":
            out["value"] = out["value"] * float("nan")
            done.append(1)
        elif place == "within":
            out["value"] = out["value"] * (1 + 1e-4)
            done.append(1)
        elif place in ("aux", "aux-missing"):
            found = leaves(out.get("aux_losses"))
            if not found:
                return out
            path, t = found[c["at"] % len(found)]
            aux = dict(out["aux_losses"])
            size = c["sign"] * (0.5 if c["tool"] == "trajectory" else 1000 * tol) * (1 + float(t.detach().abs().max()))
            if place == "aux-missing":
                if c["tool"] == "trajectory" and not t.requires_grad and float(t) == 0:
                    return out
                del aux[path[0]]
            else:
                new = bump(t, c, size) if c["tool"] == "model" else t + size
                v = aux[path[0]]
                aux[path[0]] = new if len(path) == 1 else (v[0], new) if len(path) == 2 else (v[0], tuple(new if i == path[2] else x for i, x in enumerate(v[1])))
            out["aux_losses"] = aux
            done.append(1)
        elif place == "aux-extra" and c["tool"] == "model":
            out["aux_losses"] = dict(out.get("aux_losses") or {}, verif_extra=torch.zeros(()))
            done.append(1)
        elif place == "state":
            floats = [b for b in list(model.parameters()) + list(model.buffers()) if b.is_floating_point() and b.numel()]
            t = floats[c["at"] % len(floats)]
            if t.grad_fn is None:
                t.data[tuple(int(i) for i in np.unravel_index(c["at"] // 7 % t.numel(), t.shape))] += 1000 * tol * (1 + float(t.detach().abs().max()))
                done.append(1)
        return out

    if place == "state":
        model.register_forward_hook(hook)
    elif place in ("gradient", "gradient-missing"):
        ps = [(n, p) for n, p in model.named_parameters() if p.requires_grad]
        name, p = ps[c["at"] % len(ps)]

        def change(g):
            done.append(1)
            return g + 1000 * tol * (1 + float(g.abs().max())) if c["tool"] == "model" else torch.where(g > 0, -1.0, 1.0)

        if place == "gradient":
            p.register_hook(change)
        else:
            p.requires_grad_(False)
            if c["tool"] == "model":
                moved = name in ref["grads"]
            else:
                a, b = ref["initial_state"][name], ref["final_state"][name]
                moved = bool(((a - b).abs() > 2 * tol * b.abs() + 2e-6).any())
                if not moved and not torch.equal(a, b):
                    raise Reject("a gradient too small to matter")
            if moved:
                done.append(1)
    elif place == "layout":
        kind = c["at"] % 3
        if kind == 0:
            model.register_buffer("verif_extra", torch.zeros(1))
        elif kind == 1:
            name = list(model.state_dict())[-1]
            owner = model.get_submodule(name.rpartition(".")[0])
            leaf = name.rpartition(".")[2]
            (owner._parameters if leaf in owner._parameters else owner._buffers).pop(leaf)
        else:
            model.register_parameter("verif_extra", torch.nn.Parameter(torch.zeros(2)))
        done.append(1)
    else:
        model.register_forward_hook(hook)
    return model


def run(tool, argv):
    out = io.StringIO()
    parsed = tool.build_parser().parse_args(argv)
    with contextlib.redirect_stdout(out):
        parsed.func(parsed)
    return out.getvalue()


def check_gate(c, ctx):
    from tools import check_model_equivalence, check_training_trajectory, model_perf

    keops.serialise()
    tool = check_model_equivalence if c["tool"] == "model" else check_training_trajectory
    register()
    mt, args, _, flags = entry(c["model"])
    path = os.path.join(ctx.tmp, "deep", "ref.pt")
    argv = ["snapshot", path, "--model-type", mt, "--model-args", yaml.safe_dump(args, default_flow_style=True, width=1 << 20), "--batch-size", str(c["batch"]), "--board-size", str(c["size"]),
            "--seed", str(c["seed"])]
    want = None
    if c["checkpoint"]:
        model = zoo.build(c["model"], c["seed"] + 1) if c["model"] != "*aux" else model_perf.build_initialized_model(mt, args, c["seed"] + 1)
        want = {k: v.clone() for k, v in model.state_dict().items()}
        ckpt = os.path.join(ctx.tmp, "w.pt")
        torch.save({"model": want}, ckpt)
        argv += ["--checkpoint", ckpt]
    if c["tool"] == "trajectory":
        argv += ["--steps", str(c["steps"]), "--learning-rate", "0.01"]
    try:
        run(tool, argv)
    except RuntimeError as e:
        if "does not require grad" in str(e):
            raise Reject("nothing to differentiate")
        raise
    if want is not None:
        have = torch.load(path, weights_only=False)
        have = have["state_dict" if c["tool"] == "model" else "initial_state"]
        require(have.keys() == want.keys() and all(torch.equal(torch.nan_to_num(have[k].double()), torch.nan_to_num(want[k].double())) for k in want),
                "the snapshot does not start from the checkpoint", key="checkpoint")
    ref = torch.load(path, weights_only=False)
    torch.manual_seed(c["noise"])
    np.random.seed(c["noise"] % 1000)
    torch.rand(c["noise"] % 7 + 1)
    done, plain = [], model_perf.build_model
    if c["place"] == "within" and c["model"] != "*aux":     # gradients of quantised models may cancel
        c = dict(c, place="same")
    if c["place"] != "same":
        model_perf.build_model = lambda *a, **k: altered(plain(*a, **k), c, done, ref)
    argv = ["compare", path] + (["--rtol", str(c["rtol"])] if c["rtol"] else [])
    if c["place"] == "within":
        argv = ["compare", path, "--rtol", "0.5", "--atol", "0.5"]
    elif c["rtol"] and c["tool"] == "trajectory":
        argv += ["--state-rtol", str(c["rtol"])]
    try:
        text = run(tool, argv)
        verdict = None
    except AssertionError as e:
        verdict = str(e)
    except RuntimeError as e:
        if c["place"] not in ("layout", "gradient-missing"):
            raise
        verdict = str(e)
    finally:
        model_perf.build_model = plain
    if c["place"] == "within" and c["tool"] == "trajectory":
        raise Reject("small differences grow over a trajectory")
    differs = c["place"] not in ("same", "within") and bool(done)
    if differs:
        require(verdict is not None, "%s: a difference in %s is accepted", c["model"], c["place"], key="accepts")
    else:
        require(verdict is None, "%s: code without difference is refused: %s", c["model"], verdict, key="refuses")
        require("equivalent" in text, "no verdict is printed", key="refuses")
    ctx.label("%s %s" % (c["tool"], c["place"] if differs or c["place"] in ("same", "within") else "same"))
    ctx.nontrivial(differs or c["batch"] > 1)


# ---------------------------------------------------------------- the inputs of the tools

@st.composite
def inputs(draw):
    key = draw(st.sampled_from(KEYS))
    return dict(model=key, size=draw(st.sampled_from([h for h, w in entry(key)[2] if h == w])), batch=draw(st.integers(1, 9)), seed=draw(st.integers(0, 1 << 30)))


def check_inputs(c, ctx):
    from tools import model_perf

    register()
    mt, args, _, flags = entry(c["model"])
    model = model_perf.build_initialized_model(mt, dict(args), c["seed"])
    twin = model_perf.build_initialized_model(mt, dict(args), c["seed"])
    a, b = model.state_dict(), twin.state_dict()
    require(a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a), "%s: one seed gives two models", c["model"], key="inputs")
    n, s = c["batch"], c["size"]
    data = model_perf.make_synthetic_data(mt, model, n, s, c["seed"])
    torch.rand(3)
    again = model_perf.make_synthetic_data(mt, twin, n, s, c["seed"])
    require(data.keys() == again.keys() and all(torch.equal(data[k], again[k]) for k in data), "%s: one seed gives two inputs", c["model"], key="inputs")
    board = data["board_input"]
    require(board.shape == (n, 2, s, s) and bool(((board == 0) | (board == 1)).all()) and int(board.sum(1).max()) <= 1, "two stones share a point", key="inputs")
    require(data["board_size"].tolist() == [[s, s]] * n, "the size is given as %r", data["board_size"].tolist(), key="inputs")
    require(set(data["stm_input"].tolist()) <= {-1.0, 1.0}, "the side to move is %r", data["stm_input"].tolist(), key="inputs")
    require(bool((data["value_target"].sum(1) == 1).all()) and bool((data["policy_target"].flatten(1).sum(1) == 1).all()), "targets are no distributions", key="inputs")
    if "sparse_feature_input" in data:
        x, dim = data["sparse_feature_input"], data["sparse_feature_dim"]
        require(bool((x >= 0).all()) and bool((x < dim[:, :, None, None]).all()), "%s: features outside their dimension", c["model"], key="inputs")
    require(("sparse_feature_input" in data) or not flags.get("sparse"), "%s gets no sparse features", c["model"], key="inputs")
    if mt in ("linennuev1", "mix9svq"):
        from dataset.pipeline.line_encoding import LineEncodingPipeline
        for i in range(n):
            want = LineEncodingPipeline().process(dict(board_input=board[i].numpy(), board_size=np.array([s, s], np.int8)))
            require(np.array_equal(np.asarray(want["line_encoding"]), data["line_encoding"][i].numpy()), "the line codes are not those of the board", key="inputs")
    other = model_perf.make_synthetic_data(mt, model, n, s, c["seed"] + 1)
    require(n * s * s < 20 or not torch.equal(other["board_input"], board), "another seed gives the same boards", key="inputs")
    ctx.nontrivial(n > 1)


# ---------------------------------------------------------------- measures

@st.composite
def convs(draw):
    nd = draw(st.sampled_from([1, 2, 2, 2]))
    g = draw(st.sampled_from([1, 1, 2, 3, 4]))
    return dict(nd=nd, groups=g, cin=g * draw(st.integers(1, 3)), cout=g * draw(st.integers(1, 3)), k=draw(st.integers(1, 3)), stride=draw(st.integers(1, 2)), pad=draw(st.integers(0, 2)),
                dil=draw(st.integers(1, 2)), n=draw(st.integers(1, 3)), size=draw(st.integers(5, 8)), bias=draw(st.booleans()), transposed=draw(st.booleans()),
                gin=draw(st.booleans()), gw=draw(st.booleans()))


def check_conv(c, ctx):
    import torch.nn.functional as F
    from tools.model_perf import make_flop_counter

    if not c["gin"] and not c["gw"]:
        raise Reject("no gradient")
    x = torch.randn((c["n"], c["cin"]) + (c["size"],) * c["nd"], requires_grad=c["gin"])
    shape = (c["cin"], c["cout"] // c["groups"]) if c["transposed"] else (c["cout"], c["cin"] // c["groups"])
    w = torch.randn(shape + (c["k"],) * c["nd"], requires_grad=c["gw"])
    b = torch.randn(c["cout"], requires_grad=c["gw"]) if c["bias"] else None
    fn = getattr(F, "conv%s%dd" % ("_transpose" if c["transposed"] else "", c["nd"]))
    y = fn(x, w, b, stride=c["stride"], padding=c["pad"], dilation=c["dil"], groups=c["groups"]) if not c["transposed"] else fn(
        x, w, b, stride=c["stride"], padding=c["pad"], dilation=c["dil"], groups=c["groups"])
    counter = make_flop_counter()
    with counter:
        y.sum().backward()
    # every multiply-add pairs an input, a weight and an output: the count is that of the forward pass, once per gradient
    cells = (x if c["transposed"] else y).shape[2:]
    macs = c["n"] * int(np.prod(w.shape)) * int(np.prod(cells))
    want = 2 * macs * (int(c["gin"]) + int(c["gw"]))
    have = counter.get_total_flops()
    require(have == want, "the backward pass of the convolution %r counts %d operations instead of %d", c, have, want, key="flops")
    ctx.label("groups", c["groups"] > 1)
    ctx.nontrivial(c["groups"] > 1)


@st.composite
def samples(draw):
    return dict(values=draw(st.lists(st.floats(-1e6, 1e6, allow_nan=False), min_size=1, max_size=30)), q=draw(st.one_of(st.sampled_from([0.0, 0.5, 1.0, 0.95]), st.floats(0, 1))))


def check_percentile(c, ctx):
    from tools.model_perf import percentile

    before = list(c["values"])
    have, want = percentile(c["values"], c["q"]), float(np.quantile(np.array(c["values"]), c["q"]))
    require(abs(have - want) <= 1e-9 * (1 + max(map(abs, before))), "the %r quantile is %r instead of %r", c["q"], have, want, key="percentile")
    require(c["values"] == before, "the measurements were reordered", key="percentile")
    ctx.nontrivial(len(before) > 2)


CAMPAIGNS = [Campaign("gate", gates, check_gate, 500, 8000, shards=5, case_timeout=100),
             Campaign("inputs", inputs, check_inputs, 150, 2500, shards=2),
             Campaign("conv", convs, check_conv, 300, 4000, shards=1),
             Campaign("percentile", samples, check_percentile, 300, 4000, shards=1)]
