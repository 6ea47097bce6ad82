"""C23: a model's output for a sample does not depend on the rest of its batch, nor on padding."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import zoo
from vlib.api import Campaign, require

RULE = ("A case is one of 60 small configurations covering every registered model, with random parameters and statistics, and a batch of random "
        "positions. Non-trivial: the batch has at least two different positions and the output differs between them (batch, stm), or at least one "
        "board is smaller than its canvas (padding, training).")
ASSUMPTIONS = ["float32 on CPU: results that must agree may differ by rounding, and where a quantised network rounds, by single quantisation steps",
               "sparse features and line codes of a row belong to that row's board"]
BUDGET = {"quick": 60, "thorough": 900}

KEYS = sorted(zoo.ZOO)
# Models whose arithmetic contains rounding steps: a last-bit difference between two kernels may flip one of them.
QUANT = tuple(k for k in KEYS if zoo.ZOO[k][0].startswith(("mix", "linennue", "flat_")) and zoo.ZOO[k][0] != "flat_nnue_v1")


def prepare():
    for key in ("square4vq", "mix9svq"):
        model = zoo.build(key, 1)
        shape = zoo.ZOO[key][2][-1]
        with torch.no_grad():
            model(zoo.batch([zoo.sample(key, 1, shape), zoo.sample(key, 2, shape)]))


def run(model, data):
    with torch.no_grad():
        out = model({k: v.clone() for k, v in data.items()})
    return out


def tensors(out):
    return {k: out[k] for k in ("value", "policy", "board_mask") if k in out}


def same_rows(a, b, what, key, quant):
    """Rows of two outputs agree: tightly, or within isolated rounding steps for quantised networks."""
    require(a.keys() == b.keys(), "%s: output keys %r and %r", what, sorted(a), sorted(b))
    for k in a:
        x, y = a[k].double(), b[k].double()
        require(x.shape == y.shape, "%s: %s has shape %r, not %r", what, k, tuple(y.shape), tuple(x.shape))
        scale = max(1.0, float(x.abs().max())) if x.numel() else 1.0
        err = (x - y).abs()
        if quant:
            # a flipped rounding step moves a feature by at most 1/32; a leak from another row moves far more
            bad = (err > 2e-4 * scale).double()
            ok = bool(err.max() <= 0.02 * scale) if x.numel() else True
        else:
            ok = bool(err.max() <= 2e-4 * scale) if x.numel() else True
            bad = err
        require(ok, "%s: %s of model %s changed by %.3g (scale %.3g, %d entries)", what, k, key,
                float(err.max()) if x.numel() else 0, scale, int((bad > 0).sum()))


def take(out, idx):
    return {k: v[idx] for k, v in tensors(out).items()}


def snapshot(model):
    return {k: v.clone() for k, v in model.state_dict().items()}


def unchanged(model, before, what):
    now = model.state_dict()
    require(now.keys() == before.keys(), "%s: the state has other entries", what)
    for k in now:
        require(torch.equal(now[k], before[k]) or (now[k] != now[k]).any(), "%s changed %s", what, k)


def well_formed(out, key, n):
    require(isinstance(out, dict) and "value" in out and "policy" in out, "model %s returned %r", key, type(out))
    for k, v in out.items():
        require(v is not None, "model %s returned None for %s", key, k)
    require(len(out["value"]) == n and len(out["policy"]) == n, "model %s: %d rows in, value %r policy %r out", key, n,
            tuple(out["value"].shape), tuple(out["policy"].shape))
    require(out["value"].ndim == 2 and out["value"].shape[1] in (1, 3), "model %s: value has shape %r", key, tuple(out["value"].shape))


# ------------------------------------------------------------------ batch

@st.composite
def batch_case(draw):
    key = draw(st.sampled_from(KEYS))
    shapes = zoo.ZOO[key][2]
    n = draw(st.integers(1, 6))
    rows = [draw(st.integers(0, 30)) for _ in range(n)]
    return dict(model=key, seed=draw(st.integers(0, 1000)), shape=list(shapes[draw(st.integers(0, len(shapes) - 1))]), rows=rows,
                order=draw(st.permutations(list(range(n)))), others=draw(st.integers(31, 60)), keep=draw(st.integers(0, n - 1)),
                empty=draw(st.booleans()))


def check_batch(case, ctx):
    key = case["model"]
    shape = tuple(case["shape"])
    model = zoo.build(key, case["seed"])
    quant = key in QUANT
    samples = [zoo.sample(key, r, shape, 0 if (case["empty"] and i == 0) else None) for i, r in enumerate(case["rows"])]
    n = len(samples)
    before = snapshot(model)
    data = zoo.batch(samples)
    given = {k: v.clone() for k, v in data.items()}
    with torch.no_grad():
        out = model(data)
    for k in given:
        require(torch.equal(given[k], data[k]), "model %s modified its input %s", key, k)
    well_formed(out, key, n)
    full = tensors(out)
    require(set(data) == set(given), "model %s added or removed inputs", key)
    unchanged(model, before, f"inference with model {key}")
    again = tensors(run(model, data))
    for k in full:
        require(torch.equal(full[k], again[k]), "model %s gives another %s on a second call", key, k)

    order = case["order"]
    perm = tensors(run(model, zoo.batch([samples[i] for i in order])))
    same_rows(take(full, order), perm, "reordering the batch", key, quant)
    for i in range(n):
        one = tensors(run(model, zoo.batch([samples[i]])))
        same_rows(take(full, slice(i, i + 1)), one, f"row {i} alone", key, quant)
    # the same batch size with every other row replaced runs the same kernels: the row comes out the same
    keep = case["keep"]
    mixed = [s if i == keep else zoo.sample(key, case["others"] + i, shape) for i, s in enumerate(samples)]
    other = tensors(run(model, zoo.batch(mixed)))
    same_rows(take(full, slice(keep, keep + 1)), take(other, slice(keep, keep + 1)), "replacing the other rows", key, quant)
    if not zoo.ZOO[key][3].get("vq"):  # vector quantisation looks at the distinct lines of the whole batch
        for k in full:
            require(torch.equal(full[k][keep], other[k][keep]), "%s of row %d of model %s changed by %.3g when the other rows were replaced",
                    k, keep, key, float((full[k][keep] - other[k][keep]).abs().max()))
    doubled = tensors(run(model, zoo.batch(samples + samples)))
    same_rows(full, take(doubled, slice(n, 2 * n)), "doubling the batch", key, quant)
    # the rest of the output describes the same batch
    unchanged(model, before, f"inference with model {key}")
    ctx.label(zoo.ZOO[key][0])
    if n > 1 and len(set(case["rows"])) > 1 and float(full["value"].std(0).max()) > 1e-6:
        ctx.nontrivial()


# ------------------------------------------------------------------ padding

MASKED = [k for k in KEYS if zoo.ZOO[k][3].get("mask")]


@st.composite
def padding_case(draw):
    n = draw(st.integers(1, 5))
    rows = [dict(seed=draw(st.integers(0, 40)), shape=[draw(st.integers(5, 11)), draw(st.integers(5, 11))]) for _ in range(n)]
    return dict(model=draw(st.sampled_from(MASKED)), seed=draw(st.integers(0, 1000)), rows=rows,
                extra=[draw(st.integers(0, 6)), draw(st.integers(0, 6))])


def canvas(case, extra):
    h = max(r["shape"][0] for r in case["rows"]) + extra[0]
    w = max(r["shape"][1] for r in case["rows"]) + extra[1]
    return h, w


def padded(case, size):
    return zoo.batch([zoo.pad(zoo.sample(case["model"], r["seed"], tuple(r["shape"])), size) for r in case["rows"]])


def check_padding(case, ctx):
    key = case["model"]
    model = zoo.build(key, case["seed"])
    tight, wide = canvas(case, (0, 0)), canvas(case, case["extra"])
    a = tensors(run(model, padded(case, tight)))
    b = tensors(run(model, padded(case, wide)))
    for name, out, size in (("tight", a, tight), ("wide", b, wide)):
        require("board_mask" in out, "a mask-aware model returned no board_mask")
        for i, r in enumerate(case["rows"]):
            h, w = r["shape"]
            want = torch.zeros(size)
            want[:h, :w] = 1
            require(torch.equal(out["board_mask"][i].reshape(size).float(), want), "the %s board_mask of row %d is wrong", name, i)
    for i, r in enumerate(case["rows"]):
        h, w = r["shape"]
        alone = tensors(run(model, zoo.batch([zoo.sample(key, r["seed"], (h, w))])))
        for name, out, size in (("tight", a, tight), ("wide", b, wide)):
            got = dict(value=out["value"][i:i + 1], policy=out["policy"][i].reshape(size)[:h, :w])
            want = dict(value=alone["value"], policy=alone["policy"].reshape(h, w))
            same_rows(want, got, f"padding row {i} ({h}x{w}) to {size}", key, False)
    if any(tuple(r["shape"]) != wide for r in case["rows"]):
        ctx.nontrivial()


# ------------------------------------------------------------------ padding while training

def check_training(case, ctx):
    key = case["model"]
    sizes = [canvas(case, (0, 0)), canvas(case, case["extra"])]
    results = []
    for size in sizes:
        model = zoo.build(key, case["seed"], training=True).double()
        data = padded(case, size)
        # the input planes are float32 by contract: run the network in double precision behind them
        plane = model.input_plane
        forward = plane.forward
        plane.forward = lambda *a, _f=forward, **k: tuple(t.double() for t in _f(*a, **k))
        out = model(data)
        loss = out["value"].square().sum()
        for i, r in enumerate(case["rows"]):
            h, w = r["shape"]
            loss = loss + (out["policy"][i].reshape(size)[:h, :w] * (1 + i)).square().mean()
        loss.backward()
        results.append((float(loss.detach()), {n: p.grad.clone() for n, p in model.named_parameters() if p.grad is not None},
                        {n: b.clone() for n, b in model.named_buffers() if b.is_floating_point()}))
    (la, ga, ba), (lb, gb, bb) = results
    require(abs(la - lb) <= 1e-8 * max(1, abs(la)), "the training loss is %.12g on %r and %.12g on %r", la, sizes[0], lb, sizes[1])
    require(ga.keys() == gb.keys(), "padding changes which parameters get a gradient")
    for n in ga:
        scale = max(1.0, float(ga[n].abs().max()))
        require(float((ga[n] - gb[n]).abs().max()) <= 1e-7 * scale, "padding changes the gradient of %s by %.3g", n,
                float((ga[n] - gb[n]).abs().max()))
    for n in ba:
        require(torch.allclose(ba[n], bb[n], rtol=1e-9, atol=1e-9), "padding changes the running statistic %s", n)
    if sizes[0] != sizes[1]:
        ctx.nontrivial()


# ------------------------------------------------------------------ side to move

@st.composite
def stm_case(draw):
    key = draw(st.sampled_from(KEYS))
    shapes = zoo.ZOO[key][2]
    n = draw(st.integers(1, 4))
    return dict(model=key, seed=draw(st.integers(0, 1000)), shape=list(shapes[draw(st.integers(0, len(shapes) - 1))]),
                rows=[draw(st.integers(0, 60)) for _ in range(n)], flip=draw(st.lists(st.booleans(), min_size=n, max_size=n)))


def check_stm(case, ctx):
    key = case["model"]
    model_type, args, _, flags = zoo.ZOO[key]
    model = zoo.build(key, case["seed"])
    quant = key in QUANT
    samples = [zoo.sample(key, r, tuple(case["shape"])) for r in case["rows"]]
    data = zoo.batch(samples)
    base = tensors(run(model, data))
    flipped = dict(data)
    flip = torch.tensor(case["flip"])
    flipped["stm_input"] = torch.where(flip[:, None], -data["stm_input"], data["stm_input"])
    out = tensors(run(model, flipped))
    if not flags.get("stm"):
        for k in base:
            require(torch.equal(base[k], out[k]), "model %s takes no side to move, but its %s depends on it", key, k)
        if flip.any():
            ctx.nontrivial()
        return
    same_rows(take(base, ~flip), take(out, ~flip), "changing another row's side to move", key, quant)
    if flip.any():
        changed = any(float((base[k][flip] - out[k][flip]).abs().max()) > 1e-7 for k in base)
        if model_type != "linear" or float(data["board_input"].sum()) > 0:
            ctx.label("moved" if changed else "same")
        if changed:
            ctx.nontrivial()
    plane = getattr(model, "input_plane", None)
    if plane is not None and not flags.get("sparse"):
        got = plane(data)
        got = got[0] if isinstance(got, tuple) else got
        want = torch.cat([data["board_input"].float(),
                          data["stm_input"].reshape(-1, 1, 1, 1).expand(-1, 1, *case["shape"])], 1)
        require(torch.equal(got, want[:, :got.shape[1]]), "the input plane of %s is not the two stone planes and the side to move", key)
    if args.get("fixed_side_input") and not args.get("two_side"):
        # Colours are fixed planes here: swapping the colours and the side to move is the same game.
        swapped = dict(data)
        swapped["board_input"] = data["board_input"].flip(1)
        order = [4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]
        swapped["sparse_feature_input"] = data["sparse_feature_input"][:, order]
        swapped["stm_input"] = -data["stm_input"]
        same_rows(base, tensors(run(model, swapped)), "swapping colours and side to move", key, quant)


# ------------------------------------------------------------------ linear models: value and policy by definition

@st.composite
def linear_case(draw):
    n = draw(st.integers(1, 4))
    return dict(args=dict(has_draw_value=draw(st.booleans()), two_side=draw(st.booleans()), fixed_side_input=draw(st.booleans())),
                seed=draw(st.integers(0, 1000)), shape=[draw(st.integers(5, 9)), draw(st.integers(5, 9))],
                rows=[draw(st.integers(0, 60)) for _ in range(n)])


def check_linear(case, ctx):
    from model import build_model

    torch.manual_seed(case["seed"])
    model = build_model("linear", **case["args"]).eval()
    with torch.no_grad():
        model.policy_stm_coef.copy_(torch.tensor([0.7, -1.3]))
    samples = [zoo.sample("linear", r, tuple(case["shape"])) for r in case["rows"]]
    out = run(model, zoo.batch(samples))
    table = model.table.weight.detach().double().numpy()
    a = case["args"]
    for i, s in enumerate(samples):
        code = s["sparse_feature_input"][10:12].astype(int)
        codes = [code[0], code[1] + (2380 if a["two_side"] else 0)]
        empty = s["board_input"].sum(0) == 0
        entry = [table[c] * empty[..., None] for c in codes]          # per side (H, W, 2 or 3)
        value = [e[..., 1:].sum((0, 1)) for e in entry]
        me, opp = 0, 1
        if a["fixed_side_input"] and s["stm_input"][0] > 0:           # white to move: plane 1 is the side to move
            me, opp = 1, 0
        if a["has_draw_value"]:
            want = [value[me][0], value[opp][0], value[0][1] + value[1][1]]
        else:
            want = [value[me][0] - value[opp][0]]
        policy = 0.7 * entry[me][..., 0] - 1.3 * entry[opp][..., 0]
        require(np.allclose(out["value"][i].numpy(), want, atol=2e-3), "value of row %d is %r, the tables say %r", i, out["value"][i].tolist(), want)
        require(np.allclose(out["policy"][i].numpy(), policy, atol=1e-4), "policy of row %d differs from the tables", i)
    if len(samples) > 1:
        ctx.nontrivial()


CAMPAIGNS = [
    Campaign("batch", batch_case, check_batch, quick=1000, thorough=20000, shards=4),
    Campaign("padding", padding_case, check_padding, quick=120, thorough=6000, shards=1),
    Campaign("training", padding_case, check_training, quick=80, thorough=4000, shards=1),
    Campaign("stm", stm_case, check_stm, quick=300, thorough=8000, shards=2),
    Campaign("linear", linear_case, check_linear, quick=100, thorough=4000, shards=1),
]
