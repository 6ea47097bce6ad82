"""C24: quantisation, aggregation, hashing and vector-quantisation operators match their definitions."""
import math
import os

import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from vlib import keops
from vlib.api import Campaign, require

RULE = ("A case is a set of operator arguments: values (with ties, range limits and out-of-range entries), shapes, scales, strides and options, or a "
        "history of training batches for a codebook. Non-trivial: a value needs rounding or clamping; a shape is not a multiple of the operator's "
        "block; a code is chosen among several; the codebook moved.")
ASSUMPTIONS = ["CPU kernels (the CUDA-only search and EMA kernels cannot run here)", "float32 unless stated; tolerance 1e-4 relative where sums are involved",
               "ties between equally near codes may be broken either way"]
BUDGET = {"quick": 60, "thorough": 900}

DIM = 4


LEAST = 1 if os.environ.get("VERIF_TIER") == "thorough" else 2   # single rows and single codes need kernels of their own


def prepare():
    """Compile each KeOps formula once, in parallel, before the shards use them."""
    jobs = [("step", dict(use_cosine_sim=c, entropy_reg_weight=0.1), back, 3, 3) for c in ((False,) if LEAST > 1 else (False, True)) for back in ("embed", "input")]
    jobs += [("step", dict(use_cosine_sim=c, entropy_reg_weight=0.0, stochastic_sampling=True), "", 3, 3) for c in (False, True)]
    jobs += [("step", dict(use_cosine_sim=c, entropy_reg_weight=e), "", size, n) for c in (False, True) for e in (0.0, 0.1)
             for size in {LEAST, 3} - {2} for n in {LEAST, 3} - {2}] + [("means", False), ("means", True)]
    pids = []
    for job in jobs:
        pid = os.fork()
        if pid == 0:
            try:
                from accelerate.state import PartialState

                PartialState()
                keops.serialise()
                if job[0] == "means":
                    from model.vq import kmeans
                    kmeans(torch.randn(6, DIM), 3, 2, job[1])
                    continue
                _, opt, back, size, n = job
                vq = make_vq(dict(opt, kmeans_init=False, ema_update=back != "embed"), size).train(back != "eval")
                _, info = vq(torch.randn(n, DIM, requires_grad=back == "input"))
                if back and back != "eval":
                    info["loss"].backward()
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)


def close(a, b, rtol=1e-4, atol=1e-5):
    a, b = torch.as_tensor(a).detach().double(), torch.as_tensor(b).detach().double()
    return a.shape == b.shape and bool(((a - b).abs() <= atol + rtol * torch.maximum(a.abs(), b.abs())).all())


def gen(seed):
    return torch.Generator().manual_seed(seed)


def randn(shape, g, scale=1.0):
    return torch.randn(tuple(shape), generator=g) * scale


# ------------------------------------------------------------------ fake quantisation

@st.composite
def fake_case(draw):
    bits = draw(st.sampled_from([None, 4, 8, 16, 32]))
    scale = draw(st.sampled_from([1, 8, 32, 100, 128, 255, 1024, 16384, 65536]))
    signed = draw(st.booleans()) if bits else True
    values = []
    hi = (2 ** ((bits or 16) - (1 if signed else 0)) - 1) / scale
    for _ in range(draw(st.integers(1, 12))):
        kind = draw(st.sampled_from(["level", "half", "near", "range", "out", "any"]))
        level = draw(st.integers(-300, 300))
        if kind == "level":
            v = level / scale
        elif kind == "half":
            v = (level + 0.5) / scale
        elif kind == "near":
            v = np.nextafter(np.float32((level + 0.5) / scale), np.float32(draw(st.sampled_from([-1e9, 1e9]))))
        elif kind == "range":
            v = draw(st.sampled_from([hi, -hi - 1 / scale, hi + 0.4 / scale, hi + 0.6 / scale, -hi - 1.6 / scale]))
        elif kind == "out":
            v = draw(st.sampled_from([3 * hi, -3 * hi - 5 / scale, 1.5 * hi]))
        else:
            v = draw(st.floats(-1000, 1000, width=32))
        values.append(float(np.float32(v)))
    return dict(bits=bits, scale=scale, signed=signed, floor=draw(st.booleans()), values=values)


def bounds(bits, signed):
    return (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)


def check_fake(case, ctx):
    from utils.quant_utils import fake_quant

    x = torch.tensor(case["values"], requires_grad=True)
    scale, bits = case["scale"], case["bits"]
    kw = dict(scale=scale, num_bits=bits, signed=case["signed"], floor=case["floor"])
    y = fake_quant(x, **kw)
    up = torch.arange(1.0, len(x) + 1)
    y.backward(up)
    xs = x.detach().double().numpy()
    ys = y.detach().double().numpy()
    level = ys * scale
    tiny = np.abs(level) * 2e-7
    require((np.abs(level - np.rint(level)) <= tiny + 1e-9).all(), "levels %r are not whole", level.tolist())
    level = np.rint(level)
    lo, hi = (-math.inf, math.inf) if bits is None else bounds(bits, case["signed"])
    slack = 128 if bits == 32 else 0                     # the 32 bit limit itself is not a float32
    require((level >= lo - slack).all() and (level <= hi + slack).all(), "levels %r leave [%r, %r]", level.tolist(), lo, hi)
    want = np.clip(xs * scale, lo, hi)
    eps = np.abs(want) * 3e-7
    if case["floor"]:
        require((level <= want + eps).all() and (level >= want - 1 - eps).all(), "floor of %r gives %r", want.tolist(), level.tolist())
    else:
        require((np.abs(level - want) <= 0.5 + eps).all(), "rounding %r gives %r", want.tolist(), level.tolist())
    ref = np.clip(xs.astype(np.float32), np.float32(lo / scale), np.float32(hi / scale)) if bits is not None else xs.astype(np.float32)
    ref = ref * np.float32(scale)
    ref = (np.floor(ref) if case["floor"] else np.round(ref)) / np.float32(scale)
    require(np.array_equal(ref.astype(np.float32), y.detach().numpy()), "fake_quant(%r) = %r, definition gives %r", case["values"], y.tolist(), ref.tolist())
    inside = (xs * scale > lo + eps + slack) & (xs * scale < hi - eps - slack)
    outside = (xs * scale < lo - eps - slack) | (xs * scale > hi + eps + slack)
    g = x.grad.numpy()
    require((g[inside] == up.numpy()[inside]).all(), "the gradient inside the range is %r, not the incoming one", g.tolist())
    require((g[outside] == 0).all(), "the gradient outside the range is %r, not zero", g.tolist())
    if not case["floor"]:
        again = fake_quant(y.detach(), **kw)
        require(torch.equal(again, y.detach()), "quantising twice moves %r to %r", y.tolist(), again.tolist())
    if (np.abs(want - np.rint(want)) > 1e-6).any() or outside.any():
        ctx.nontrivial()


# ------------------------------------------------------------------ board regions

@st.composite
def regions_case(draw):
    return dict(b=draw(st.integers(1, 3)), c=draw(st.integers(1, 3)), h=draw(st.integers(3, 22)), w=draw(st.integers(3, 22)),
                seed=draw(st.integers(0, 999)), lattice=draw(st.booleans()))


def thirds(n):
    """The board is cut into near-equal thirds, the same from both ends."""
    q, r = divmod(n, 3)
    sizes = {0: (q, q, q), 1: (q, q + 1, q), 2: (q + 1, q, q + 1)}[r]
    a = np.repeat([0, 1, 2], sizes)
    assert (a == 2 - a[::-1]).all()
    return a


def check_regions(case, ctx):
    from model import ops

    shape = (case["b"], case["c"], case["h"], case["w"])
    g = gen(case["seed"])
    x = torch.randint(-4000, 4000, shape, generator=g).float() / 128 if case["lattice"] else randn(shape, g, 10)
    rows, cols = thirds(case["h"]), thirds(case["w"])
    region = rows[:, None] * 3 + cols[None, :]
    ids = torch.from_numpy(region).float().expand(1, 1, -1, -1)
    for r, part in enumerate(ops.split_3x3_regions(ids)):
        require(part.numel() == int((region == r).sum()) and bool((part == r).all()), "region %d of a %dx%d board holds other cells", r, case["h"], case["w"])
    xn = x.double().numpy()
    sums, means, quant = ops.sum_3x3_regions(x), ops.mean_3x3_regions(x), ops.quantized_sum_3x3_regions(x)
    for r in range(9):
        s = xn[:, :, region == r].sum(-1)
        require(close(sums[r], s, atol=1e-2 if not case["lattice"] else 1e-5), "sum of region %d", r)
        require(close(means[r], s / (region == r).sum(), atol=1e-3), "mean of region %d", r)
        if case["lattice"]:
            want = np.floor(np.rint(s * 128).astype(np.int64) / 32) / 128       # arithmetic shift by 5
            require(close(quant[r], want, rtol=0, atol=1e-7), "quantised sum of region %d is %r, >>5 gives %r", r, quant[r].tolist(), want.tolist())
    if case["h"] % 3 or case["w"] % 3:
        ctx.nontrivial()


@st.composite
def avg4_case(draw):
    vals = st.one_of(st.integers(-140, 140).map(lambda i: i / 128), st.integers(-1400, 1400).map(lambda i: i / 1280))
    return dict(rows=[[draw(vals) for _ in range(4)] for _ in range(draw(st.integers(1, 6)))])


def check_avg4(case, ctx):
    from model.ops import quantized_avg4

    t = torch.tensor(case["rows"], dtype=torch.float32)
    got = quantized_avg4(*t.unbind(1))
    for i, row in enumerate(t.double().tolist()):
        a, b, c, d = (max(-128, min(127, math.floor(v * 128))) for v in row)
        ab, cd = (a + b + 1) >> 1, (c + d + 1) >> 1
        want = (ab + cd + 1) >> 1
        require(round(float(got[i]) * 128) == want and float(got[i]) * 128 == want, "avg4 of %r is %r/128, integer arithmetic gives %d", row, float(got[i]) * 128, want)
        if len({a, b, c, d}) > 1:
            ctx.nontrivial()


# ------------------------------------------------------------------ convolutions

@st.composite
def conv_case(draw):
    return dict(b=draw(st.integers(1, 3)), c=draw(st.integers(1, 5)), o=draw(st.integers(1, 5)), h=draw(st.integers(1, 9)), w=draw(st.integers(1, 9)),
                seed=draw(st.integers(0, 9999)), bias=draw(st.booleans()), last=draw(st.booleans()), fix=draw(st.booleans()), ones=draw(st.booleans()))


def grads(out, inputs, up):
    return torch.autograd.grad((out * up).sum(), inputs, allow_unused=True, retain_graph=True)


def same(out, want, inputs, what, g):
    require(close(out, want, atol=1e-4), "%s: output differs from its definition by %.3g", what,
            float((out - want).abs().max()) if out.shape == want.shape else -1)
    up = randn(out.shape, g)
    for i, (a, b) in enumerate(zip(grads(out, inputs, up), grads(want, inputs, up))):
        require((a is None) == (b is None) and (a is None or close(a, b, rtol=1e-3, atol=1e-3)), "%s: gradient %d differs from its definition", what, i)


def check_conv(case, ctx):
    from model.layers.convolution import PointwiseConv2d, pointwise_matmul
    from model.layers.directional import DirectionalConvLayer
    from model.ops import dynamic_pointwise_conv2d

    g = gen(case["seed"])
    b, c, o, h, w = (case[k] for k in "bcohw")
    x = randn((b, c, h, w), g)
    if case["last"]:
        x = x.contiguous(memory_format=torch.channels_last)
    x.requires_grad_(True)
    # one kernel per sample
    k = randn((b, o, c), g).requires_grad_(True)
    shaped = k if case["fix"] else k.reshape(b, o * c, 1, 1)
    want = torch.stack([F.conv2d(x[i:i + 1], k[i].reshape(o, c, 1, 1))[0] for i in range(b)])
    same(dynamic_pointwise_conv2d(x, shaped), want, [x, k], "dynamic_pointwise_conv2d", g)
    # a 1x1 convolution as a matrix product
    weight = randn((o, c), g).requires_grad_(True)
    bias = randn((o,), g).requires_grad_(True) if case["bias"] else None
    inputs = [x, weight] + ([bias] if bias is not None else [])
    same(pointwise_matmul(x, weight, bias), F.conv2d(x, weight[:, :, None, None], bias), inputs, "pointwise_matmul", g)
    layer = PointwiseConv2d(c, o, bias=case["bias"])
    same(layer(x), F.conv2d(x, layer.weight, layer.bias), [x, layer.weight], "PointwiseConv2d", g)
    # three taps along each direction
    layer = DirectionalConvLayer(c, o, use_nonzero_padding=case["ones"], use_channel_last=case["last"], fix_direction_order=case["fix"])
    with torch.no_grad():
        layer.bias.copy_(randn((o,), g))
    steps = [(0, 1), (1, 0), (1, 1), (-1, 1)]
    if case["fix"]:
        steps[2], steps[3] = steps[3], steps[2]
    taps = [layer.weight[..., t] if case["last"] else layer.weight[t] for t in range(3)]
    padded = F.pad(x, (1, 1, 1, 1), value=1.0 if case["ones"] else 0.0)
    wants = []
    for dy, dx in steps:
        acc = layer.bias[None, :, None, None]
        for t in range(3):
            oy, ox = 1 + (t - 1) * dy, 1 + (t - 1) * dx
            acc = acc + torch.einsum("bchw,oc->bohw", padded[:, :, oy:oy + h, ox:ox + w], taps[t])
        wants.append(acc)
    outs = layer((x, x, x, x))
    for d in range(4):
        same(outs[d], wants[d], [x, layer.weight, layer.bias], f"direction {d}", g)
    part = layer((x, None, None, x))
    require(part[1] is None and part[2] is None and torch.equal(part[3], outs[3]), "a missing direction changes the others")
    if b > 1 and h > 2 and w > 2:
        ctx.nontrivial()


# ------------------------------------------------------------------ per-product quantised depthwise convolution

@st.composite
def dwconv_case(draw):
    return dict(b=draw(st.integers(1, 2)), c=draw(st.integers(1, 4)), h=draw(st.integers(3, 8)), w=draw(st.integers(3, 8)), ks=draw(st.sampled_from([1, 3, 5])),
                stride=draw(st.sampled_from([[1, 1], [2, 1], [1, 2]])), padding=draw(st.sampled_from([[0, 0], [1, 1], [2, 1]])),
                dilation=draw(st.sampled_from([[1, 1], [1, 1], [2, 1]])), floor=draw(st.booleans()), bias=draw(st.booleans()),
                seed=draw(st.integers(0, 9999)), scales=draw(st.sampled_from([[128, 16, 65536, 16, 128, 16], [128, 8, 128, 8, 16384, 32], [128, 16, 128, 16, 128, 8],
                                                                             [1024, 16, 32768, 16, 32, 16]])), wide=draw(st.booleans()))


def check_dwconv(case, ctx):
    from model.layers.convolution import Conv2dBlock
    from model.ops import product_quantization_has_linear_gradient
    from utils.quant_utils import fake_quant

    isc, ib, wsc, wb, bsc, bb = case["scales"]
    g = gen(case["seed"])
    c, ks = case["c"], case["ks"]
    dil = case["dilation"]
    span = [dil[i] * (ks - 1) + 1 for i in range(2)]
    if case["h"] + 2 * case["padding"][0] < span[0] or case["w"] + 2 * case["padding"][1] < span[1]:
        dil = [1, 1]
        if case["h"] + 2 * case["padding"][0] < ks or case["w"] + 2 * case["padding"][1] < ks:
            return
    block = Conv2dBlock(c, c, ks, tuple(case["stride"]), padding=tuple(case["padding"]), dilation=tuple(dil), groups=c, activation="none", bias=case["bias"],
                        quant="pixel-dwconv-floor" if case["floor"] else "pixel-dwconv", input_quant_scale=isc, input_quant_bits=ib, weight_quant_scale=wsc,
                        weight_quant_bits=wb, bias_quant_scale=bsc, bias_quant_bits=bb)
    with torch.no_grad():
        block.conv.weight.copy_(randn(block.conv.weight.shape, g, 1.0 if case["wide"] else 0.2))
        if case["bias"]:
            block.conv.bias.copy_(randn((c,), g))
    x = randn((case["b"], c, case["h"], case["w"]), g, 20.0 if case["wide"] else 3.0)
    corners = [a * b for a in [(-2 ** (ib - 1)) / isc, (2 ** (ib - 1) - 1) / isc] for b in [(-2 ** (wb - 1)) / wsc, (2 ** (wb - 1) - 1) / wsc]]
    fits = all(-(2 ** (bb - 1)) / bsc <= v <= (2 ** (bb - 1) - 1) / bsc for v in corners)
    require(product_quantization_has_linear_gradient(isc, ib, wsc, wb, bsc, bb) == fits, "linear-gradient test of %r is wrong", case["scales"])

    def reference(x, weight, bias):
        xq = fake_quant(x, isc, num_bits=ib)
        wq = fake_quant(weight, wsc, num_bits=wb)
        py, px = case["padding"]
        sy, sx = case["stride"]
        p = F.pad(xq, (px, px, py, py))
        oh = (p.shape[2] - dil[0] * (ks - 1) - 1) // sy + 1
        ow = (p.shape[3] - dil[1] * (ks - 1) - 1) // sx + 1
        out = 0
        for i in range(ks):
            for j in range(ks):
                v = p[:, :, i * dil[0]:i * dil[0] + (oh - 1) * sy + 1:sy, j * dil[1]:j * dil[1] + (ow - 1) * sx + 1:sx]
                out = out + fake_quant(v * wq[None, :, 0, i, j, None, None], bsc, num_bits=bb, floor=case["floor"])
        if bias is not None:
            out = out + fake_quant(bias, bsc, num_bits=bb)[None, :, None, None]
        return out

    inputs = [x.requires_grad_(True), block.conv.weight] + ([block.conv.bias] if case["bias"] else [])
    want = reference(*inputs, *([] if case["bias"] else [None]))
    block.train()
    out = block(x)
    same(out, want, inputs, "quantised depthwise convolution (training)", g)
    block.eval()
    same(block(x), want, inputs, "quantised depthwise convolution (inference)", g)
    ctx.label("linear" if fits else "saturating")
    ctx.nontrivial()


# ------------------------------------------------------------------ quantised dense layers in integer arithmetic

@st.composite
def dense_case(draw):
    return dict(kind=draw(st.sampled_from(["linear", "star", "prelu", "conv", "leaky"])), n=draw(st.integers(1, 4)), i=draw(st.integers(1, 9)), o=draw(st.integers(1, 6)),
                seed=draw(st.integers(0, 9999)), scale=draw(st.sampled_from([0.3, 1.0, 2.5])), wscale=draw(st.sampled_from([128, 256])), lattice=draw(st.booleans()))


def iq(v, scale, bits, floor=False):
    """Integer levels of a float32 array."""
    lo, hi = bounds(bits, True)
    f = np.clip(v.astype(np.float32), np.float32(lo / scale), np.float32(hi / scale)) * np.float32(scale)
    return (np.floor(f) if floor else np.round(f)).astype(np.int64)


def int_linear(x_int, fc, wscale):
    """int8 x int8 -> int32 dot product plus the int32 bias, at scale 128 * wscale."""
    w = iq(fc.weight.detach().numpy(), wscale, 8)
    b = iq(fc.bias.detach().numpy(), 128 * wscale, 32)
    return x_int @ w.T + b


def check_dense(case, ctx):
    from model.layers.activation import ChannelWiseLeakyReLU, ClippedReLU, QuantPReLU
    from model.layers.convolution import Conv2dBlock
    from model.layers.linear import LinearBlock
    from model.layers.star import StarBlock

    g = gen(case["seed"])
    torch.manual_seed(case["seed"])
    x = randn((case["n"], case["i"]), g, case["scale"])
    if case["lattice"]:
        x = torch.round(x * 128) / 128
    wsc = case["wscale"]
    if case["kind"] == "linear":
        layer = LinearBlock(case["i"], case["o"], activation="relu", quant=True, weight_quant_scale=wsc)
        with torch.no_grad():
            layer.fc.bias.copy_(randn((case["o"],), g))
        want = np.maximum(int_linear(iq(x.numpy(), 128, 8, floor=True), layer.fc, wsc), 0) / (128 * wsc)
        require(close(layer(x), want, rtol=1e-6, atol=1e-6), "quantised linear layer differs from integer arithmetic")
    elif case["kind"] == "star":
        layer = StarBlock(case["i"], case["o"])
        with torch.no_grad():
            for m in (layer.up1, layer.up2, layer.down):
                m.fc.bias.copy_(randn(m.fc.bias.shape, g, 0.2))
        xi = iq(x.numpy(), 128, 8, floor=True)

        def level(acc):      # int32 at scale 128*128 -> int8 at scale 128
            return np.clip(acc >> 7, -128, 127)
        up1 = level(np.maximum(int_linear(xi, layer.up1.fc, 128), 0))
        up2 = level(int_linear(xi, layer.up2.fc, 128))
        prod = (up1 * up2).reshape(case["n"], -1, 2).sum(-1)
        want = np.maximum(int_linear(level(prod), layer.down.fc, 128), 0) / (128 * 128)
        require(close(layer(x), want, rtol=1e-6, atol=1e-6), "star block differs from integer arithmetic")
    elif case["kind"] == "prelu":
        layer = QuantPReLU(case["i"], input_quant_scale=1024, input_quant_bits=16, weight_quant_scale=32768, weight_quant_bits=16)
        with torch.no_grad():
            layer.weight.copy_(randn((case["i"],), g))
        xi = iq(x.numpy(), 1024, 16) / 1024
        w = iq(layer.weight.detach().numpy(), 32768, 16) / 32768
        require(close(layer(x), np.where(xi >= 0, xi, xi * w), rtol=1e-5, atol=1e-6), "QuantPReLU differs from its definition")
    elif case["kind"] == "leaky":
        for bound in (0, 1.5):
            layer = ChannelWiseLeakyReLU(case["i"], bound=bound)
            with torch.no_grad():
                layer.neg_slope.copy_(randn((case["i"],), g, 2.0))
                layer.bias.copy_(randn((case["i"],), g))
            s = layer.neg_slope.detach().double().numpy()
            s = np.tanh(s / bound) * bound if bound else s
            xd = x.double().numpy()
            before = x.clone()
            require(close(layer(x), np.where(xd < 0, xd * s, xd) + layer.bias.detach().numpy(), atol=1e-5), "leaky activation differs from its definition")
            require(torch.equal(before, x), "the activation changed its input")
        require(close(ClippedReLU(max=1)(x), np.clip(x.numpy(), 0, 1)), "clipped activation differs from its definition")
    else:
        layer = Conv2dBlock(case["i"], case["o"], ks=1, st=1, activation="relu", quant=True, input_quant_scale=128, input_quant_bits=16,
                            weight_quant_scale=128 * 128, weight_quant_bits=16, bias_quant_scale=128 * 128 * 128, bias_quant_bits=32)
        with torch.no_grad():
            layer.conv.bias.copy_(randn((case["o"],), g))
        xi = iq(x.numpy(), 128, 16)
        w = iq(layer.conv.weight.detach().numpy()[:, :, 0, 0], 128 * 128, 16)
        b = iq(layer.conv.bias.detach().numpy(), 128 ** 3, 32)
        want = np.maximum(xi @ w.T + b, 0) / 128 ** 3
        require(close(layer(x[:, :, None, None])[:, :, 0, 0], want, rtol=1e-5, atol=1e-5), "quantised convolution differs from integer arithmetic")
    ctx.label(case["kind"])
    ctx.nontrivial()


# ------------------------------------------------------------------ masked batch normalisation, embedding

@st.composite
def norm_case(draw):
    n = draw(st.integers(1, 4))
    return dict(c=draw(st.integers(1, 4)), h=draw(st.integers(1, 6)), w=draw(st.integers(1, 6)), boards=[[draw(st.integers(1, 6)), draw(st.integers(1, 6))] for _ in range(n)],
                masked=draw(st.booleans()), affine=draw(st.booleans()), seed=draw(st.integers(0, 9999)), shift=draw(st.sampled_from([0.0, 3.0])))


def check_norm(case, ctx):
    from model.layers.normalization import MaskNorm, LocalLayerNorm

    g = gen(case["seed"])
    n, c, h, w = len(case["boards"]), case["c"], case["h"], case["w"]
    x = (randn((n, c, h, w), g) + case["shift"]).double().requires_grad_(True)
    mask = torch.zeros(n, 1, h, w, dtype=torch.float64)
    for i, (a, b) in enumerate(case["boards"]):
        mask[i, 0, :a, :b] = 1
    layer = MaskNorm(c, "bnorm", affine=case["affine"]).double()
    with torch.no_grad():
        layer.running_mean.copy_(randn((c,), g))
        layer.running_var.copy_(randn((c,), g).abs() + 0.5)
        if case["affine"]:
            layer.weight.copy_(randn((c,), g))
            layer.bias.copy_(randn((c,), g))
    rm, rv = layer.running_mean.clone(), layer.running_var.clone()
    m = mask if case["masked"] else torch.ones_like(mask)
    given_mask = mask if case["masked"] else None
    count = m.sum()
    mean = (x * m).sum((0, 2, 3)) / count
    var = ((x - mean[None, :, None, None]).square() * m).sum((0, 2, 3)) / count
    weight = layer.weight if case["affine"] else torch.ones(c, dtype=torch.float64)
    bias = layer.bias if case["affine"] else torch.zeros(c, dtype=torch.float64)

    def normal(mean, var):
        v = (x - mean[None, :, None, None]) / torch.sqrt(var + layer.epsilon)[None, :, None, None]
        return (v * weight[None, :, None, None] + bias[None, :, None, None]) * m

    inputs = [x] + ([layer.weight, layer.bias] if case["affine"] else [])
    out = layer.train()(x, given_mask)
    want = normal(mean, var)
    require(close(out, want, rtol=1e-6, atol=1e-6), "masked batch normalisation differs from its definition by %.3g", float((out - want).abs().max()))
    up = randn(out.shape, g).double()
    for i, (a, b) in enumerate(zip(grads(out, inputs, up), grads(want, inputs, up))):
        require(close(a, b, rtol=1e-5, atol=1e-5 * max(1.0, float(b.abs().max()))), "gradient %d of masked batch normalisation differs by %.3g", i, float((a - b).abs().max()))
    k = layer.running_avg_momentum
    require(close(layer.running_mean, rm + k * (mean - rm), 1e-9, 1e-9) and close(layer.running_var, rv + k * (var - rv), 1e-9, 1e-9), "running statistics are wrong")
    rm, rv = layer.running_mean.clone(), layer.running_var.clone()
    require(close(layer.eval()(x, given_mask), normal(rm, rv), rtol=1e-6, atol=1e-6), "normalisation in evaluation differs from its definition")
    require(torch.equal(rm, layer.running_mean) and torch.equal(rv, layer.running_var), "evaluation changed the running statistics")
    ln = LocalLayerNorm(c).double()
    with torch.no_grad():
        ln.weight.copy_(randn((c,), g))
        ln.bias.copy_(randn((c,), g))
    want = F.layer_norm(x.permute(0, 2, 3, 1), (c,), ln.weight, ln.bias, ln.eps).permute(0, 3, 1, 2)
    require(close(ln(x), want, rtol=1e-6, atol=1e-6), "local layer normalisation differs from its definition")
    if case["masked"] and int(count) < n * h * w:
        ctx.nontrivial()


@st.composite
def embed_case(draw):
    v = draw(st.integers(1, 6))
    return dict(v=v, d=draw(st.integers(1, 4)), idx=draw(st.lists(st.lists(st.integers(0, v - 1), min_size=3, max_size=3), min_size=1, max_size=5)), seed=draw(st.integers(0, 999)))


def check_embed(case, ctx):
    from model.ops import embedding as e

    g = gen(case["seed"])
    weight = randn((case["v"], case["d"]), g).requires_grad_(True)
    idx = torch.tensor(case["idx"])
    for fn in (e.small_table_embedding, e._SmallTableEmbeddingFunction.apply):
        same(fn(idx, weight), weight[idx], [weight], "small table embedding", g)
    ctx.nontrivial()


# ------------------------------------------------------------------ norms, activations and convolution blocks by name

NORMS = ["bn", "gn-1", "gn-2", "gn", "ln", "mask", "mask-affine", "maskbn", "maskbn-noaffine", "none"]
ACTIVATIONS = ["relu", "lrelu", "lrelu/3", "lrelu/16", "crelu", "tanh", "sigmoid", "gelu", "silu", "mish", "none"]


@st.composite
def layers_case(draw):
    n = draw(st.integers(1, 3))
    return dict(norm=draw(st.sampled_from(NORMS)), act=draw(st.sampled_from(ACTIVATIONS)), c=draw(st.sampled_from([2, 4])), h=draw(st.integers(3, 7)), w=draw(st.integers(3, 7)),
                boards=[[draw(st.integers(1, 7)), draw(st.integers(1, 7))] for _ in range(n)], masked=draw(st.booleans()), first=draw(st.booleans()),
                ks=draw(st.sampled_from([1, 3, [1, 3]])), stride=draw(st.sampled_from([1, 1, 2])), padding=draw(st.sampled_from([0, 1, 2])), dilation=draw(st.sampled_from([1, 1, 2])),
                pad_type=draw(st.sampled_from(["zeros", "reflect", "replicate", "circular"])), groups=draw(st.sampled_from([1, 2])), bias=draw(st.booleans()),
                train=draw(st.booleans()), affine=draw(st.sampled_from(["both", "weight", "none"])), last=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


def activation(name, x):
    if name.startswith("lrelu"):
        return torch.where(x >= 0, x, x * (1 / int(name[6:]) if "/" in name else 0.1))
    return dict(relu=lambda: x * (x > 0), crelu=lambda: torch.minimum(torch.maximum(x, x * 0), x * 0 + 1), tanh=lambda: torch.tanh(x), none=lambda: x,
                sigmoid=lambda: 1 / (1 + torch.exp(-x)), gelu=lambda: x * 0.5 * (1 + torch.erf(x / math.sqrt(2))), silu=lambda: x / (1 + torch.exp(-x)),
                mish=lambda: x * torch.tanh(torch.log1p(torch.exp(x))))[name]()


def normalised(name, x, layer, mask, train, stats):
    """The definition of a norm; stats are the running mean and variance before."""
    def affine(v):
        if getattr(layer, "weight", None) is not None:
            v = v * layer.weight[None, :, None, None]
        return v if getattr(layer, "bias", None) is None else v + layer.bias[None, :, None, None]
    n, c, h, w = x.shape
    m = torch.ones(n, 1, h, w, dtype=x.dtype) if mask is None else mask
    if name == "none":
        return x
    if name == "bn" or name.startswith("maskbn"):
        k = torch.ones_like(m) if name == "bn" else m
        mean, var = stats
        if train:
            mean = (x * k).sum((0, 2, 3)) / k.sum()
            var = ((x - mean[None, :, None, None]).square() * k).sum((0, 2, 3)) / k.sum()
        v = affine((x - mean[None, :, None, None]) / torch.sqrt(var + (1e-5 if name == "bn" else 1e-4))[None, :, None, None])
        return v if name == "bn" else v * m
    if name.startswith("gn"):
        groups = 2 if name == "gn" else int(name[3:])
        v = x.reshape(n, groups, -1)
        v = (v - v.mean(2, keepdim=True)) / torch.sqrt(v.var(2, unbiased=False, keepdim=True) + 1e-5)
        return affine(v.reshape(x.shape))
    if name == "ln":
        return affine((x - x.mean(1, keepdim=True)) / torch.sqrt(x.var(1, unbiased=False, keepdim=True) + 1e-5))
    return affine(x) * m


def check_layers(case, ctx):
    from model.layers.activation import build_activation_layer
    from model.layers.convolution import Conv2dBlock
    from model.layers.normalization import LocalLayerNorm, build_norm2d_layer

    g = gen(case["seed"])
    torch.manual_seed(case["seed"])
    n, c, h, w = len(case["boards"]), case["c"], case["h"], case["w"]
    x = randn((n, c, h, w), g, 1.5).double()
    mask = torch.zeros(n, 1, h, w, dtype=torch.float64)
    for i, (a, b) in enumerate(case["boards"]):
        mask[i, 0, :a, :b] = 1
    mask = mask if case["masked"] else None
    if mask is not None and not case["norm"].startswith("mask"):
        x = x * mask

    def scatter(module):
        with torch.no_grad():
            for p in module.parameters():
                p.copy_(randn(p.shape, g, 0.7).to(p.dtype))
            for k, v in module.named_buffers():
                if v.is_floating_point():
                    v.copy_(randn(v.shape, g).abs() + 0.4 if "var" in k else randn(v.shape, g))

    # activations
    layer = build_activation_layer(case["act"], inplace=False)
    before = x.clone()
    out = x if layer is None else layer(x)
    require(close(out, activation(case["act"], x), rtol=1e-9, atol=1e-9), "activation %s differs from its definition", case["act"])
    require(torch.equal(x, before), "activation %s changed its input", case["act"])
    # norms
    name = case["norm"]
    train = case["train"] and (n * h * w > 1)
    layer = build_norm2d_layer(name, c, norm_groups=2)
    require((layer is None) == (name == "none"), "norm %s", name)
    if layer is not None:
        layer = layer.double()
        scatter(layer)
        stats = (layer.running_mean.clone(), layer.running_var.clone()) if getattr(layer, "running_mean", None) is not None else None
        layer.train(train)
        want = normalised(name, x, layer, mask, train, stats)
        require(close(layer(x, mask=mask), want, rtol=1e-6, atol=1e-6), "norm %s differs from its definition", name)
    last = case["last"]
    ln = LocalLayerNorm(c, eps=1e-3, channelwise_affine=case["affine"] != "none", bias=case["affine"] == "both", data_format="channels_last" if last else "channels_first").double()
    scatter(ln)
    want = F.layer_norm(x.permute(0, 2, 3, 1), (c,), ln.weight, ln.bias, 1e-3)
    got = ln(x.permute(0, 2, 3, 1)) if last else ln(x).permute(0, 2, 3, 1)
    require(close(got, want, rtol=1e-6, atol=1e-6), "local layer normalisation (%s affine) differs from its definition", case["affine"])
    # a whole block
    ks = case["ks"] if isinstance(case["ks"], int) else tuple(case["ks"])
    kh, kw = (ks, ks) if isinstance(ks, int) else ks
    p, d, s = case["padding"], case["dilation"], case["stride"]
    oh, ow = ((v + 2 * p - d * (k - 1) - 1) // s + 1 for v, k in ((h, kh), (w, kw)))
    if name == "gn" or oh < 1 or ow < 1 or p >= min(h, w):
        return
    if mask is not None and (s > 1 or oh > h or ow > w):
        return
    block = Conv2dBlock(c, c, ks, s, padding=p, norm=name, activation=case["act"], pad_type=case["pad_type"], bias=case["bias"], dilation=d, groups=case["groups"],
                        activation_first=case["first"]).double()
    scatter(block)
    stats = (block.norm.running_mean.clone(), block.norm.running_var.clone()) if getattr(block.norm, "running_mean", None) is not None else None
    small = mask if mask is None else mask[:, :, h - oh:, w - ow:]
    if train and (small if small is not None and name.startswith("maskbn") else torch.ones(n, 1, oh, ow)).sum() < 2:
        train = False
    block.train(train)

    def conv(v):
        v = v if not p else F.pad(v, (p, p, p, p)) if case["pad_type"] == "zeros" else F.pad(v, (p, p, p, p), mode=case["pad_type"])
        out = torch.zeros(n, c, oh, ow, dtype=v.dtype)
        per = c // case["groups"]
        for o in range(c):
            for i in range(per):
                for y in range(kh):
                    for z in range(kw):
                        out[:, o] += block.conv.weight[o, i, y, z] * v[:, o // per * per + i, y * d:y * d + (oh - 1) * s + 1:s, z * d:z * d + (ow - 1) * s + 1:s]
        return out if block.conv.bias is None else out + block.conv.bias[None, :, None, None]
    if case["first"]:
        want = conv(activation(case["act"], normalised(name, x, block.norm, mask, train, stats)))
    else:
        want = activation(case["act"], normalised(name, conv(x), block.norm, small, train, stats))
    got = block(x, mask) if mask is not None else block(x)
    if mask is not None:
        require(torch.equal(got[1], small), "the mask of a convolution block is wrong")
        got = got[0]
    require(close(got, want, rtol=1e-6, atol=1e-6), "convolution block differs from its definition by %.3g", float((got - want).abs().max()))
    ctx.label(name)
    ctx.label("act " + case["act"])
    ctx.nontrivial()


# ------------------------------------------------------------------ hashing

@st.composite
def hash_case(draw):
    size = draw(st.integers(1, 6))
    level = draw(st.integers(2, 4))
    n = draw(st.integers(1, 6))
    return dict(size=size, level=level, log=draw(st.integers(1, 12)), dim=draw(st.integers(1, 4)), sub=draw(st.integers(1, 3)), div=draw(st.integers(2, 3)), quant=draw(st.booleans()),
                rows=[[draw(st.integers(0, level - 1)) for _ in range(size)] for _ in range(n)], seed=draw(st.integers(0, 999)), bad=draw(st.booleans()),
                badval=draw(st.sampled_from([-1, 0])))


def check_hash(case, ctx):
    from model.layers.hashing import HashLayer

    torch.manual_seed(case["seed"])
    layer = HashLayer(case["size"], case["level"], case["log"], case["dim"] * case["sub"], quant_int8=case["quant"], sub_features=case["sub"], sub_divisor=case["div"])
    rows = np.array(case["rows"])
    perfect = 2 ** case["log"] >= case["level"] ** case["size"]
    require(layer.perfect_hash == perfect, "perfect hashing is %r for %d^%d inputs and %d slots", layer.perfect_hash, case["level"], case["size"], 2 ** case["log"])
    if perfect:
        idx = (rows * case["level"] ** np.arange(case["size"])).sum(1)
        slots = case["level"] ** case["size"]
    else:
        table = layer.hashs.numpy().astype(np.int64)
        idx = table[np.arange(case["size"])[None, :], rows].sum(1) % 2 ** case["log"]
        slots = 2 ** case["log"]
    feats, cur, off, weight = [], idx, 0, layer.features.weight.detach().numpy()
    for i in range(case["sub"]):
        feats.append(weight[cur + off])
        off += math.ceil(slots / case["div"] ** i)
        cur = cur // case["div"]
    require(len(weight) == off, "the table has %d rows, not %d", len(weight), off)
    want = np.concatenate(feats, 1)
    if case["sub"] > 1:
        want = want @ layer.feature_mapping.weight.detach().numpy().T + layer.feature_mapping.bias.detach().numpy()
    x_long = torch.from_numpy(rows)
    x = x_long.float() / (case["level"] - 1)
    with torch.no_grad():
        for got in (layer(x), layer(None, x_long)):
            if case["quant"]:
                level = np.clip(want, -1, 127 / 128) * 128
                require(close(got * 128, torch.round(got * 128), 0, 1e-5), "hash features are not on the int8 lattice")
                require(bool((np.abs(got.numpy() * 128 - level) <= 0.5 + 1e-3).all()), "hash features differ from the table")
            else:
                require(close(got, want), "hash features differ from the table")
        if case["bad"]:
            broken = x_long.clone()
            broken[-1, -1] = -1 if case["badval"] else case["level"]
            try:
                got = layer(None, broken)
            except (IndexError, RuntimeError):
                ctx.label("refused")
            else:
                require(False, "an input value outside the levels was hashed to %r", got.tolist())
    ctx.label("perfect" if perfect else "hashed")
    if len({tuple(r) for r in case["rows"]}) > 1:
        ctx.nontrivial()


# ------------------------------------------------------------------ vector quantisation

def make_vq(options, size):
    from model.vq import VectorQuantize

    keops.serialise()
    torch.manual_seed(5)
    return VectorQuantize(size, DIM, **options)


@st.composite
def vq_case(draw):
    opt = dict(kmeans_init=draw(st.sampled_from([False, False, True])), use_cosine_sim=draw(st.booleans()), rotation_trick=draw(st.booleans()),
               ema_decay=draw(st.sampled_from([0.5, 0.9, 0.995])), threshold_ema_dead_code=draw(st.sampled_from([0, 0.005, 0.5])),
               commitment_weight=draw(st.sampled_from([0.25, 1.0])), ema_update=draw(st.booleans()),
               entropy_reg_weight=draw(st.sampled_from([0.0, 0.0, 0.1])), entropy_reg_temp=draw(st.sampled_from([0.1, 1.0])))
    size = draw(st.integers(LEAST, 7))
    mask = draw(st.lists(st.booleans(), min_size=9, max_size=9))
    evals = draw(st.integers(LEAST, 9))
    if sum(mask[:evals]) < LEAST and opt["entropy_reg_weight"]:
        mask[:2] = [True, True]
    return dict(options=opt, size=size, seed=draw(st.integers(0, 9999)), batches=draw(st.lists(st.integers(LEAST, 9), min_size=1, max_size=4)),
                evals=evals, mask=mask, lattice=draw(st.booleans()), normalized=draw(st.booleans()))


def unit(x):
    return x / np.maximum(np.linalg.norm(x, axis=-1, keepdims=True), 1e-7)


def distances(x, code, cosine):
    if cosine:
        return 1 - x @ code.T
    return ((x[:, None] - code[None]) ** 2).sum(-1)


def perplexity(counts):
    p = counts / counts.sum()
    return float(np.exp(-(p * np.log(p + 1e-10)).sum()))


def vq_losses(case, x, q, code):
    opt = case["options"]
    mse = ((q - x) ** 2).mean()
    total = mse * (1 + opt["commitment_weight"])
    if opt["entropy_reg_weight"]:
        d = distances(x, code, opt["use_cosine_sim"])
        d = d if opt["use_cosine_sim"] else np.sqrt(d)
        z = -d / opt["entropy_reg_temp"]
        p = np.exp(z - z.max(1, keepdims=True))
        p = (p / p.sum(1, keepdims=True)).mean(0)
        total += opt["entropy_reg_weight"] * float((p * np.log(np.maximum(p, 1e-7))).sum())
    return total


def check_step(case, vq, x, x_q, info, code, what):
    """One quantised batch against its definition, given the codebook it used."""
    opt = case["options"]
    xs = x.detach().double().numpy()
    if opt["use_cosine_sim"]:
        xs = unit(xs)
    idx = info["embed_indices"].numpy()
    d = distances(xs, code, opt["use_cosine_sim"])
    best = d.min(1)
    require((d[np.arange(len(idx)), idx] <= best + 1e-4 * (1 + best)).all(), "%s: code %r is farther than the nearest (%r)", what, idx.tolist(), d.argmin(1).tolist())
    q = code[idx]
    require(close(x_q, q, atol=2e-5), "%s: the quantised output is not the chosen code", what)
    counts = np.bincount(idx, minlength=case["size"])
    require(close(info["perplexity"], perplexity(counts), 1e-4), "%s: perplexity %r, expected %r", what, float(info["perplexity"]), perplexity(counts))
    require(close(info["normalized_perplexity"], perplexity(counts) / case["size"], 1e-4), "%s: normalised perplexity", what)
    require(close(info["loss"], vq_losses(case, xs, q, code), 1e-3, 1e-4), "%s: loss %r, expected %r", what, float(info["loss"]), vq_losses(case, xs, q, code))
    return xs, idx, q, counts


def check_vq(case, ctx):
    from accelerate.state import PartialState

    PartialState()
    opt, size = case["options"], case["size"]
    torch.manual_seed(case["seed"])
    keops.serialise()
    from model.vq import VectorQuantize
    vq = VectorQuantize(size, DIM, **opt)
    g = gen(case["seed"])
    moved = False

    def points(n):
        x = randn((n, DIM), g)
        return torch.round(x * 2) / 2 + 0.01 * randn((n, DIM), g) if case["lattice"] else x

    pool = []
    vq.train()
    for n in case["batches"]:
        x = points(n)
        xs = x.double().numpy()
        normal = unit(xs) if opt["use_cosine_sim"] else xs
        x.requires_grad_(True)
        if not vq.is_initialized():
            # k-means initialisation: nothing is quantised until enough samples were seen
            x_q, info = vq(x)
            require(info is None, "an uninitialised codebook quantised something")
            require(close(x_q, normal, atol=1e-5), "an uninitialised codebook changed its input")
            pool.extend(normal.tolist())
            need = size * 1
            if len(pool) >= need:
                require(vq.is_initialized() and bool(vq.inited), "the codebook was not initialised after %d samples", len(pool))
                used = np.array(pool[:need])
                got = vq.codebook.detach().double().numpy()
                # as many samples as codes: every sample becomes a code
                for row in used:
                    require(np.abs(got - row).sum(1).min() < 1e-4, "sample %r did not become a code", row.tolist())
                require(bool((vq.cluster_size > 0).all()), "an initial cluster is empty")
            else:
                require(not vq.is_initialized(), "the codebook was initialised with %d of %d samples", len(pool), need)
            continue
        before = dict(embed=vq.embed.detach().double().numpy().copy(), avg=vq.embed_avg.double().numpy().copy(), n=vq.cluster_size.double().numpy().copy())
        x_q, info = vq(x)
        normed = before["n"] * size / before["n"].sum()
        dead = normed < opt["threshold_ema_dead_code"] if opt["threshold_ema_dead_code"] else np.zeros(size, bool)
        clear = np.abs(normed - opt["threshold_ema_dead_code"]) > 1e-4
        embed, avg, cluster = before["embed"].copy(), before["avg"].copy(), before["n"].copy()
        expired = int(info["num_expired_codes"])
        if clear.all():
            require(expired == int(dead.sum()), "%d codes expired, %d are below the threshold", expired, int(dead.sum()))
        if expired:
            ctx.label("expired")
            if not opt["ema_update"]:
                now = vq.embed.detach().double().numpy()
                for j in np.nonzero(dead)[0]:
                    require(np.abs(now[j] - normal).sum(1).min() < 1e-4, "an expired code was not replaced by a sample")
                keep = ~dead
                require(np.allclose(now[keep], embed[keep]), "a live code was replaced")
                embed = now.copy()
            cluster = np.where(dead, 1.0, cluster)
        code = embed
        if opt["use_cosine_sim"] and not opt["ema_update"]:
            code = unit(code)
        if not (expired and opt["ema_update"]):
            _, idx, q, counts = check_step(case, vq, x, x_q, info, code, "training step")
            want = cluster * opt["ema_decay"] + counts * (1 - opt["ema_decay"])
            require(close(vq.cluster_size, want, 1e-4, 1e-5), "cluster sizes %r, expected %r", vq.cluster_size.tolist(), want.tolist())
            if opt["ema_update"]:
                total = np.zeros((size, DIM))
                np.add.at(total, idx, normal)
                avg = avg * opt["ema_decay"] + total * (1 - opt["ema_decay"])
                require(close(vq.embed_avg, avg, 1e-3, 1e-5), "the running code sums are wrong")
                s = want.sum()
                smooth = s * (want + 1e-5) / (s + size * 1e-5)
                new = avg / smooth[:, None]
                new = unit(new) if opt["use_cosine_sim"] else new
                require(close(vq.embed, new, 1e-3, 1e-4), "the codes are not the running means")
                moved = moved or not np.allclose(new, embed, atol=1e-4)
            else:
                require(np.allclose(vq.embed.detach().double().numpy(), embed, atol=1e-6), "codes moved without an update")
            # straight-through gradient
            up = randn(x_q.shape, g)
            (gx,) = torch.autograd.grad((x_q * up).sum(), [x], retain_graph=True)
            xi = x.detach().double().requires_grad_(True)
            xn = F.normalize(xi, dim=-1, eps=1e-7) if opt["use_cosine_sim"] else xi
            if opt["rotation_trick"]:
                qt = torch.from_numpy(q)
                nx, nq = xn.norm(dim=-1, keepdim=True).clamp(min=1e-6), qt.norm(dim=-1, keepdim=True)
                u, v = (xn / nx).detach(), (qt / nq.clamp(min=1e-6)).detach()
                wv = F.normalize(u + v, dim=-1, eps=1e-7)
                # e -> e - 2 (e.w) w + 2 (e.u) v is the rotation taking u to v
                y = (xn - 2 * (xn * wv).sum(-1, keepdim=True) * wv + 2 * (xn * u).sum(-1, keepdim=True) * v) * (nq / nx).detach()
                opposite = bool(((u + v).norm(dim=-1) < 1e-2).any())
                require(opposite or close(y, q, 1e-3, 1e-4), "reference rotation is wrong")
            else:
                y, opposite = xn + (torch.from_numpy(q) - xn).detach(), False
            (want_g,) = torch.autograd.grad((y * up.double()).sum(), [xi])
            require(opposite or close(gx, want_g, 1e-3, 1e-3), "the straight-through gradient is %r, not %r", gx.tolist(), want_g.tolist())
    if not vq.is_initialized():
        ctx.label("uninitialised")
        return
    vq.eval()
    before = {k: v.clone() for k, v in vq.state_dict().items()}
    vq.reset_eval_perplexity_stats()
    x = points(case["evals"])
    x_q, info = vq(x)
    code = vq.codebook.detach().double().numpy()
    xs, idx, q, counts = check_step(case, vq, x, x_q, info, code, "evaluation")
    require(torch.equal(vq.from_indices(info["embed_indices"]), vq.codebook[info["embed_indices"]]), "from_indices returns other codes")
    mask = torch.tensor(case["mask"][:case["evals"]])
    vq.set_eval_entry_mask(mask)
    x_m, minfo = vq(x)
    require(torch.equal(x_m, x_q), "masking rows changed the quantised output")
    real = mask.numpy()
    if real.any():
        sub = np.bincount(idx[real], minlength=size)
        require(close(minfo["perplexity"], perplexity(sub), 1e-4), "perplexity counts rows that are not real")
        require(close(minfo["loss"], vq_losses(case, xs[real], q[real], code), 1e-3, 1e-4), "the loss counts rows that are not real")
    require(int(minfo["loss_stats"]["vectors"]) == int(real.sum()) and int(minfo["loss_stats"]["elements"]) == int(real.sum()) * DIM, "row counts are wrong")
    want = counts + np.bincount(idx[real], minlength=size)
    require(vq._eval_cluster_size.tolist() == want.tolist(), "accumulated code usage %r, expected %r", vq._eval_cluster_size.tolist(), want.tolist())
    for k, v in vq.state_dict().items():
        require(torch.equal(v, before[k]), "evaluation changed %s", k)
    if size > 1 and (moved or not opt["ema_update"]):
        ctx.nontrivial()


@st.composite
def learned_case(draw):
    cosine = draw(st.booleans())
    entropy = 0.0 if cosine and LEAST > 1 else draw(st.sampled_from([0.0, 0.3]))    # every formula costs seconds to compile
    return dict(simvq=draw(st.booleans()), transform=draw(st.booleans()), learnable=draw(st.booleans()), kmeans=draw(st.sampled_from([False, False, True])), cosine=cosine,
                rotation=draw(st.booleans()), size=draw(st.integers(LEAST, 6)), n=draw(st.integers(LEAST, 9)), beta=draw(st.sampled_from([0.25, 1.0])), decay=draw(st.sampled_from([0.5, 0.9])),
                entropy=entropy, temp=draw(st.sampled_from([0.1, 1.0])), stochastic=draw(st.booleans()), heat=draw(st.sampled_from([0.0, 0.3, 1.0, 3.0])),
                steps=draw(st.integers(1, 3)), seed=draw(st.integers(0, 9999)))


def check_learned(case, ctx):
    """Codebooks trained by the optimizer, transformed codes and sampled codes."""
    from accelerate.state import PartialState
    from model.layers.linear import Linear
    from model.vq import VectorQuantize

    PartialState()
    keops.serialise()
    torch.manual_seed(case["seed"])
    g = gen(case["seed"])
    size, sim, cosine = case["size"], case["simvq"], case["cosine"]
    own = Linear(DIM, DIM, bias=True) if case["transform"] else None
    sampled = case["stochastic"] and case["heat"] > 0
    opt = dict(use_cosine_sim=cosine, entropy_reg_weight=case["entropy"], entropy_reg_temp=case["temp"], commitment_weight=case["beta"])
    vq = VectorQuantize(size, DIM, kmeans_init=case["kmeans"], ema_update=sim and case["learnable"], ema_decay=case["decay"], threshold_ema_dead_code=0, learnable_codebook=case["learnable"],
                        rotation_trick=case["rotation"], stochastic_sampling=case["stochastic"], sampling_temp=case["heat"], use_simvq=sim, codebook_transform=own if sim else None, **opt).train()
    require(vq.embed.requires_grad == case["learnable"], "a %s codebook is %s", "learned" if case["learnable"] else "fixed", "trained" if vq.embed.requires_grad else "not trained")
    if case["kmeans"]:
        x = randn((size, DIM), g)
        vq(x)
        require(vq.is_initialized(), "the codebook was not initialised")
        if not case["transform"]:
            got, want = vq.codebook.detach().double().numpy(), x.double().numpy()
            for row in unit(want) if cosine else want:
                require(np.abs(got - row).sum(1).min() < 1e-4, "sample %r did not become a code", row.tolist())
    if sim and own is None and not case["kmeans"]:
        require(vq.code_transform.bias is None, "the transformation of the codes has an offset")

    def reference(x, idx):
        leaves = [vq.embed.detach().double().requires_grad_(True), x.detach().double().requires_grad_(True)]
        if sim:
            leaves += [p.detach().double().requires_grad_(True) for p in vq.code_transform.parameters()]
        code = leaves[0]
        if sim:
            code = code @ leaves[2].T + (leaves[3] if len(leaves) > 3 else 0)
        xn = leaves[1]
        if cosine:
            code, xn = F.normalize(code, dim=-1, eps=1e-7), F.normalize(xn, dim=-1, eps=1e-7)
        q = code[idx]
        loss = (q - xn.detach()).square().mean() + case["beta"] * (q.detach() - xn).square().mean()
        if case["entropy"]:
            d = 1 - xn @ code.T if cosine else ((xn[:, None] - code[None]).square().sum(-1)).sqrt()
            p = torch.softmax(-d / case["temp"], 1).mean(0)
            loss = loss + case["entropy"] * (p * torch.log(p.clamp(min=1e-7))).sum()
        return leaves, code.detach().numpy(), loss

    for _ in range(case["steps"]):
        x = randn((case["n"], DIM), g).requires_grad_(True)
        sizes = vq.cluster_size.double().clone()
        state = vq.embed.detach().clone()
        for p in vq.parameters():
            p.grad = None
        x_q, info = vq(x)
        idx = info["embed_indices"]
        require(int(idx.min()) >= 0 and int(idx.max()) < size, "a code outside the codebook was chosen")
        leaves, code, loss = reference(x, idx)
        require(close(vq.codebook.detach(), code, 1e-4, 1e-5), "the codebook is not the %s codes", "transformed" if sim else "stored")
        if sampled:
            require(close(x_q, code[idx.numpy()], 1e-4, 1e-4), "the quantised output is not the sampled code")
            counts = np.bincount(idx.numpy(), minlength=size)
            require(close(info["perplexity"], perplexity(counts), 1e-4), "perplexity of sampled codes")
        else:
            fake = dict(options=opt, size=size)
            _, _, _, counts = check_step(fake, vq, x, x_q, info, code, "learned codebook")
        require(close(info["loss"], loss.detach(), 1e-3, 1e-4), "loss %r, expected %r", float(info["loss"]), float(loss))
        require(close(vq.cluster_size, sizes * case["decay"] + torch.from_numpy(counts) * (1 - case["decay"]), 1e-4, 1e-5), "code usage is not its running mean")
        require(torch.equal(vq.embed.detach(), state), "a codebook for the optimizer moved by itself")
        near = case["entropy"] and not cosine and float(((leaves[1][:, None] - torch.from_numpy(code)[None]).square().sum(-1)).min()) < 1e-3
        wanted = torch.autograd.grad(loss, leaves, allow_unused=True)
        info["loss"].backward()
        got = [vq.embed.grad, x.grad] + (list(p.grad for p in vq.code_transform.parameters()) if sim else [])
        for i, (a, b) in enumerate(zip(got, wanted)):
            what = ["the codes", "the input", "the transformation", "the offset"][i]
            if i == 0 and not case["learnable"]:
                require(a is None, "fixed codes received a gradient")
                continue
            b = torch.zeros_like(a) if b is None else b
            require(near or close(a, b, 2e-3, 2e-4), "the gradient of %s is %r, not %r", what, a.tolist(), b.tolist())
        with torch.no_grad():
            for p in vq.parameters():
                if p.grad is not None:
                    p -= 0.1 * p.grad
    if sampled:
        # one position many times: the codes appear in proportion to exp(-distance / temperature)
        x = randn((1, DIM), g)
        many = x.repeat(3000, 1)
        with torch.no_grad():
            _, info = vq(many)
            code = vq.codebook.double().numpy()
        xs = unit(x.double().numpy()) if cosine else x.double().numpy()
        d = distances(xs, code, cosine)[0]
        z = -(d if cosine else np.sqrt(d)) / case["heat"]
        p = np.exp(z - z.max())
        p /= p.sum()
        seen = np.bincount(info["embed_indices"].numpy(), minlength=size) / 3000
        require(0.5 * np.abs(seen - p).sum() < 0.12, "codes were sampled with frequencies %r, expected %r", seen.tolist(), p.tolist())
        ctx.label("sampled")
    vq.eval()
    x = randn((case["n"], DIM), g)
    x_q, info = vq(x)
    check_step(dict(options=opt, size=size), vq, x, x_q, info, vq.codebook.detach().double().numpy(), "evaluation of a learned codebook")
    ctx.label("transformed" if sim else "plain")
    if sim or case["learnable"] or sampled:
        ctx.nontrivial()


@st.composite
def pvq_case(draw):
    return dict(groups=draw(st.integers(1, 3)), size=draw(st.integers(LEAST, 5)), n=draw(st.integers(LEAST, 6)), seed=draw(st.integers(0, 9999)), cosine=draw(st.booleans()), train=draw(st.booleans()))


def check_pvq(case, ctx):
    from accelerate.state import PartialState
    from model.vq import ProductVectorQuantize

    PartialState()
    keops.serialise()
    torch.manual_seed(case["seed"])
    k = case["groups"]
    pvq = ProductVectorQuantize(case["size"], DIM * k, k, kmeans_init=False, use_cosine_sim=case["cosine"], threshold_ema_dead_code=0).train(case["train"])
    import copy
    single = [copy.deepcopy(m) for m in pvq.vq_modules]
    x = randn((case["n"], DIM * k), gen(case["seed"]))
    out, info, raw = pvq(x)
    parts = [m(x[:, i * DIM:(i + 1) * DIM].contiguous()) for i, m in enumerate(single)]
    require(close(out, torch.cat([p[0] for p in parts], 1), atol=1e-6), "a product code is not its groups' codes")
    require(torch.equal(info["embed_indices"], torch.stack([p[1]["embed_indices"] for p in parts], 1)), "product indices differ from the groups' indices")
    for key in ("perplexity", "normalized_perplexity", "loss", "loss_embed", "loss_commitment"):
        require(close(info[key], torch.stack([p[1][key] for p in parts]).mean(), 1e-4), "%s is not the mean over groups", key)
    for m, s in zip(pvq.vq_modules, single):
        for name, v in m.state_dict().items():
            require(torch.equal(v, s.state_dict()[name]), "group state %s differs from a separate quantiser", name)
    codes = pvq.from_indices(info["embed_indices"])
    want = torch.cat([pvq.codebook[i][info["embed_indices"][:, i]] for i in range(k)], 1)
    require(torch.equal(codes, want), "from_indices of a product code")
    if k > 1 and case["size"] > 1:
        ctx.nontrivial()


@st.composite
def kmeans_case(draw):
    return dict(n=draw(st.integers(LEAST, 14)), k=draw(st.integers(LEAST, 5)), iters=draw(st.integers(1, 12)), cosine=draw(st.booleans()), seed=draw(st.integers(0, 9999)), groups=draw(st.integers(1, 4)))


def check_kmeans(case, ctx):
    from accelerate.state import PartialState
    from model.vq import kmeans

    PartialState()
    g = gen(case["seed"])
    torch.manual_seed(case["seed"])
    centres = randn((case["groups"], DIM), g, 4)
    x = centres[torch.randint(0, case["groups"], (case["n"],), generator=g)] + 0.1 * randn((case["n"], DIM), g)
    if case["cosine"]:
        x = F.normalize(x, dim=-1)
    if case["n"] < case["k"]:
        try:
            kmeans(x, case["k"], case["iters"], case["cosine"])
        except ValueError:
            return
        require(False, "k-means made %d clusters of %d samples", case["k"], case["n"])
    means, bins = kmeans(x, case["k"], case["iters"], case["cosine"])
    require(means.shape == (case["k"], DIM) and int(bins.sum()) == case["n"], "cluster sizes %r of %d samples", bins.tolist(), case["n"])
    xs, ms = x.double().numpy(), means.double().numpy()
    require(np.isfinite(ms).all(), "k-means produced non-finite centres")
    if case["cosine"]:
        require(np.abs(np.linalg.norm(ms, axis=1) - 1).max() < 1e-3, "centres are not unit vectors")
    # every centre is the mean of the samples counted for it: sum over centres of bins*mean equals the sum of samples
    if not case["cosine"]:
        require(np.allclose((bins.double().numpy()[:, None] * ms).sum(0), xs.sum(0), atol=1e-2), "centres are not the means of their samples")
    if case["n"] > case["k"] > 1:
        ctx.nontrivial()


CAMPAIGNS = [
    Campaign("fake", fake_case, check_fake, quick=1200, thorough=60000, shards=2),
    Campaign("regions", regions_case, check_regions, quick=300, thorough=12000, shards=1),
    Campaign("avg4", avg4_case, check_avg4, quick=400, thorough=20000, shards=1),
    Campaign("conv", conv_case, check_conv, quick=300, thorough=15000, shards=1),
    Campaign("dwconv", dwconv_case, check_dwconv, quick=300, thorough=15000, shards=1),
    Campaign("dense", dense_case, check_dense, quick=500, thorough=20000, shards=1),
    Campaign("norm", norm_case, check_norm, quick=250, thorough=12000, shards=1),
    Campaign("layers", layers_case, check_layers, quick=400, thorough=15000, shards=1),
    Campaign("embed", embed_case, check_embed, quick=150, thorough=4000, shards=1),
    Campaign("hash", hash_case, check_hash, quick=400, thorough=20000, shards=1),
    Campaign("vq", vq_case, check_vq, quick=240, thorough=20000, shards=2),
    Campaign("learned", learned_case, check_learned, quick=120, thorough=8000, shards=2),
    Campaign("pvq", pvq_case, check_pvq, quick=120, thorough=5000, shards=1),
    Campaign("kmeans", kmeans_case, check_kmeans, quick=200, thorough=8000, shards=1),
]
