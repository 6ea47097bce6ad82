"""C17: exported weights equal the trained model."""
import contextlib
import io
import os
import random

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import engine, keops, zoo
from vlib.api import Campaign, Reject, require

RULE = ("A case is an architecture with its options, generated parameters (some beyond the quantised range) and generated boards. Non-trivial: "
        "a payload that was written, decoded and compared with the model on at least one board with stones; a graph that was run on another board or batch size "
        "than it was traced with.")
ASSUMPTIONS = ["the documented struct of each serializer is the format; line tables are addressed as the line encoding (mix9 and later) or the base-3 "
               "window code (mix6 to mix8) prescribes", "most cases shorten the line length of mapping and serializer to 3..7 (the code is generic in it); "
               "the full 11-cell tables are exercised by a few cases per run",
               "parameters respect the model's own weight clipping where the format relies on it (mix6 to mix8)"]
BUDGET = {"quick": 60, "thorough": 800}
NEEDS_EXT = True
LSB = 1.01


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ---------------------------------------------------------------- models
def options(pick, kind):
    eights, b = [8, 16], [False, True]
    if kind in ("mix6", "mix7"):
        o = dict(dim_middle=pick([4, 8]), dim_policy=pick(range(2, 10)), dim_value=pick(range(2, 10)),
                 map_max=pick([0, 2, 30]), input_type=pick(["basic-nostm", "basicns"]))
        if kind == "mix7":
            o["dwconv_kernel_size"] = pick([3, 3, 5])
            o["dim_dwconv"] = pick([None] * 3 + list(range(1, 1 + max(o["dim_policy"], o["dim_value"]))))
        elif pick(b):
            o["input_type"] = "basic"
        return o
    if kind == "mix8":
        o = dict(dim_middle=8, dim_policy=pick(eights), dim_value=pick(eights), dim_value_group=pick(eights))
        o["dim_dwconv"] = pick([v for v in (8, 16) if o["dim_policy"] <= v <= max(o["dim_policy"], o["dim_value"])])
        return o
    if kind == "mix10":
        o = dict(dim_middle=8, dim_feature=pick([32, 40]), dim_dwconv=pick([16, 24, 32]), dim_value=pick(eights))
        o["input_type"] = pick(["basicns", "basic-nostm", "maskns"])
        o["mapping_norm"] = pick(["none", "none", "bn"])
        if o["input_type"] == "maskns" and o["mapping_norm"] == "bn":
            o["mapping_norm"] = "none"
        o["spherical_feature"] = pick([False, False, True])
        return o
    P = pick(eights)
    o = dict(dim_middle=8, dim_feature=pick([16, 24]), dim_policy=P, dim_value=pick(eights), dim_dwconv=16 if P == 16 else pick(eights))
    if kind == "mix9":
        for k in ("one_mapping", "no_star_block", "no_dynamic_pwconv", "no_value_group", "use_channel_last"):
            o[k] = pick(b)
    if kind == "mix9svq":
        o["codebook_size"] = pick([4, 16, 64])
        o["num_codebooks"] = pick([1, 2])
        o["use_cosine_sim"] = pick([False, False, True])
    return o


KINDS = ["mix6", "mix7", "mix8", "mix9", "mix9s", "mix9svq", "mix10"]


def build_case(pick, kind, full):
    side = range(1, 14 if full else 10)
    c = dict(kind=kind, args=options(pick, kind), L=11 if full else pick([3, 5, 5, 7]), seed=pick(range(2 ** 20)), gain=pick([0.3, 1, 4, 12]),
             wild=pick([0.5, 1, 1, 3]), boards=[[pick(side), pick(side)] for _ in range(6 if full else pick([1, 2, 3]))], dense=pick([0.1, 0.4, 0.8]))
    if kind == "mix6" and c["args"]["input_type"] == "basic":
        c["stm"] = pick([-1, 1])
    if kind in ("mix7", "mix8"):
        c["bound_scale"] = pick([1.0, 1.0, 0.5])
    return c


@st.composite
def mix_case(draw, kinds=KINDS):
    pick = lambda xs: draw(st.sampled_from(xs))
    return build_case(pick, pick(kinds), False)


def full_cases():
    """One case per architecture (ten on the thorough tier), chosen by the run's seed."""
    r = random.Random("full %s" % os.environ.get("VERIF_SEED", "1"))
    rounds = 10 if os.environ.get("VERIF_TIER") == "thorough" else 1
    return [build_case(r.choice, kind, True) for _ in range(rounds) for kind in reversed(KINDS)]


def shorten(m, L):
    from model.mixnet_components import Mapping

    for name in ("mapping", "mapping0", "mapping1", "mapping2"):
        old = getattr(m, name, None)
        if old is not None:
            setattr(m, name, Mapping(m.input_plane.dim_plane, old.final_conv.in_channels, old.final_conv.out_channels,
                                     use_channel_last=old.d_conv.use_channel_last, fix_direction_order=old.d_conv.fix_direction_order,
                                     normalization="none" if old.norm is None else "bn", line_length=L))


def model_of(c):
    from model import build_model

    if c["kind"] == "mix9svq":
        keops.serialise()
    torch.manual_seed(c["seed"])
    m = build_model(c["kind"], **c["args"])
    if c["L"] != 11:
        shorten(m, c["L"])
    gen = torch.Generator().manual_seed(c["seed"] + 1)
    rand = lambda p: torch.randn(p.shape, generator=gen)
    clip = {}
    for group in (m.weight_clipping if hasattr(m, "weight_clipping") else []):
        clip.update({name: (group["min_weight"], group["max_weight"]) for name in group["params"]})
    with torch.no_grad():
        for name, p in m.named_parameters():
            if name.startswith("mapping") and not name.startswith("mapping_act"):
                if "final_conv" in name:
                    p.mul_(c["gain"])
                    if p.ndim == 1:
                        p.add_(rand(p) * 0.3 * c["gain"])
                elif p.ndim == 1:
                    p.add_(rand(p) * 0.1)
            else:
                if p.ndim <= 1:
                    p.add_(rand(p) * 0.3)
                else:
                    p.mul_(c["wild"])
                if name in clip and c["kind"] in ("mix7", "mix8"):
                    p.clamp_(*clip[name])
                if name == "feature_dwconv.conv.bias" and c["kind"] == "mix8":
                    p.clamp_(-4, 4)
        for name, b in m.named_buffers():
            if name.endswith("running_mean"):
                b.copy_(rand(b) * 0.2)
            elif name.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=gen) + 0.5)
    if c["kind"] == "mix9svq":
        from vlib.zoo import init_codebooks

        init_codebooks(m, gen)
        with torch.no_grad():
            for layer in m.vq_layers:
                for vq in layer.vq_modules:
                    if not c["args"]["use_cosine_sim"]:
                        vq.embed.mul_(2 * c["gain"])
    return m.eval()


def serializer_of(c, **kw):
    from model.serialization import build_serializer

    if "stm" in c:
        kw["side_to_move"] = c["stm"]
    if "bound_scale" in c and c["bound_scale"] != 1.0:
        kw["feature_bound_scale"] = c["bound_scale"]
    s = build_serializer(c["kind"], rule="freestyle", **kw)
    s.line_length = c["L"]
    return s


def payload(c, m, ctx, **kw):
    s = serializer_of(c, **kw)
    out = io.BytesIO()
    a = c["args"]
    unsupported = c["kind"] == "mix7" and a["dim_dwconv"] is not None and a["dim_dwconv"] < a["dim_policy"]
    with torch.no_grad(), quiet():
        s.arch_hash(m) if c["args"].get("input_type", "basic-nostm") != "basic" and (
            c["kind"] != "mix7" or c["args"]["input_type"] == "basic-nostm") else None
        try:
            s.serialize(out, m, torch.device("cpu"))
        except AssertionError as e:
            # weights the format cannot hold are reported; ordinary ones must not be
            require(unsupported or c["wild"] > 1 or c["kind"] == "mix6", "the serializer refuses ordinary weights: %s", e)
            ctx.label("refused")
            return None
    require(not unsupported, "the serializer accepts an architecture whose policy the format cannot hold")
    return out.getvalue()


def boards_of(c):
    r = random.Random(c["seed"])
    for h, w in c["boards"]:
        b = np.zeros((2, h * w), np.int8)
        cells = [i for i in range(h * w) if r.random() < c["dense"]]
        for i in cells:
            b[r.randrange(2), i] = 1
        yield b.reshape(2, h, w)


def batch_of(board, c):
    _, h, w = board.shape
    data = dict(board_input=torch.from_numpy(board.copy())[None], board_size=torch.tensor([[h, w]]), stm_input=torch.tensor([[float(c.get("stm", -1))]]))
    if c["kind"] == "mix9svq":
        from dataset.pipeline.line_encoding import LineEncodingPipeline

        code = LineEncodingPipeline().process({"board_input": board})
        data["line_encoding"] = torch.from_numpy(np.asarray(code["line_encoding"]).astype(np.int64))[None]
        data["line_encoding_total_num"] = torch.tensor([int(np.asarray(code["line_encoding_total_num"]))])
    return data


def arr(p):
    return p.detach().cpu().double().numpy()


def close(got, want, what, tol=0.0, rel=2e-6):
    got, want = np.asarray(got, np.float64), np.asarray(want, np.float64)
    require(got.shape == want.shape, "%s has the shape %s, the model %s", what, got.shape, want.shape)
    bad = np.abs(got - want) > tol + rel * np.abs(want)
    require(not bad.any(), lambda: "%s is %s in the file and %s in the model" % (what, got[bad].ravel()[:4], want[bad].ravel()[:4]))


# ---------------------------------------------------------------- mix6, mix7, mix8
def fit(ints, floats, what):
    """The scale that turns float weights into the stored integers (all within one unit)."""
    ints, floats = np.asarray(ints, np.float64).ravel(), np.asarray(floats, np.float64).ravel()
    k = np.abs(floats).argmax()
    require(floats[k] != 0 and ints[k] * floats[k] > 0, "%s: the largest weight %s is stored as %s", what, floats[k], ints[k])
    scale = ints[k] / floats[k]
    slack = LSB * (1 + np.abs(floats / floats[k]))
    bad = np.abs(ints - floats * scale) > slack
    require(not bad.any(), lambda: "%s is not a scaled copy of the weights: %s stored for %s" % (what, ints[bad][:4], (floats * scale)[bad][:4]))
    return scale, 1.2 / abs(floats[k])


def same_scale(a, ea, b, what):
    require(abs(a - b) <= ea + 1e-5 * abs(b), "%s: the weights are stored at the scale %s, the scales of the file say %s", what, a, b)


def mapped(m, data, kind):
    """The directional features of the model before they are quantised, [4, F, H, W]."""
    plane = m.input_plane(data)
    plane = plane if isinstance(plane, tuple) else (plane,)
    with torch.no_grad():
        if hasattr(m, "mapping"):
            f = m.mapping(*plane)
        elif hasattr(m, "mapping0"):
            f = m.mapping0(*plane)
        else:
            f = torch.cat([m.mapping1(*plane, dirs=[0, 1]), m.mapping2(*plane, dirs=[2, 3])], dim=1)
        if getattr(m, "map_max", 0):
            f = m.map_max * torch.tanh(f / m.map_max)
        if kind == "mix8":
            f = f.clamp(-32, 32)
        if getattr(m, "spherical_feature", False):
            f = torch.nn.functional.normalize(f, p=2, dim=2) * (511 / 32)
        if kind in ("mix9s", "mix9svq", "mix10"):
            f = f.clamp(-511 / 32, 511 / 32)
    return f[0].double().numpy()


def value_mlp(d, m, kind):
    layers = list(m.value_linear) + ([m.value_linear_final] if kind == "mix6" else [])
    for i, layer in enumerate(layers, 1):
        close(d["w%d" % i], arr(layer.fc.weight).T, "value layer %d weight" % i)
        close(d["b%d" % i], arr(layer.fc.bias), "value layer %d bias" % i)


def check_old(c, ctx, m, d):
    kind, L = c["kind"], c["L"]
    P, V = (m.model_size[1:3] if kind != "mix8" else m.model_size[2:4])
    value_mlp(d, m, kind)
    if kind == "mix6":
        scale = 1 / float(d["before_mlp"])
        table_scale = scale
        slope = np.tanh(arr(m.mapping_activation.neg_slope) / 6) * 6
        close(d["slope"], (slope - 1) / 8 * 2 ** 15, "the slope of the map activation", LSB)
        close(d["bias"], arr(m.mapping_activation.bias) * scale, "the bias of the map activation", LSB)
        close(d["value_slope"], arr(m.value_activation.neg_slope) - 1, "the value slope", 1e-6)
        conv, bias, k = arr(m.policy_conv.conv.weight), arr(m.policy_conv.conv.bias), 9
        pw, prelu = arr(m.policy_linear.conv.weight)[0, :, 0, 0], arr(m.policy_activation.neg_slope).item()
    else:
        scale = 1 / float(d["direct"])
        table_scale = scale / 4
        close(d["prelu"], np.clip(arr(m.mapping_activation.weight) * 2 ** 15, -32768, 32767), "the prelu of the map", LSB)
        conv, bias = arr(m.feature_dwconv.conv.weight), arr(m.feature_dwconv.conv.bias)
        k = conv.shape[2] * conv.shape[3]
    want = conv.reshape(conv.shape[0], k).T
    wscale, err = fit(d["conv"], want, "the depthwise convolution")
    if kind == "mix6":
        close(d["conv_bias"], bias * scale * wscale / 2 ** 15, "the depthwise bias", LSB + np.abs(bias).max() * scale * err / 2 ** 15)
        after = scale * wscale / 2 ** 15
        rel = err / wscale
    else:
        after = 1 / float(d["after"])
        same_scale(wscale, err, after / scale * 2 ** 15, "the depthwise convolution")
        close(d["conv_bias"], bias * after, "the depthwise bias", LSB)
        rel = 0
        if kind == "mix7":
            pw, prelu = arr(m.policy_pwconv.conv.weight)[0, :, 0, 0], arr(m.policy_activation.weight).item()
    if kind != "mix8":
        pscale, err = fit(d["pw"], pw, "the pointwise convolution")
        pos = float(d["pos"])
        same_scale(pscale, err + pscale * rel, 1 / pos / after * 2 ** 15, "the pointwise convolution")
        close(float(d["neg"]), prelu * pos, "the policy slope", 1e-12, 1e-5)
    else:
        require(d["buckets"] == 1, "the number of head buckets is %s", d["buckets"])
        lin = m.policy_pwconv_weight_linear
        for got, p in (("p1.w", arr(lin[0].fc.weight).T), ("p1.b", arr(lin[0].fc.bias)), ("p1.prelu", arr(lin[1].weight)),
                       ("p2.w", arr(lin[2].fc.weight).T), ("p2.b", arr(lin[2].fc.bias))):
            close(d[got], p, "policy " + got)
        for g in ("corner", "edge", "center", "quad"):
            l = getattr(m, "value_%s_linear" % g).fc
            close(d[g + ".w"], arr(l.weight).T, g + " weight")
            close(d[g + ".b"], arr(l.bias), g + " bias")
            close(d[g + ".prelu"], arr(getattr(m, "value_%s_act" % g).weight), g + " prelu")
        w = arr(m.policy_output[1].weight)[0, :, 0, 0] / after
        close(d["out_pos"], w, "the policy output", 0, 1e-5)
        close(d["out_neg"], w * arr(m.policy_output[0].weight), "the policy output of negatives", 1e-12, 1e-5)
        close(d["out_bias"], arr(m.policy_output[1].bias).item(), "the policy output bias")
    for board in boards_of(c):
        f = mapped(m, batch_of(board, c), kind)
        rows = np.moveaxis(d["map"][engine.old_rows(board, False, L)], -1, 1)
        close(rows, f * table_scale, "the line table on a %dx%d board" % board.shape[1:], LSB + table_scale * 2e-5, 1e-4)
        total = np.abs(rows.sum(0)).max()
        require(kind == "mix6" or total <= 32767, "the summed features reach %s", total)
        ctx.nontrivial(board.any())


# ---------------------------------------------------------------- mix9 and later
def directional(c, m, d, board, data, ctx):
    """The integer features of the model, after comparing them with the table."""
    L, kind = c["L"], c["kind"]
    fixed = kind != "mix9"
    f = mapped(m, data, kind)
    codes = engine.encodings(board, fixed, L)
    if kind == "mix9svq":
        # the code the model picks for every cell of a direction
        with torch.no_grad():
            picked = m.do_feature_quantization(torch.from_numpy(f).float()[None], data)[0][0].double().numpy()
        rows, codes_used = [], []
        for k in range(4):
            book, index = d["book%d" % (1 + k // 2)], d["index%d" % (1 + k // 2)]
            parts = [book[j][index[codes[k]][..., j]] for j in range(book.shape[0])]
            rows.append(np.moveaxis(np.concatenate(parts, -1), -1, 0))
            codes_used += [(k // 2, v) for v in index[codes[k]][..., 0].ravel().tolist()]
        ctx.label("several codes", len(set(codes_used)) > 2)
        rows, f_int = np.stack(rows), np.around(np.clip(picked, -16, 511 / 32).astype(np.float32) * 32)
        bad = np.abs(rows - f_int).max(1) > 0                    # [4, H, W]
        for k, y, x in np.argwhere(bad):
            require(near_tie(m.vq_layers[k // 2], f[k, :, y, x], rows[k, :, y, x]), "the code stored for a line decodes to %s, the model picks %s",
                    rows[k, :, y, x][:6], f_int[k, :, y, x][:6])
            ctx.label("near-tie")
        return f_int.astype(np.int64)
    maps = [d["map0"]] * 4 if "map0" in d else [d["map1"]] * 2 + [d["map2"]] * 2
    rows = np.stack([np.moveaxis(maps[k][codes[k]], -1, 0) for k in range(4)])
    exact = np.clip(f, -16, 511 / 32) * 32
    f_int = np.around(exact.astype(np.float32))
    bad = np.abs(rows - exact) > 0.5 + 2e-3
    require(not bad.any(), lambda: "the table holds %s for the features %s (scale 32) on a %dx%d board" % (
        (rows[bad][:4], exact[bad][:4]) + board.shape[1:]))
    return f_int.astype(np.int64)


def near_tie(layer, f, row):
    """Whether the code with the decoded value is as near to f as the best one."""
    at = 0
    for vq in layer.vq_modules:
        book = vq.codebook.detach().double().numpy()
        n = book.shape[1]
        v, r = f[at:at + n], row[at:at + n]
        at += n
        ints = np.around(np.clip(book, -16, 511 / 32).astype(np.float32) * 32)
        if vq.use_cosine_sim:
            v = v / max(np.linalg.norm(v), 1e-12)
            score = -(book / np.maximum(np.linalg.norm(book, axis=1, keepdims=True), 1e-12)) @ v
        else:
            score = ((book - v) ** 2).sum(1)
        hit = (ints == r).all(1)
        if not hit.any() or score[hit].min() > score.min() + 1e-3 * (1 + abs(score.min())):
            return False
    return True


def check_new(c, ctx, m, d):
    kind = c["kind"]
    D = m.model_size[2 if kind == "mix10" else 4]
    for board in boards_of(c):
        data = batch_of(board, c)
        rows = directional(c, m, d, board, data, ctx)
        got = (engine.infer_mix10 if kind == "mix10" else engine.infer_mix9)(d, m, engine.features(d, rows, D))
        with torch.no_grad():
            out = m(data)
        want = {"value": out["value"][0], "policy": out["policy"][0]}
        if kind == "mix10":
            want["value_small"], want["policy_small"] = (out["aux_losses"][k][1][0] for k in ("value_small", "policy_small"))
        for k, v in want.items():
            v = v.double().numpy()
            if k.startswith("value"):
                close(got[k][:3], v, "%s of the integer inference on a %dx%d board" % ((k,) + board.shape[1:]), 1e-6, 1e-6)
                require(got[k][3] == 0, "the padded output of %s is %s", k, got[k][3])
            else:
                p, err = got[k]
                close(p, v[0], "%s of the integer inference on a %dx%d board" % ((k,) + board.shape[1:]), err, 1e-5)
        ctx.nontrivial(board.any())


def check_mix(c, ctx):
    m = model_of(c)
    buf = payload(c, m, ctx)
    ctx.label(c["kind"])
    if buf is None:
        return
    d = engine.take(buf, engine.FIELDS[c["kind"]](m, c["L"]))
    (check_old if c["kind"] in ("mix6", "mix7", "mix8") else check_new)(c, ctx, m, d)


# ---------------------------------------------------------------- text exports
TEXT = {
    "mix6": dict(map_lr_slope_sub1div8="slope", map_lr_bias="bias", policyConvWeight="conv", policyConvBias="conv_bias", policyFinalConv="pw",
                 policy_neg_slope="neg", policy_pos_slope="pos", scale_beforemlp="before_mlp", value_lr_slope_sub1="value_slope",
                 mlp_w1="w1", mlp_b1="b1", mlp_w2="w2", mlp_b2="b2", mlp_w3="w3", mlp_b3="b3"),
    "mix7": dict(map_prelu_weight="prelu", dw_conv_weight="conv", dw_conv_bias="conv_bias", policy_pwconv_weight="pw", value_l1_weight="w1",
                 value_l1_bias="b1", value_l2_weight="w2", value_l2_bias="b2", value_l3_weight="w3", value_l3_bias="b3", policy_neg_weight="neg",
                 policy_pos_weight="pos", value_sum_scale_after_conv="after", value_sum_scale_direct="direct"),
    "mix8": dict(map_prelu_weight="prelu", feature_dwconv_weight="conv", feature_dwconv_bias="conv_bias", value_sum_scale_after_conv="after",
                 value_sum_scale_direct="direct", num_head_buckets="buckets", value_l1_weight="w1", value_l1_bias="b1", value_l2_weight="w2",
                 value_l2_bias="b2", value_l3_weight="w3", value_l3_bias="b3", policy_output_pos_weight="out_pos",
                 policy_output_neg_weight="out_neg", policy_output_bias="out_bias"),
    "mix9": dict(feature_dwconv_weight="conv", feature_dwconv_bias="conv_bias", policy_output_weight="out", policy_output_bias="out_bias"),
}
for _l in ("l1", "l2"):
    for _a, _b in (("weight", "w"), ("bias", "b"), ("prelu", "prelu")):
        if not (_l == "l2" and _a == "prelu"):
            TEXT["mix8"]["policy_pwconv_layer_%s_%s" % (_l, _a)] = "p%s.%s" % (_l[1], _b)
for _g in ("corner", "edge", "center", "quad"):
    for _a, _b in (("weight", "w"), ("bias", "b"), ("prelu", "prelu")):
        TEXT["mix8"]["value_%s_%s" % (_g, _a)] = "%s.%s" % (_g, _b)
for _a, _b in (("weight", "w"), ("bias", "b")):
    t9 = TEXT["mix9"]
    t9["policy_pwconv_" + _a] = "pw." + _b
    for _l in "123":
        t9["value_l%s_%s" % (_l, _a)] = "v%s.%s" % (_l, _b)
        t9["policy_pwconv_layer_l%s_%s" % (_l, _a)] = "p%s.%s" % (_l, _b)
    for _g in ("corner", "edge", "center", "quad"):
        t9["value_%s_%s" % (_g, _a)] = "%s.%s" % (_g, _b)
        for _s in ("up1", "up2", "down"):
            t9["value_%s_%s_%s" % (_g, _s, _a)] = "%s.%s.%s" % (_g, _s, _b)
TEXT["mix9s"] = TEXT["mix9"]


@st.composite
def text_case(draw):
    c = draw(mix_case(kinds=sorted(TEXT)))
    c["L"] = draw(st.sampled_from([3, 5]))
    c["boards"] = [[5, 5]]
    return c


def check_text(c, ctx):
    m = model_of(c)
    buf = payload(c, m, ctx)
    if buf is None:
        return
    kind = c["kind"]
    d = engine.take(buf, engine.FIELDS[kind](m, c["L"]))
    s = serializer_of(c, text_output=True)
    require(not s.is_binary and not s.needs_header, "a text serializer calls its output binary")
    path = os.path.join(ctx.tmp, "w.txt")
    with open(path, "wt") as f, torch.no_grad(), quiet():
        s.serialize(f, m, torch.device("cpu"))
    with open(path) as f:
        text = engine.read_text(f.read())
    left = dict(d)
    for name in sorted(k for k in d if k.startswith("map")):
        key = "featuremap" + name[3:]
        require(key in text, "the text export lacks %s", key)
        rows = text.pop(key)
        table = left.pop(name)
        require(len(rows) and len(rows[0]) == 1 and rows[0][0] == len(rows) - 1, "%s announces %s rows and holds %d", key, rows[0][:1], len(rows) - 1)
        index = np.array([int(r[0]) for r in rows[1:]])
        require(len(set(index.tolist())) == len(index), "%s repeats a row", key)
        require(all(len(r) == 1 + table.shape[1] for r in rows[1:]), "a row of %s has a wrong length", key)
        close(np.array([r[1:] for r in rows[1:]]), table[index], key)
        unused = np.ones(len(table), bool)
        unused[index] = False
        require(not table[unused].any(), "%s omits rows that are used", key)
    for name, rows in text.items():
        require(name in TEXT[kind], "the text export has an unknown section %s", name)
        key = TEXT[kind][name]
        require(key in left, "the text export has the section %s, which the binary one lacks", name)
        want = np.asarray(left.pop(key), np.float64).ravel()
        got = np.array([v for r in rows for v in r])
        if kind in ("mix9", "mix9s") and key in ("v3.w", "v3.b"):
            want = want[:len(want) // 4 * 3]
        close(got, want, "the section " + name, 1e-12, 1e-6)
    require(not left, "the text export lacks %s", sorted(left))
    ctx.nontrivial()
    ctx.label(kind)


# ---------------------------------------------------------------- flat 7x7 nets
LADDERS = ["flat_ladder7x7_nnue_v1", "flat_ladder7x7_nnue_v2"]
SQUARES = ["flat_square7x7_nnue_v%s" % v for v in ("2", "3", "4", "4_vq")]


def flat_build(pick, kind):
    a = dict(dim_middle=pick([2, 4, 8]), value_no_draw=pick([True, False, False]), input_type=pick(["basic-nostm", "basicns"]))
    if kind in LADDERS:
        a.update(dim_policy=pick([0, 0, 3]), dim_value=pick(range(1, 20)))
    else:
        a["dim_feature"] = pick([2, 4, 6]) if kind.endswith("v3") else pick([2, 4])
        if kind[-1] in "23":
            a["quant_int4"] = pick([False, True])
        elif kind[-1] == "4":
            a["unit_feature_vector"] = pick([False, True])
        else:
            a.update(codebook_size=pick([8, 300]), use_cosine_sim=pick([False, True]))
    batch = pick([8192, 50000])
    size = 3 ** (12 if kind.endswith("v3") else 16)
    edge = [pick([4096, batch]) * pick(range(1, size // batch)) - pick([0, 1]), size - 1]      # chunks at the borders of the exporter's batches
    if kind.endswith("vq"):
        return dict(kind=kind, args=a, edge=edge, batch=batch, seed=pick(range(2 ** 20)), gain=pick([4, 10]), wild=1,
                    boards=[pick(range(2 ** 20)) for _ in range(6)], dense=pick([0.4, 0.8]))
    return dict(kind=kind, args=a, edge=edge, batch=batch, seed=pick(range(2 ** 20)), gain=pick([0.3, 1, 4]), wild=pick([1, 0.3, 1, 1, 2]), boards=[pick(range(2 ** 20)) for _ in range(4)],
                dense=pick([0.1, 0.4, 0.8]))


@st.composite
def flat_case(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    return flat_build(pick, pick(LADDERS + SQUARES[1:2] * 2))


def big_cases():
    """The nets with tables of 3**16 rows, in turn."""
    r = random.Random("big %s" % os.environ.get("VERIF_SEED", "1"))
    rounds = 6 if os.environ.get("VERIF_TIER") == "thorough" else 1
    cases = [flat_build(r.choice, k) for _ in range(rounds) for k in SQUARES[2:] + SQUARES[:1]]
    for i, c in enumerate(cases):
        c["args"]["value_no_draw"] = i % 2 == 0
    return cases


def flat_model(c):
    from model import build_model

    if c["kind"].endswith("vq"):
        keops.serialise()
    torch.manual_seed(c["seed"])
    m = build_model(c["kind"], **c["args"])
    gen = torch.Generator().manual_seed(c["seed"] + 1)
    rand = lambda p: torch.randn(p.shape, generator=gen)
    with torch.no_grad():
        for name, p in m.named_parameters():
            if name.startswith("mapping"):
                if p.ndim == 1:
                    p.add_(rand(p) * 0.2 * c["gain"])
                else:
                    p.mul_(c["gain"] if name.split(".")[-3:-2] and p.shape[0] == m.model_size[-1] else 1.0)
            elif name.startswith("value_linears"):
                if p.ndim == 1:
                    p.add_(rand(p) * 0.3)
                elif c["wild"] <= 1:
                    p.mul_(c["wild"])
                    first = name.startswith("value_linears.0") and "square" in c["kind"]
                    p.clamp_(-128 / (256 if first else 128), 127 / (256 if first else 128))
                else:
                    p.mul_(c["wild"])
        for name, b in m.named_buffers():
            if name.endswith("running_mean"):
                b.copy_(rand(b) * 0.2)
            elif name.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=gen) + 0.5)
    if c["kind"].endswith("vq"):
        from vlib.zoo import init_codebooks

        init_codebooks(m, gen)
        m.eval()
        with torch.no_grad():
            for net, vq in zip(m.mapping4x4, m.vq_layer):          # codes near the features of random chunks
                n = vq.embed.shape[-2]
                cells = torch.randint(0, 3, (n, 4, 4), generator=gen)
                f = net(torch.stack([cells == 1, cells == 2], 1).float()).flatten(1)
                f = torch.nn.functional.normalize(f, p=2, dim=-1) if m.unit_feature_vector else f.clamp(-1, 127 / 128)
                f = f + 0.05 * torch.randn(f.shape, generator=gen)
                vq.embed.copy_((torch.nn.functional.normalize(f, dim=-1) if m.unit_feature_vector else f).view(vq.embed.shape))
                vq._invalidate_dead_code_cache()
    return m.eval()


def flat_boards(c):
    for seed in c["boards"]:
        r = random.Random(seed)
        b = np.zeros((2, 7, 7), np.int8)
        for y in range(7):
            for x in range(7):
                if r.random() < c["dense"]:
                    b[r.randrange(2), y, x] = 1
        yield b
    if c["kind"] in SQUARES:
        for code in c["edge"]:
            b = b.copy()
            cells = 12 if c["kind"].endswith("v3") else 16
            for i in range(cells):
                b[:, i // 4, i % 4] = [(code // 3 ** i) % 3 == 1, (code // 3 ** i) % 3 == 2]
            yield b


@contextlib.contextmanager
def only_batches(codes):
    """Compute only the batches of the 3**16 tables that hold the codes looked up later (the exporter's loop shows a progress bar)."""
    from model.serialization import flatnet

    def some(it, *a, **k):
        if not isinstance(it, range) or len(it) * it.step < 3 ** 16:
            return it
        wanted = {v // it.step * it.step for v in codes}
        return [v for v in it if v in wanted]

    saved = {k: getattr(flatnet, k) for k in ("tqdm", "ascii_hist") if hasattr(flatnet, k)}
    if "tqdm" in saved:
        flatnet.tqdm = some
    if "ascii_hist" in saved:
        flatnet.ascii_hist = lambda *a, **k: None
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(flatnet, k, v)


class CodedMapping(torch.nn.Module):
    """Stands in for a mapping over 3**16 inputs: rows for the wanted codes are computed, the others are zero."""

    def __init__(self, inner, codes, dim):
        super().__init__()
        self.inner, self.dim = inner, dim
        self.codes = torch.tensor(sorted(set(codes)))
        self.powers = torch.tensor([3 ** i for i in range(16)], dtype=torch.float64)

    def forward(self, x):
        code = ((x[:, 0] + 2 * x[:, 1]).flatten(1).double() @ self.powers).long()
        hit = torch.isin(code, self.codes)
        out = torch.zeros(len(x), self.dim, 1, 1)
        if hit.any():
            out[hit] = self.inner(x[hit])
        return out


def flat_features(m, kind, data):
    """The features the model looks up, per table: [lookups, F], before rounding."""
    plane = m.input_plane(data)
    out = []
    with torch.no_grad():
        for t, patterns in engine.FLAT_PATTERNS[kind]:
            if kind in LADDERS:
                net = m.mapping if kind == LADDERS[0] else (m.mapping1, m.mapping2)[t]
            elif kind.endswith("v2"):
                net = (m.mapping4x4, m.mapping4x3)[t]
            elif kind.endswith("v3"):
                net = (m.mapping3x4_corner1, m.mapping3x4_corner2, m.mapping3x4_middle)[t]
            else:
                net = m.mapping4x4[t]
            rows = []
            for y0, y1, x0, x1, k, *how in patterns:
                chunk = plane[:, :, y0:y1, x0:x1]
                if how == ["before"]:
                    chunk = chunk.transpose(2, 3)
                chunk = torch.rot90(chunk, k, (2, 3))
                if how == ["after"]:
                    chunk = chunk.transpose(2, 3)
                rows.append(net(chunk).flatten())
            f = torch.stack(rows)
            if getattr(m, "unit_feature_vector", False):
                f = torch.nn.functional.normalize(f, p=2, dim=-1)
            out.append(f)
    return out


def check_flat(c, ctx):
    from model.serialization import build_serializer

    kind = c["kind"]
    m = flat_model(c)
    boards = list(flat_boards(c))
    kw = dict(batch_size=c["batch"], compile=False, enable_amp=False) if "_v4" in kind else {}
    s = build_serializer(kind, rule="freestyle", board_size=7, **kw)
    require(not s.needs_header, "the flat formats have no header")
    out = io.BytesIO()
    codes = [v for b in boards for t, vs in engine.flat_codes(kind, b) for v in vs]
    inner = None
    if kind.endswith("square7x7_nnue_v2"):
        inner, m.mapping4x4 = m.mapping4x4, CodedMapping(m.mapping4x4, [v for b in boards for v in engine.flat_codes(kind, b)[0][1]], m.model_size[-1])
    ctx.label(kind)
    try:
        with torch.no_grad(), quiet(), (only_batches(codes) if "_v4" in kind else contextlib.nullcontext()):
            s.serialize(out, m, torch.device("cpu"))
    except AssertionError as e:
        require(c["wild"] > 1, "the serializer refuses ordinary weights: %s", e)
        ctx.label("refused")
        return
    if inner is not None:
        m.mapping4x4 = inner
    d = engine.take_flat(out.getbuffer(), engine.fields_flat(kind, m))
    scales = engine.flat_scales(kind, m)
    for board in boards:
        data = dict(board_input=torch.from_numpy(board.copy())[None], board_size=torch.tensor([[7, 7]]), stm_input=torch.tensor([[-1.0]]))
        rows = engine.flat_rows(kind, m, d, board)
        feats = flat_features(m, kind, data)
        used = []
        if kind.endswith("vq"):
            with torch.no_grad():
                picked = m._do_vector_quantize([f.clamp(-1, 127 / 128)[:, None].clone() for f in feats])[0]
        for t, (r, f) in enumerate(zip(rows, feats)):
            scale = scales[t]
            top = (scale - 1) / scale
            if kind.endswith("vq"):
                want = np.around(np.clip(picked[t][:, 0].numpy(), -1, top) * scale).astype(np.int64)
                bad = np.abs(want - r).max(1) > 0
                ctx.label("several codes", len(set(map(tuple, r.tolist()))) > 1)
                vq = m.vq_layer[t]
                for i in np.flatnonzero(bad):
                    require(flat_tie(vq, f[i].clamp(-1, top).double().numpy(), r[i]), "the code stored for a chunk decodes to %s, the model picks %s", r[i], want[i])
                    ctx.label("near-tie")
                used.append(want)
                continue
            exact = np.clip(f.double().numpy(), -1, top) * scale
            bad = np.abs(r - exact) > 0.5 + 2e-3
            require(not bad.any(), lambda: "table %d holds %s for the features %s" % (t, r[bad][:4], exact[bad][:4]))
            used.append(np.around((f.clamp(-1, top) * scale).numpy()).astype(np.int64))
        with torch.no_grad():
            want = m(data)["value"][0].double().numpy()
        got = engine.flat_value(kind, m, d, used)
        n = 1 if m.value_no_draw else 3
        close(got[:n], want, "the value of the integer inference", 1e-6, 1e-6)
        require(not got[n:].any(), "the padded outputs are %s", got[n:])
        ctx.nontrivial(board.any())
    ctx.label("one output", m.value_no_draw)


def flat_tie(vq, f, row):
    book = vq.codebook.detach().double().numpy()
    ints = np.clip(np.around(np.clip(book, -1, 127 / 128).astype(np.float32) * 128), -128, 127)
    if vq.use_cosine_sim:
        score = -(book / np.maximum(np.linalg.norm(book, axis=1, keepdims=True), 1e-12)) @ (f / max(np.linalg.norm(f), 1e-12))
    else:
        score = ((book - f) ** 2).sum(1)
    hit = (ints == row).all(1)
    return hit.any() and score[hit].min() <= score.min() + 1e-3 * (1 + abs(score.min()))


# ---------------------------------------------------------------- exported graphs
JIT = """mix6 mix6-stm mix7 mix7-stm mix8 mix8-stm mix9 mix9-one mix9-plain mix9s mix9s-stm mix10 mix10-norm ladder1 ladder3 pos3x3 pos3x4 pos3x4-stride
hashconv hash7x7 hash7x7-sub square1 square2 square4 square4-unit mobile1 mobile2 mobile2-nostm res1 res2 res2-gn""".split()
ONNX = "mix6 mix6-stm mix7 mix7-stm mix8 mix8-stm pos3x3 pos3x4 pos3x4-stride hashconv mobile1 mobile2 mobile2-nostm res1 res2 res2-gn".split()


@st.composite
def graph_case(draw):
    kind = draw(st.sampled_from(["torch-jit", "torch-jit", "onnx"]))
    key = draw(st.sampled_from(JIT if kind == "torch-jit" else ONNX))
    shapes = zoo.ZOO[key][2]
    return dict(type=kind, key=key, seed=draw(st.integers(0, 1 << 20)), traced=list(draw(st.sampled_from(shapes))), softmax=draw(st.booleans()),
                rules=draw(st.lists(st.sampled_from(["freestyle", "standard", "renju"]), min_size=1, max_size=3, unique=True)),
                sizes=draw(st.lists(st.integers(5, 22), min_size=1, max_size=4, unique=True)),
                batches=[[draw(st.integers(1, 4)), list(draw(st.sampled_from(shapes)))] for _ in range(draw(st.integers(2, 4)))])


def check_graph(c, ctx):
    import export
    from vlib import data

    model_type, args, _, flags = zoo.ZOO[c["key"]]
    model = zoo.build(c["key"], c["seed"])
    ckpt = os.path.join(ctx.tmp, "ckpt_x_0000001.pt")
    torch.save(dict(model=model.state_dict(), metadata={}), ckpt)
    arrays = data.processed_arrays(np.random.default_rng(c["seed"]), 2, *c["traced"], 0, tag=False)
    arrays["bf"] = np.stack([zoo.sample(c["key"], c["seed"] + i, tuple(c["traced"]))["board_input"] for i in range(2)])
    data.save_npz(os.path.join(ctx.tmp, "d.npz"), arrays)
    ds, paths, dargs = "iterative_processed_katago_numpy", [os.path.join(ctx.tmp, "d.npz")], dict(boardsizes=[tuple(c["traced"])])
    out = os.path.join(ctx.tmp, "net.out")
    ea = dict(rules=list(c["rules"]), boardsizes=list(c["sizes"])) if c["type"] == "onnx" else {}
    if c["softmax"]:
        ea["apply_policy_softmax"] = True
    with quiet(), contextlib.redirect_stderr(io.StringIO()):
        export.export(checkpoint=ckpt, output=out, rundir=None, export_type=c["type"], model_type=model_type, model_args=dict(args), export_model_args={},
                      export_args=ea, use_cpu=True, datas=paths, dataset_type=ds, dataset_args=dargs,
                      dataloader_args={})
    if c["type"] == "torch-jit":
        graph = torch.jit.load(out)
        run = lambda b, s: graph(b, s)
    else:
        import onnx
        from onnx.reference import ReferenceEvaluator

        ev = ReferenceEvaluator(out)
        require(ev.output_names == ["value", "policy"] and set(ev.input_names) <= {"board_input", "global_input"},
                "the graph has the inputs %r and outputs %r", ev.input_names, ev.output_names, key="graph")
        proto = onnx.load(out)
        v = proto.model_version
        rules = {n for i, n in enumerate(["freestyle", "standard", "renju"]) if v >> (32 + i) & 1}
        require(v >> 48 == 1 and rules == set(c["rules"]) and {i + 1 for i in range(32) if v >> i & 1} == set(c["sizes"]) and not v >> 35 & 0x1fff,
                "the graph announces version %#x", v, key="graph")
        run = lambda b, s: [torch.from_numpy(np.array(x)) for x in
                            ev.run(None, {k: t.numpy() for k, t in dict(board_input=b, global_input=s).items() if k in ev.input_names})]
    model.eval()
    for k, (n, shape) in enumerate(c["batches"]):
        d = zoo.batch([zoo.sample(c["key"], c["seed"] * 31 + k * 7 + i, tuple(shape)) for i in range(n)])
        with torch.no_grad():
            want = model(dict(d))
            try:
                got = run(d["board_input"], d["stm_input"])
            except Exception as e:
                require(False, "the %s graph traced on %r fails on a batch of %d on %r: %r", c["type"], c["traced"], n, shape, e, key="graph")
        value, policy = want["value"], want["policy"]
        if c["softmax"]:
            policy = torch.softmax(policy.flatten(1).double(), 1).reshape(policy.shape).float()
        policy = policy.reshape(n, *shape)
        for name, x, y in (("value", got[0], value), ("policy", got[1], policy)):
            require(tuple(x.shape) == tuple(y.shape), "the %s of a batch of %d on %r has the shape %r", name, n, shape, tuple(x.shape), key="graph")
            tol = (1e-6 if c["type"] == "torch-jit" else 2e-4) * (1 + y.abs().max().item())
            require((x - y).abs().max().item() <= tol, "the %s graph traced on %r differs by %.3g in the %s of a batch of %d on %r", c["type"], c["traced"],
                    (x - y).abs().max().item(), name, n, shape, key="graph")
    ctx.nontrivial(any(list(b[1]) != c["traced"] or b[0] > 1 for b in c["batches"]))
    ctx.label("%s %s" % (c["type"], c["key"]))


CAMPAIGNS = [
    Campaign("flat-big", None, check_flat, quick=3, thorough=18, shards=1, case_timeout=600, exhaustive=big_cases),
    Campaign("mix-full", None, check_mix, quick=7, thorough=70, shards=7, case_timeout=600, exhaustive=full_cases),
    Campaign("mix", mix_case, check_mix, quick=112, thorough=2400, shards=8, case_timeout=300),
    Campaign("text", text_case, check_text, quick=24, thorough=300, shards=4, case_timeout=300),
    Campaign("flat", flat_case, check_flat, quick=14, thorough=240, shards=2, case_timeout=300),
    Campaign("graph", graph_case, check_graph, quick=48, thorough=900, shards=3, case_timeout=120),
]
