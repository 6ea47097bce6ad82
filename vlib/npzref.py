"""Generator of NPZ files with options, and the reference decoding of their rows (written from the format description)."""
import itertools
import math
import os
import struct
import zipfile

import numpy as np
from hypothesis import strategies as st

from .data import pack_planes, save_npz

# expressions over raw arrays, with the meaning spelled out in NumPy
COND_P = [("vt[:, 0] > vt[:, 1]", lambda a: a["vt"][:, 0] > a["vt"][:, 1]),
          ("gf[:, 0] > 0", lambda a: a["gf"][:, 0] > 0),
          ("abs(vt[:, 0] - vt[:, 2]) <= 16", lambda a: np.abs(a["vt"][:, 0] - a["vt"][:, 2]) <= 16),
          ("np.logical_or(gf[:, 0] < 0, vt[:, 1] > vt[:, 2])", lambda a: (a["gf"][:, 0] < 0) | (a["vt"][:, 1] > a["vt"][:, 2]))]
COND_R = [("globalTargetsNC[:, 0] > globalTargetsNC[:, 1]", lambda a: a["globalTargetsNC"][:, 0] > a["globalTargetsNC"][:, 1]),
          ("globalInputNC[:, 0] > 0", lambda a: a["globalInputNC"][:, 0] > 0),
          ("policyTargetsNCMove[:, 0, 0] >= 10", lambda a: a["policyTargetsNCMove"][:, 0, 0] >= 10)]


def draw_options(draw, kind, symmetry=True):
    o = dict(fixed_side_input=draw(st.booleans()), fixed=draw(st.sampled_from([None, None, 10, 9])))
    if symmetry:
        o["apply_symmetry"] = True
    if kind in "PR":
        o["has_pass_move"] = draw(st.booleans())
        o["filter_stm"] = draw(st.sampled_from([None, None, -1, 1]))
        o["cond"] = draw(st.sampled_from([None, None, 0, 1, 2] + ([3] if kind == "P" else [])))
    if kind == "R":
        o["value_td_level"] = draw(st.integers(0, 2))
    if kind == "S":
        o["drop_extra"] = draw(st.booleans())
    return o


def cases(draw, kinds="PRS", symmetry=False, max_files=3, max_rows=8, min_rows=1):
    kind = draw(st.sampled_from(list(kinds)))
    base = draw(st.integers(5, 8))
    o = draw_options(draw, kind, symmetry)
    sizes = [[base, base]]
    if draw(st.booleans()):
        sizes += [[base + 1, base + 1]] + ([[base, base + 1], [base + 1, base - 1]] if kind == "P" else [])
    c = dict(kind=kind, opt=o, seed=draw(st.integers(0, 1 << 20)), rows=[draw(st.integers(min_rows, max_rows)) for _ in range(draw(st.integers(1, max_files)))])
    n = len(c["rows"])
    if kind == "P":
        c["bs"] = [draw(st.sampled_from(sizes)) for _ in range(n)]
        c["admit"] = draw(st.lists(st.sampled_from(sizes), min_size=1, unique_by=tuple))
        c["channels"] = draw(st.integers(2, 4))
        c["gf"] = draw(st.sampled_from([0, 1, 1, 2, 3]))
        c["vt"] = draw(st.integers(3, 5))
        c["pt"] = draw(st.sampled_from(["flat", "flat", "spatial", "none"]))
        if o["has_pass_move"] and c["pt"] == "spatial":
            c["pt"] = "flat"
        if o["cond"] in (1, 3) and c["gf"] == 0 or o["filter_stm"] is not None and c["gf"] == 0:
            c["gf"] = 1
        if draw(st.booleans()):
            o["board_input_channels"] = draw(st.lists(st.integers(0, c["channels"] - 1), min_size=2, max_size=4))
        if c["gf"] and (draw(st.booleans()) or o["fixed_side_input"] and c["gf"] > 1):
            o["stm_input_channel"] = draw(st.integers(0, c["gf"] - 1))
        if draw(st.booleans()):
            o["value_target_channels"] = draw(st.permutations(range(c["vt"])))[:draw(st.integers(3, c["vt"]))]
        c["dtypes"] = draw(st.sampled_from([["int8", "float32"], ["uint8", "float32"], ["float32", "float16"], ["bool", "float64"], ["int16", "float32"]]))
        c["fortran"] = draw(st.booleans())
        c["comp"] = [draw(st.booleans()) for _ in range(n)]
        c["extra"] = draw(st.booleans())
        if draw(st.integers(0, 2)) == 0:
            c["forms"] = [draw(st.none() | st.fixed_dictionaries(dict(version=st.sampled_from([1, 2, 3]), store=st.sampled_from(["all", "none", "some"]),
                                                                      gap=st.sampled_from([0, 0, 4, 200]), zip64=st.booleans(),
                                                                      order=st.integers(0, 119)))) for _ in range(n)]
        if n > 1 and draw(st.integers(0, 2)) == 0:
            stm = c["gf"] == 1 and o["filter_stm"] is None and o["cond"] not in (1, 3) and "stm_input_channel" not in o and not o["fixed_side_input"]
            whole = c["pt"] == ("flat" if o["has_pass_move"] else "spatial")
            c["absent"] = [[k for k, ok in (("gf", stm), ("pt", whole)) if ok and draw(st.booleans())] for _ in range(n)]
    elif kind == "R":
        phys = base
        c["bs"] = [[phys, phys]] * n
        logical = [[phys, phys]]
        if draw(st.booleans()):
            logical += [[phys - 1, phys - 1], [phys, phys - 1]]
        c["logical"] = logical
        c["admit"] = draw(st.lists(st.sampled_from(logical), min_size=1, unique_by=tuple))
        c["gic"] = draw(st.sampled_from([1, 1, 6, 19]))
        c["channels"] = draw(st.integers(3, 5))
        c["comp"] = [draw(st.booleans()) for _ in range(n)]
        c["policies"] = draw(st.integers(1, 3))
        if o["cond"] == 1 and c["gic"] != 1:
            pass
    else:
        c["bs"] = [draw(st.sampled_from(sizes)) for _ in range(n)]
        c["admit"] = draw(st.lists(st.sampled_from(sizes), min_size=1, unique_by=tuple))
        c["comp"] = [draw(st.booleans()) for _ in range(n)]
    return c


def alike(c):
    """Every file has the same fields, which the mapped types want."""
    return len({tuple(a) for a in c.get("absent") or [[]]}) == 1


VALUE_STEP = 64          # value targets carry row number * 64 + channel


def save_form(path, arrays, version, store, gap, zip64, order):
    """A NPZ archive other writers make: newer array headers, only some members compressed, another order, longer local headers."""
    names = next(itertools.islice(itertools.permutations(sorted(arrays)), order % math.factorial(len(arrays)), None))
    with zipfile.ZipFile(path, "w", allowZip64=True) as z:
        for j, name in enumerate(names):
            plain = store == "all" or store == "some" and j % 2 == 0
            info = zipfile.ZipInfo(name + ".npy")
            info.compress_type = zipfile.ZIP_STORED if plain else zipfile.ZIP_DEFLATED
            if gap:
                info.extra = struct.pack("<HH", 0xCAFE, gap) + bytes(gap)
            with z.open(info, "w", force_zip64=zip64) as f:
                np.lib.format.write_array(f, arrays[name], version=(version, 0))


def write(c, root):
    """-> (paths, raw arrays per file, planes)."""
    os.makedirs(root, exist_ok=True)
    paths, raws = [], []
    uid = 0
    dim = np.random.default_rng(c["seed"]).integers(1, 70000, 12).astype(np.uint32)
    for i, n in enumerate(c["rows"]):
        rng = np.random.default_rng([c["seed"], i])
        h, w = c["bs"][i]
        ids = np.arange(uid, uid + n)[:, None] * VALUE_STEP
        if c["kind"] == "P":
            idt, fdt = c["dtypes"]
            bf = rng.integers(0, 2, (n, c["channels"], h, w))
            a = {"bf": bf.astype(idt)}
            if c["gf"]:
                a["gf"] = rng.choice([-1.0, 1.0], (n, c["gf"])).astype(fdt)
            width = np.float32 if fdt == "float16" else fdt
            v = ids + np.arange(c["vt"])[None]
            # some comparisons between channels should go either way, without losing the identity
            v = v + rng.integers(0, 7, v.shape) * 8
            a["vt"] = v.astype(width)
            if c["pt"] != "none":
                p = rng.integers(0, 200, (n, h * w + 1)).astype(fdt)
                a["pt"] = p if c["pt"] == "flat" else np.ascontiguousarray(p[:, :-1].reshape(n, h, w))
            for k in c["absent"][i] if c.get("absent") else []:
                a.pop(k)
            if c["fortran"]:
                a = {k: np.asfortranarray(x) for k, x in a.items()}
            if c["extra"]:
                a["unrelated"] = rng.random((3, 3))
        elif c["kind"] == "R":
            planes = rng.integers(0, 2, (n, c["channels"], h, w)).astype(np.uint8)
            planes[:, 0] = 0
            for j in range(n):
                lh, lw = c["logical"][int(rng.integers(0, len(c["logical"])))]
                planes[j, 0, :lh, :lw] = 1
                planes[j, 1:, lh:] = 0
                planes[j, 1:, :, lw:] = 0
            levels = c["opt"]["value_td_level"] + 1
            gi = rng.choice([-1.0, 1.0], (n, c["gic"])) * rng.choice([1.0, 6.5], (n, c["gic"]) if c["gic"] > 1 else (n, 1) if False else (1, 1))
            if c["gic"] == 1:
                gi = np.sign(gi)
            v = ids + np.arange(4 * levels)[None] % 8 + rng.integers(0, 7, (n, 4 * levels)) * 8
            pol = rng.integers(0, 100, (n, c["policies"], h * w + 1)).astype(np.int16)
            if n > 1:
                pol[int(rng.integers(0, n)), 0, :-1] = 0
            a = {"binaryInputNCHWPacked": pack_planes(planes), "globalInputNC": gi.astype(np.float32),
                 "globalTargetsNC": v.astype(np.float32), "policyTargetsNCMove": pol}
        else:
            planes = rng.integers(0, 2, (n, 3, h, w)).astype(np.uint8)
            v = ids + np.arange(4)[None]
            a = {"binaryInputNCHWPacked": pack_planes(planes), "globalInputNC": rng.choice([-1.0, 1.0], (n, 2)).astype(np.float32),
                 "globalTargetsNC": v.astype(np.float32), "policyTargetsNCHW": rng.integers(0, 30, (n, 1, h * w)).astype(np.int16),
                 "sparseInputNCHWU8": rng.integers(0, 256, (n, 10, h * w)).astype(np.uint8),
                 "sparseInputNCHWU16": rng.integers(0, 60000, (n, 2, h * w)).astype(np.uint16), "sparseInputDim": dim}
        path = os.path.join(root, "d%02d.npz" % i)
        if c.get("forms") and c["forms"][i]:
            save_form(path, a, **c["forms"][i])
        else:
            save_npz(path, a, c["comp"][i])
        paths.append(path)
        raws.append((a, planes if c["kind"] != "P" else None, uid))
        uid += n
    return paths, raws


def kwargs(c):
    o = c["opt"]
    out = dict(boardsizes=[tuple(a) for a in c["admit"]], fixed_side_input=o["fixed_side_input"])
    if o["fixed"]:
        out["fixed_board_size"] = o["fixed"]
    for k in ("has_pass_move", "value_td_level", "drop_extra", "board_input_channels", "stm_input_channel", "value_target_channels", "apply_symmetry"):
        if o.get(k) is not None:
            out[k] = o[k]
    if o.get("filter_stm") is not None:
        out["filter_stm"] = o["filter_stm"]
    if o.get("cond") is not None:
        out["filter_condition"] = (COND_P if c["kind"] == "P" else COND_R)[o["cond"]][0]
    return out


def fields(sample, fixed_side):
    """The fixed-side view: with white to move planes 0 and 1 (all planes reversed) and win and loss change places."""
    if fixed_side and sample["stm_input"][0] > 0:
        s = dict(sample, board_input=sample["board_input"][::-1])
        v = sample["value_target"].copy()
        v[0], v[1] = sample["value_target"][1], sample["value_target"][0]
        s["value_target"] = v
        if "sparse_feature_input" in s:
            f = sample["sparse_feature_input"]
            s["sparse_feature_input"] = np.stack([f[j] for j in (4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10)])
        return s
    return sample


def pad_plane(a, size):
    """Puts the last two axes into the top left corner of a size x size plane."""
    out = np.zeros(a.shape[:-2] + (size, size), dtype=a.dtype)
    out[..., :a.shape[-2], :a.shape[-1]] = a
    return out


def pad(s, size):
    s = dict(s)
    h, w = s["board_input"].shape[-2:]
    s["board_input"] = pad_plane(s["board_input"], size)
    if "sparse_feature_input" in s:
        s["sparse_feature_input"] = pad_plane(s["sparse_feature_input"], size)
    p = s["policy_target"]
    if p.ndim == 1:
        s["policy_target"] = np.concatenate([pad_plane(p[:-1].reshape(h, w), size).reshape(-1), p[-1:]])
    else:
        s["policy_target"] = pad_plane(p, size)
    return s


OPS = [lambda a: a, lambda a: np.rot90(a, 1, (-2, -1)), lambda a: np.rot90(a, 2, (-2, -1)), lambda a: np.rot90(a, 3, (-2, -1)),
       lambda a: a[..., ::-1, :], lambda a: a[..., :, ::-1], lambda a: np.swapaxes(a, -2, -1),
       lambda a: np.swapaxes(a[..., ::-1, ::-1], -2, -1)]
RECT_OPS = [OPS[0], OPS[2], OPS[4], OPS[5]]


def transform_board(a, op, h, w):
    """Applies op to the h x w board in the corner of the plane, leaving the rest of the plane alone."""
    out = a.copy()
    out[..., :h, :w] = op(a[..., :h, :w])
    return out


def transform(s, op):
    h, w = (int(v) for v in s["board_size"])
    t = dict(s, board_input=transform_board(s["board_input"], op, h, w))
    if "sparse_feature_input" in s:
        t["sparse_feature_input"] = transform_board(s["sparse_feature_input"], op, h, w)
    p = s["policy_target"]
    if p.ndim == 1:
        H, W = s["board_input"].shape[-2:]
        t["policy_target"] = np.concatenate([transform_board(p[:-1].reshape(H, W), op, h, w).reshape(-1), p[-1:]])
    else:
        t["policy_target"] = transform_board(p, op, h, w)
    return t


def variants(s, symmetry=None):
    """All allowed symmetric forms of a sample: symmetry names as in the configuration."""
    h, w = (int(v) for v in s["board_size"])
    if symmetry in (None, False):
        return [s]
    if h != w:
        return [transform(s, op) for op in RECT_OPS]
    idx = {True: range(8), "default": range(8), "rotate": (0, 1, 2, 3), "flip": (0, 4, 5, 6, 7), "flip_diag_rotate180": (0, 2, 6, 7)}[symmetry]
    return [transform(s, OPS[i]) for i in idx]


def expected(c, raws):
    """{row number: sample} of the rows every dataset type has to deliver, before augmentation and padding; in file order."""
    o = c["opt"]
    out = {}
    admit = {tuple(a) for a in c["admit"]}
    for i, (a, planes, uid) in enumerate(raws):
        n = c["rows"][i]
        h, w = c["bs"][i]
        keep = np.ones(n, bool)
        if c["kind"] == "P":
            if (h, w) not in admit:
                continue
            if o["filter_stm"] is not None:
                keep &= a["gf"][:, 0] == o["filter_stm"]
            if o["cond"] is not None:
                keep &= COND_P[o["cond"]][1](a)
            for j in np.nonzero(keep)[0]:
                bf = a["bf"][j].astype(np.int8)
                if o.get("board_input_channels") is not None:
                    bf = np.stack([bf[k] for k in o["board_input_channels"]])
                gf = a["gf"][j].astype(np.float32) if "gf" in a else np.zeros(1, np.float32)
                if o.get("stm_input_channel") is not None:
                    gf = gf[[o["stm_input_channel"]]]
                vt = a["vt"][j].astype(np.float32)
                if o.get("value_target_channels") is not None:
                    vt = np.array([vt[k] for k in o["value_target_channels"]], np.float32)
                if "pt" in a:
                    p = a["pt"][j].astype(np.float32)
                else:
                    p = np.zeros(h * w + 1 if o["has_pass_move"] else (h, w), np.float32)
                if p.ndim == 1 and not o["has_pass_move"]:
                    p = p[:h * w].reshape(h, w)
                out[uid + int(j)] = dict(board_size=np.array([h, w]), board_input=bf, stm_input=gf, value_target=vt, policy_target=p)
        elif c["kind"] == "R":
            g = a["globalInputNC"]
            if o["filter_stm"] is not None:
                col = g[:, 0] if g.shape[1] == 1 else np.sign(g[:, 5])
                keep &= col == o["filter_stm"]
            if o["cond"] is not None:
                keep &= COND_R[o["cond"]][1](a)
            for j in np.nonzero(keep)[0]:
                lh, lw = int(planes[j, 0, :, 0].sum()), int(planes[j, 0, 0, :].sum())
                if (lh, lw) not in admit:
                    continue
                stm = g[j, 0] if g.shape[1] == 1 else (1.0 if g[j, 5] > 0 else -1.0)
                k = 4 * o["value_td_level"]
                pol = a["policyTargetsNCMove"][j, 0].astype(np.float32)
                if not o["has_pass_move"]:
                    pol = pol[:-1]
                pol = pol / (pol.sum(dtype=np.float64) + 1e-9)
                if not o["has_pass_move"]:
                    pol = pol.reshape(h, w)
                out[uid + int(j)] = dict(board_size=np.array([lh, lw]), board_input=planes[j, 1:3].astype(np.int8),
                                         stm_input=np.array([stm], np.float32), value_target=a["globalTargetsNC"][j, k:k + 3],
                                         policy_target=pol)
        else:
            if (h, w) not in admit:
                continue
            for j in range(n):
                pol = a["policyTargetsNCHW"][j, 0].reshape(h, w).astype(np.float64)
                s = dict(board_size=np.array([h, w]), board_input=planes[j, 1:3].astype(np.int8),
                         stm_input=a["globalInputNC"][j, [0]], value_target=a["globalTargetsNC"][j, :3], policy_target=pol / (pol.sum() + 1e-7),
                         sparse_feature_input=np.concatenate([a["sparseInputNCHWU8"][j].astype(np.int32), a["sparseInputNCHWU16"][j].astype(np.int32)]
                                                             ).reshape(12, h, w), sparse_feature_dim=a["sparseInputDim"].astype(np.int32))
                out[uid + j] = s
    for k, s in out.items():
        s = fields(s, o["fixed_side_input"])
        if o.get("drop_extra"):
            s = {f: v for f, v in s.items() if not f.startswith("sparse")}
        out[k] = s
    return out


def row_uid(value):
    return int(value[0]) // VALUE_STEP


def rows(batch):
    """Rows of a batch dict as dicts."""
    n = len(batch["board_size"])
    return [{k: np.asarray(v)[i] for k, v in batch.items()} for i in range(n)]


def difference(got, want):
    """None if a delivered row equals the expected one, else what differs."""
    if got.keys() != want.keys():
        return f"fields {sorted(got)} instead of {sorted(want)}"
    for k in want:
        a, b = np.asarray(got[k]), np.asarray(want[k])
        if a.shape != b.shape:
            return f"{k} has shape {a.shape} instead of {b.shape}"
        if k == "policy_target":
            if not np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=1e-5, atol=1e-7):
                return f"{k} is {a.tolist()} instead of {b.tolist()}"
        elif not np.array_equal(a.astype(np.float64), b.astype(np.float64)):
            return f"{k} is {a.tolist()} instead of {b.tolist()}"
    return None
