"""Independent readers of the exported mix-net weights, and the integer inference an engine does with them."""
import numpy as np

from vlib.api import require

DELTAS = {False: [(0, 1), (1, 0), (1, 1), (-1, 1)], True: [(0, 1), (1, 0), (-1, 1), (1, 1)]}


# ---------------------------------------------------------------- binary layout
def take(buf, fields):
    """Cut `buf` into the arrays of the documented struct; its length must match exactly."""
    out, at = {}, 0
    for name, kind, shape in fields:
        n = int(np.prod(shape))
        if kind == "p10":               # 10-bit two's complement values in a stream of little-endian uint64
            size = (n * 10 + 63) // 64 * 8
        elif kind == "pad":
            size = n
        else:
            size = n * np.dtype(kind).itemsize
        part = buf[at:at + size]
        require(len(part) == size, "the payload ends inside %s (%d of %d bytes)", name, len(part), size)
        at += size
        if kind == "pad":
            require(not any(part), "the padding %s is not zero", name)
        elif kind == "p10":
            bits = np.unpackbits(np.frombuffer(part, np.uint8), bitorder="little")
            require(not bits[n * 10:].any(), "the tail of the packed %s is not zero", name)
            v = bits[:n * 10].reshape(n, 10) @ (1 << np.arange(10))
            out[name] = np.where(v >= 512, v - 1024, v).reshape(shape)
        else:
            v = np.frombuffer(part, kind).reshape(shape)
            out[name] = v.astype(np.int64) if v.dtype.kind in "iu" else v
    require(at == len(buf), "the payload has %d bytes, the documented layout %d", len(buf), at)
    return out


def total_encodings(L):
    from line_encoding_cpp import get_total_num_encoding

    return get_total_num_encoding(L)


def fc(name, o, i):
    return [(name + ".w", "<i1", (o, i)), (name + ".b", "<i4", (o,))]


def star(name, o, i):
    return fc(name + ".up1", 2 * o, i) + fc(name + ".up2", 2 * o, i) + fc(name + ".down", o, o)


def fields_mix6(m, L):
    _, P, V = m.model_size
    F = P + V
    return [("map", "<i2", (4 * 3 ** L, F)), ("slope", "<i2", (F,)), ("bias", "<i2", (F,)), ("conv", "<i2", (9, P)),
            ("conv_bias", "<i2", (P,)), ("pw", "<i2", (P,)), ("neg", "<f4", ()), ("pos", "<f4", ()), ("before_mlp", "<f4", ()),
            ("value_slope", "<f4", (V,)), ("w1", "<f4", (V, V)), ("b1", "<f4", (V,)), ("w2", "<f4", (V, V)), ("b2", "<f4", (V,)),
            ("w3", "<f4", (V, 3)), ("pad0", "pad", (20,)), ("b3", "<f4", (3,)), ("pad1", "pad", (20,))]


def fields_mix7(m, L):
    _, P, V = m.model_size
    F, D, k = max(P, V), m.dim_dwconv, m.dwconv_kernel_size
    return [("map", "<i2", (4 * 3 ** L, F)), ("prelu", "<i2", (F,)), ("conv", "<i2", (k * k, D)), ("conv_bias", "<i2", (D,)),
            ("pw", "<i2", (P,)), ("w1", "<f4", (V, V)), ("b1", "<f4", (V,)), ("w2", "<f4", (V, V)), ("b2", "<f4", (V,)),
            ("w3", "<f4", (V, 3)), ("b3", "<f4", (3,)), ("neg", "<f4", ()), ("pos", "<f4", ()), ("after", "<f4", ()),
            ("direct", "<f4", ()), ("pad", "pad", (4,))]


def fields_mix8(m, L):
    _, F, P, V, G = m.model_size
    D = m.dim_dwconv
    out = [("map", "<i2", (4 * 3 ** L, F)), ("prelu", "<i2", (F,)), ("conv", "<i2", (9, D)), ("conv_bias", "<i2", (D,)),
           ("after", "<f4", ()), ("direct", "<f4", ()), ("buckets", "<i4", ()), ("pad0", "pad", (52,)),
           ("p1.w", "<f4", (F, P)), ("p1.b", "<f4", (P,)), ("p1.prelu", "<f4", (P,)), ("p2.w", "<f4", (P, 4 * P)), ("p2.b", "<f4", (4 * P,))]
    for name, n in (("corner", F), ("edge", F), ("center", F), ("quad", G)):
        out += [(name + ".w", "<f4", (n, G)), (name + ".b", "<f4", (G,)), (name + ".prelu", "<f4", (G,))]
    return out + [("w1", "<f4", (F + 4 * G, V)), ("b1", "<f4", (V,)), ("w2", "<f4", (V, V)), ("b2", "<f4", (V,)), ("w3", "<f4", (V, 3)),
                  ("b3", "<f4", (3,)), ("out_pos", "<f4", (4,)), ("out_neg", "<f4", (4,)), ("out_bias", "<f4", ()), ("pad1", "pad", (16,))]


def head_mix9(m):
    _, F, P, V, D = m.model_size
    flag = lambda k: getattr(m, k, False)
    out = [("conv", "<i2", (9, D)), ("conv_bias", "<i2", (D,))]
    if flag("no_dynamic_pwconv"):
        out += [("pw.w", "<i2", (16, P)), ("pw.b", "<i4", (16,))]
    else:
        out += fc("p1", 2 * P, F) + fc("p2", 16 * P + 16, 2 * P)
    groups = (("corner", F), ("edge", F), ("center", F), ("quad", V))
    if not flag("no_value_group"):
        for name, n in groups:
            out += fc(name, V, n) if flag("no_star_block") else star(name, V, n)
    out += fc("v1", V, F if flag("no_value_group") else F + 4 * V) + fc("v2", V, V) + fc("v3", 4, V)
    return out + [("out", "<f4", (16,)), ("out_bias", "<f4", ()), ("pad", "pad", (44,))]


def fields_mix9(m, L):
    F, n = m.model_size[1], total_encodings(L)
    maps = ["map0"] if getattr(m, "one_mapping", False) else ["map1", "map2"]
    return [(k, "p10", (n, F)) for k in maps] + head_mix9(m)


def fields_mix9svq(m, L):
    F, n, k = m.model_size[1], total_encodings(L), m.num_codebooks
    return [("book%d" % i, "p10", (k, m.codebook_size, F // k)) for i in (1, 2)] + [("index%d" % i, "<u2", (n, k)) for i in (1, 2)] + head_mix9(m)


def sizes_mix10(m):
    D = m.model_size[2]
    return max(D // 2, 16), max(D // 4, 16), max(D, 16), max(D // 2, 16), max(D // 4, 16)


def fields_mix10(m, L):
    _, F, D, V = m.model_size
    n = total_encodings(L)
    si, so, li, lm, lo = sizes_mix10(m)
    return ([("map1", "p10", (n, F)), ("map2", "p10", (n, F)), ("conv", "<i2", (9, D)), ("conv_bias", "<i2", (D,))]
            + fc("ps1", V, V) + fc("ps2", so * (si + 1), V) + fc("pl0", V, V) + fc("pl1", lm * (li + 1), V) + fc("pl2", lo * (lm + 1), V)
            + fc("s1", V, F) + fc("s2", V, V) + fc("s3", 4, V) + [("pad0", "pad", (48,))]
            + fc("gate", 2 * F, V) + fc("corner", V, F) + fc("edge", V, F) + fc("center", V, F) + fc("quad", V, V)
            + fc("v1", V, 5 * V) + fc("v2", V, V) + fc("v3", 4, V) + [("pad1", "pad", (48,))]
            + [("s_out", "<f4", (so,)), ("l_out", "<f4", (lo,)), ("s_bias", "<f4", ()), ("l_bias", "<f4", ()), ("pad2", "pad", (56,))])


FIELDS = dict(mix6=fields_mix6, mix7=fields_mix7, mix8=fields_mix8, mix9=fields_mix9, mix9s=fields_mix9, mix9svq=fields_mix9svq, mix10=fields_mix10)


# ---------------------------------------------------------------- lines of a board
def lines(shape, delta):
    """Every maximal line of the board along delta, as lists of cells."""
    h, w = shape
    dy, dx = delta
    for y in range(h):
        for x in range(w):
            if not (0 <= y - dy < h and 0 <= x - dx < w):
                line = []
                while 0 <= y + dy * len(line) < h and 0 <= x + dx * len(line) < w:
                    line.append((y + dy * len(line), x + dx * len(line)))
                yield line


def encodings(board, fixed, L):
    """[4, H, W] rows of the mix9 and later tables (and of the sides seen by each direction)."""
    from dataset.pipeline.line_encoding import transform_lines_to_line_encoding

    tok = (board[0] + 2 * board[1]).astype(np.int8)
    out = np.zeros((4,) + tok.shape, np.int64)
    for d, delta in enumerate(DELTAS[fixed]):
        for line in lines(tok.shape, delta):
            codes = transform_lines_to_line_encoding(np.array([[tok[c] for c in line]], np.int8), L)[0]
            for c, code in zip(line, codes):
                out[(d,) + c] = code
    return out


def old_rows(board, fixed, L):
    """[4, H, W] rows of the tables of mix6 to mix8."""
    tok = (board[0] + 2 * board[1]).astype(int)
    half, out = L // 2, np.zeros((4,) + tok.shape, np.int64)
    for d, delta in enumerate(DELTAS[fixed]):
        for line in lines(tok.shape, delta):
            t = [int(tok[c]) for c in line]
            for i, c in enumerate(line):
                lo, hi = i - half, i + half                     # the window, cut at the walls
                l, r = max(0, -lo), max(0, hi - len(line) + 1)  # missing cells on each side
                code = sum(t[lo + j] * 3 ** j for j in range(l, L - r))
                code += (2 if l else 0) * 3 ** L + (1 if r else 0) * 3 ** L
                code += sum(3 ** j for j in range(l - 1))
                if r:
                    code += sum(3 ** j for j in range(L + 1 - r, L))
                out[(d,) + c] = code
    return out


# ---------------------------------------------------------------- integer inference (mix9 and later)
def q8(x):
    return np.clip(x, -128, 127)


def lin(d, name, x, relu=True):
    y = d[name + ".w"] @ x + d[name + ".b"]
    return np.maximum(y, 0) if relu else y


def features(d, rows, D):
    """Integer features [F, H, W] at scale 128 from the directional table rows [4, F, H, W] at scale 32."""
    s = np.maximum(rows.sum(0), 0)
    h, w = s.shape[1:]
    x = np.pad(4 * s[:D], ((0, 0), (1, 1), (1, 1)))
    acc = np.zeros((D, h, w), np.int64)
    for k in range(9):
        y, z = divmod(k, 3)
        acc += np.clip((x[:, y:y + h, z:z + w] * d["conv"][k][:, None, None]) >> 16, -32768, 32767)
    acc = np.maximum(acc + d["conv_bias"][:, None, None], 0)
    return np.clip(np.concatenate([acc, s[D:]]), -32768, 32767)


def regions(f):
    h, w = f.shape[1:]
    cut = lambda n: [0, n // 3 + (n % 3 == 2), n // 3 * 2 + (n % 3 > 0), n]
    ys, xs = cut(h), cut(w)
    return [[f[:, ys[i]:ys[i + 1], xs[j]:xs[j + 1]].sum((1, 2)) >> 5 for j in range(3)] for i in range(3)]


def avg4(a, b, c, e):
    a, b, c, e = (q8(v >> 7) for v in (a, b, c, e))
    ab, ce = q8((a + b + 1) >> 1), q8((c + e + 1) >> 1)
    return q8((ab + ce + 1) >> 1)


def star_block(d, name, x):
    x = q8(x)
    a, b = q8(lin(d, name + ".up1", x) >> 7), q8(lin(d, name + ".up2", x, False) >> 7)
    p = (a * b).reshape(-1, 2).sum(1)
    return lin(d, name + ".down", q8(p >> 7))


def grouped(d, r, block):
    v = [[block(("corner", "edge", "corner", "edge", "center", "edge", "corner", "edge", "corner")[3 * i + j], r[i][j])
          for j in range(3)] for i in range(3)]
    return [block("quad", avg4(v[i][j], v[i][j + 1], v[i + 1][j], v[i + 1][j + 1])) for i in (0, 1) for j in (0, 1)]


def pointwise(o, mid, inp, x, extra=0):
    """A dynamic pointwise convolution whose weights are the output of a layer: values at scale 128**3, float error bound."""
    w = np.clip(o[:mid * inp], -32768, 32767).reshape(mid, inp)
    b = o[mid * inp:] * 128
    flat = x[:inp].reshape(inp, -1)
    y = np.maximum(w @ flat + b[:, None], 0)
    err = (np.abs(w) @ np.abs(flat) + np.abs(b)[:, None]) * 1e-5 + np.abs(w).sum(1)[:, None] * extra
    return y.reshape((mid,) + x.shape[1:]), err.reshape((mid,) + x.shape[1:])


def project(w, b, y, err):
    w = w.astype(np.float64)
    return (w[:, None, None] * y).sum(0) + float(b), (np.abs(w)[:, None, None] * (err + np.abs(y) * 1e-5)).sum(0) + 1e-5


def infer_mix9(d, m, f):
    _, F, P, V, D = m.model_size
    fs = f.sum((1, 2)) >> 8
    if "pw.w" in d:
        flat = f[:P].reshape(P, -1)
        y = np.maximum(d["pw.w"] @ flat + d["pw.b"][:, None], 0).reshape((16,) + f.shape[1:])
        err = ((np.abs(d["pw.w"]) @ np.abs(flat) + np.abs(d["pw.b"])[:, None]) * 1e-5).reshape(y.shape)
    else:
        o = lin(d, "p2", q8(lin(d, "p1", q8(fs)) >> 7), False)
        y, err = pointwise(o, 16, P, f)
    policy = project(d["out"], d["out_bias"], y, err)
    x = q8(fs)
    if not getattr(m, "no_value_group", False):
        if getattr(m, "no_star_block", False):
            block = lambda name, v: lin(d, name, q8(v))
        else:
            block = lambda name, v: star_block(d, name, v)
        x = np.concatenate([x] + [q8(v >> 7) for v in grouped(d, regions(f), block)])
    value = lin(d, "v3", q8(lin(d, "v2", q8(lin(d, "v1", x) >> 7)) >> 7), False)
    return {"value": value / 128.0 ** 2, "policy": policy}


def infer_mix10(d, m, f):
    _, F, D, V = m.model_size
    si, so, li, lm, lo = sizes_mix10(m)
    down = lambda x: q8(x >> 7)
    fs = f.sum((1, 2)) >> 8
    small = lin(d, "s2", down(lin(d, "s1", q8(fs))))
    out = {"value_small": lin(d, "s3", down(small), False) / 128.0 ** 2}
    mod = down(lin(d, "gate", down(small), False))

    def gated(r):
        r = q8(r)
        return down((np.concatenate([r, r]) * mod).reshape(-1, 2).sum(1))

    r = [[gated(v) for v in row] for row in regions(f)]
    quads = grouped(d, r, lambda name, v: lin(d, name, q8(v)))
    large = lin(d, "v2", down(lin(d, "v1", np.concatenate([down(small)] + [down(v) for v in quads]))))
    out["value"] = lin(d, "v3", down(large), False) / 128.0 ** 2

    y, err = pointwise(lin(d, "ps2", down(lin(d, "ps1", down(small))), False), so, si, f)
    out["policy_small"] = project(d["s_out"], d["s_bias"], y, err)
    shared = down(lin(d, "pl0", down(large)))
    y, err = pointwise(lin(d, "pl1", shared, False), lm, li, f)
    y = np.clip(y >> 14, -32768, 32767)
    y, err = pointwise(lin(d, "pl2", shared, False), lo, lm, y, extra=(np.ceil(err.max() / 2 ** 14) if err.max() > 1e-3 else 0))
    out["policy"] = project(d["l_out"], d["l_bias"], y, err)
    return out


# ---------------------------------------------------------------- text layout
def read_text(text):
    """The named arrays of a text export, and the numbered rows of its feature maps."""
    out, rows, name = {}, {}, None
    for line in text.split("\n"):
        line = line.strip()
        if not line:
            continue
        if line[0].isalpha() and line.split()[0] not in ("nan", "inf"):
            require(line.replace("_", "a").isalnum(), "a text export has the malformed line %r", line[:80])
            require(line not in out, "the section %s appears twice", line)
            name, out[line] = line, []
        else:
            require(name is not None, "a text export starts without a section name")
            try:
                out[name].append([float(v) for v in line.split()])
            except ValueError:
                require(False, "the section %s of a text export has the malformed line %r", name, line[-120:])
    return out


# ---------------------------------------------------------------- flat 7x7 nets
TRIANGLE = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3)]


def square_code(chunk):
    """Little-endian base-3 code of a chunk read row by row."""
    return sum(int(v) * 3 ** i for i, v in enumerate(chunk.ravel()))


def ladder_code(chunk):
    """Big-endian base-3 code of the lower triangle of a 4x4 chunk."""
    code = 0
    for c in TRIANGLE:
        code = code * 3 + int(chunk[c])
    return code


def chunks_of(tok, patterns):
    """Chunks (y0, y1, x0, x1, quarter turns[, transposed before or after turning])."""
    for y0, y1, x0, x1, k, *t in patterns:
        chunk = tok[y0:y1, x0:x1]
        if t and t[0] == "before":
            chunk = chunk.T
        chunk = np.rot90(chunk, k)
        if t and t[0] == "after":
            chunk = chunk.T
        yield chunk


CORNERS = [(0, 4, 0, 4), (0, 4, 3, 7), (3, 7, 3, 7), (3, 7, 0, 4)]
LADDER = [c + (k,) + t for c, pair in zip(CORNERS, [((0, ()), (0, ("before",))), ((1, ()), (-1, ("before",))), ((2, ()), (2, ("before",))),
                                                   ((-1, ()), (1, ("before",)))]) for k, t in pair]
FLAT_PATTERNS = {
    "flat_ladder7x7_nnue_v1": [(0, LADDER)],
    "flat_ladder7x7_nnue_v2": [(0, LADDER), (1, [c + (k,) for c, k in zip(CORNERS, (1, 2, -1, 0))])],
    "flat_square7x7_nnue_v2": [(0, [c + (k,) for c, k in zip(CORNERS, range(4))]), (1, [(0, 4, 2, 5, 0), (2, 5, 3, 7, 1), (3, 7, 2, 5, 2), (2, 5, 0, 4, 3)])],
    "flat_square7x7_nnue_v3": [(0, [(0, 3, 0, 4, 0), (0, 4, 4, 7, 1), (4, 7, 3, 7, 2), (3, 7, 0, 3, 3)]),
                               (1, [(0, 4, 0, 3, 3), (0, 3, 3, 7, 0), (3, 7, 4, 7, 1), (4, 7, 0, 4, 2)]),
                               (2, [(0, 4, 2, 5, 3), (2, 5, 3, 7, 0), (3, 7, 2, 5, 1), (2, 5, 0, 4, 2)])],
    "flat_square7x7_nnue_v4": [(0, [c + (k,) for c, k in zip(CORNERS, range(4))]),
                               (1, [(0, 4, 1, 5, 0), (1, 5, 3, 7, 1), (3, 7, 2, 6, 2), (2, 6, 0, 4, 3), (1, 5, 0, 4, 0, "after"),
                                    (0, 4, 2, 6, 1, "after"), (2, 6, 3, 7, 2, "after"), (3, 7, 1, 5, 3, "after")]),
                               (2, [(1, 5, 1, 5, 0), (1, 5, 2, 6, 1), (2, 6, 2, 6, 2), (2, 6, 1, 5, 3)])],
}
FLAT_PATTERNS["flat_square7x7_nnue_v4_vq"] = FLAT_PATTERNS["flat_square7x7_nnue_v4"]


def flat_codes(kind, board):
    """[(table, [codes])] in the order in which the net looks them up."""
    tok = board[0] + 2 * board[1]
    code = ladder_code if "ladder" in kind else square_code
    return [(t, [code(c) for c in chunks_of(tok, p)]) for t, p in FLAT_PATTERNS[kind]]


def dense(name, o, i, align=0):
    pad = lambda n: [(name + ".pad%d" % n, "pad", (-n % align,))] if align and n % align else []
    return [(name + ".w", "<i1", (o, i))] + pad(o * i) + [(name + ".b", "<i4", (o,))] + pad(4 * o)


def fields_flat(kind, m):
    F = m.model_size[-1]
    if "ladder" in kind:
        W = m.model_size[1] + m.model_size[2]
        return [("map%d" % i, "<i1", (3 ** 10, W)) for i in range(1 + (kind[-1] == "2"))] + dense("l1", 32, F) + dense("l2", 32, 32) + dense("l3", 32, 32) + dense("l4", 4, 32)
    if kind.endswith("v2"):
        first = ("map0", "<u1", (3 ** 16, F // 2)) if m.quant_int4 else ("map0", "<i1", (3 ** 16, F))
        return [first, ("map1", "<i1", (3 ** 12, F))] + dense("l1", 32, 4 * F) + dense("l2", 32, 32) + dense("l3", 4, 32)
    if kind.endswith("v3"):
        maps = [("map%d" % i, "<u1", (3 ** 12, F // 2)) if m.quant_int4 else ("map%d" % i, "<i1" if i == 2 else "<u1", (3 ** 12, F)) for i in range(3)]
        return maps + dense("l1", 64, 4 * F) + dense("l2", 32, 64) + dense("l3", 4, 32)
    pad = lambda name, n: [(name, "pad", (-n % 32,))] if n % 32 else []
    if kind.endswith("vq"):
        head = [("index%d" % i, "<u2", (3 ** 16,)) for i in range(3)] + pad("pad0", 6 * 3 ** 16)
        head += [("book%d" % i, "<i1", (m.codebook_size, F)) for i in range(3)] + pad("pad1", 3 * m.codebook_size * F)
    else:
        head = [("map%d" % i, "<i1", (3 ** 16, F)) for i in range(3)] + pad("pad0", 3 ** 17 * F)
    return head + dense("l1", 32, F, 32) + dense("l2", 32, 32, 32) + dense("l3", 4, 32, 32)


def take_flat(buf, fields):
    """Like take(), leaving the tables in their stored type (they are large)."""
    out, at = {}, 0
    for name, kind, shape in fields:
        n = int(np.prod(shape))
        size = n * (1 if kind == "pad" else np.dtype(kind).itemsize)
        require(at + size <= len(buf), "the payload ends inside %s", name)
        v = np.frombuffer(buf, "<u1" if kind == "pad" else kind, n, at)
        at += size
        if kind == "pad":
            require(not v.any(), "the padding %s is not zero", name)
        else:
            out[name] = v.reshape(shape)
    require(at == len(buf), "the payload has %d bytes, the documented layout %d", len(buf), at)
    return out


def flat_rows(kind, m, d, board):
    """The looked-up integer features of each table, at scale 128 (8 for tables of 4-bit values)."""
    out = []
    for t, codes in flat_codes(kind, board):
        if kind.endswith("vq"):
            rows = d["book%d" % t][d["index%d" % t][codes].astype(int)].astype(np.int64)
        else:
            rows = d["map%d" % t][codes]
            if rows.shape[1] * 2 == m.model_size[-1] and "square" in kind:       # two 4-bit values per byte, the lower one first
                v = rows.astype(np.int64)
                rows = np.stack([v & 15, v >> 4], -1).reshape(len(v), -1) - 8
            else:
                rows = rows.astype(np.int64) - (128 if rows.dtype.kind == "u" else 0)
        out.append(rows)
    return out


def flat_value(kind, m, d, rows):
    """The integer inference from the looked-up features, at scale 1."""
    ints = [r * (16 if s == 8 else 1) for r, s in zip(rows, flat_scales(kind, m))]
    if "ladder" in kind:
        x, low = sum(r.sum(0) for r in ints)[m.model_size[1]:], 0
    elif kind.endswith("v2"):
        x, low = (ints[0] + ints[1]).ravel(), -128
    elif kind.endswith("v3"):
        x, low = (q8((ints[0] + ints[1] + 1) >> 1) + ints[2]).ravel(), -128
    else:
        x, low = sum(r.sum(0) for r in ints), -128
    names = ["l1", "l2", "l3"] + (["l4"] if "ladder" in kind else [])
    for i, name in enumerate(names):
        x = np.clip(x, low if i == 0 else 0, 127)
        x = d[name + ".w"].astype(np.int64) @ x + d[name + ".b"]
        shift = 8 if i == 0 and "square" in kind else 7
        if i + 1 < len(names):
            x = x >> shift
    return x / 128.0 ** 2


def flat_scales(kind, m):
    if getattr(m, "quant_int4", False):
        return [8, 128] if kind.endswith("v2") else [8, 8, 8]
    return [128] * 3
