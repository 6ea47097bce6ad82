"""C08: board symmetries act as one group on whole samples."""
import copy

import numpy as np
from hypothesis import strategies as st

from dataset import build_dataset
from utils.data_utils import Move, Symmetry, post_process_batch, post_process_data
from vlib import npzref
from vlib.api import Campaign, Reject, require
from vlib.data import KIND_TYPES, MAP_TYPES, Batch, context

RULE = ("'group': a board size with arrays of some rank; non-trivial on boards with both sides above one. 'process': one sample or batch given to the post-processor; "
        "'datasets': NPZ files read with augmentation on, over several epochs. Non-trivial: at least two different symmetries were seen.")
ASSUMPTIONS = ["boards up to 22x22", "the set of symmetries per setting is the documented one", "choice of the symmetry per row: every allowed one has to occur, "
               "as a seeded function of row and epoch"]
BUDGET = {"quick": 50, "thorough": 900}

# images of (x, y), from the comments of the Symmetry enumeration; W-1 and H-1 are the last column and row
POINTS = {
    "IDENTITY": lambda x, y, X, Y: (x, y),
    "ROTATE_90": lambda x, y, X, Y: (y, X - x),
    "ROTATE_180": lambda x, y, X, Y: (X - x, Y - y),
    "ROTATE_270": lambda x, y, X, Y: (Y - y, x),
    "FLIP_X": lambda x, y, X, Y: (x, Y - y),
    "FLIP_Y": lambda x, y, X, Y: (X - x, y),
    "FLIP_XY": lambda x, y, X, Y: (y, x),
    "FLIP_YX": lambda x, y, X, Y: (Y - y, X - x),
}
SETS = {"default": list(POINTS), "rotate": ["IDENTITY", "ROTATE_90", "ROTATE_180", "ROTATE_270"],
        "flip": ["IDENTITY", "FLIP_X", "FLIP_Y", "FLIP_XY", "FLIP_YX"],
        "flip_diag_rotate180": ["IDENTITY", "ROTATE_180", "FLIP_XY", "FLIP_YX"]}
RECT = ["IDENTITY", "ROTATE_180", "FLIP_X", "FLIP_Y"]
ORDER = list(POINTS)


def reference(array, name, y_dim=-2, x_dim=-1):
    """Moves every cell to the image of its point."""
    a = np.moveaxis(array, (y_dim, x_dim), (-2, -1))
    h, w = a.shape[-2:]
    swap = name in ("ROTATE_90", "ROTATE_270", "FLIP_XY", "FLIP_YX")
    out = np.empty(a.shape[:-2] + ((w, h) if swap else (h, w)), a.dtype)
    for y in range(h):
        for x in range(w):
            nx, ny = POINTS[name](x, y, w - 1, h - 1)
            out[..., ny, nx] = a[..., y, x]
    return np.moveaxis(out, (-2, -1), (y_dim, x_dim))


def group_case(draw):
    h = draw(st.integers(1, 22))
    w = h if draw(st.booleans()) else draw(st.integers(1, 22))
    return dict(h=h, w=w, lead=draw(st.lists(st.integers(1, 3), max_size=2)), seed=draw(st.integers(0, 999)), dtype=draw(st.sampled_from(["int8", "float32", "int64"])),
                axes=draw(st.sampled_from([[-2, -1], [-2, -1], [-1, -2], [0, 1], [1, 0]])))


def check_group(c, ctx):
    h, w = c["h"], c["w"]
    square = h == w
    for kind, names in SETS.items():
        if square or kind == "default":
            got = [s.name for s in Symmetry.available_symmetries((h, w), kind)]
            require(sorted(got) == sorted(names if square else RECT), "symmetries of %s on %dx%d: %s", kind, h, w, got)
        else:
            try:
                Symmetry.available_symmetries((h, w), kind)
            except ValueError:
                continue
            require(False, "%s symmetries are offered on a %dx%d board", kind, h, w)
    try:
        Symmetry.available_symmetries((h, w), "mirror")
        require(False, "an unknown symmetry type is accepted")
    except ValueError:
        pass
    rng = np.random.default_rng(c["seed"])
    y_dim, x_dim = c["axes"]
    shape = list(c["lead"]) + [h, w]
    a = np.moveaxis(rng.permutation(int(np.prod(shape))).reshape(shape), (-2, -1), (y_dim, x_dim)).astype(c["dtype"])
    keep = a.copy()
    names = ORDER if square else RECT
    images = {}
    for n in names:
        s = Symmetry[n]
        b = s.apply_to_array(a, y_dim, x_dim)
        require(np.array_equal(b, reference(a, n, y_dim, x_dim)), "%s does not move the cells of a %dx%d board to the images of their points", n, h, w)
        require(b.dtype == a.dtype and not np.shares_memory(a, b), "%s returns a view or changes the type", n)
        require(np.array_equal(a, keep), "%s changes its argument", n)
        points = tuple((m.x, m.y) for y in range(h) for x in range(w) for m in [s.apply_to_move(Move(x, y), (h, w))])
        want = tuple(POINTS[n](x, y, w - 1, h - 1) for y in range(h) for x in range(w))
        require(points == want, "%s moves points wrongly on %dx%d", n, h, w)
        require(len(set(points)) == h * w, "%s is not a bijection", n)
        images[n] = b
        require(s.apply_to_move(Move.PASS, (h, w)).is_pass, "%s moves a pass", n)
    if c["axes"] == [-2, -1]:
        for n in names:
            closed = set()
            for m in names:
                b = Symmetry[m].apply_to_array(images[n])
                closed.add(next((k for k in names if np.array_equal(images[k], b)), None))
            if h > 1 and w > 1:
                require(closed == set(names), "%s followed by any symmetry gives %s", n, closed)
    if not square:
        for n in set(ORDER) - set(RECT):
            try:
                Symmetry[n].apply_to_move(Move(0, 0), (h, w))
            except ValueError:
                continue
            require(False, "%s accepts moves of a %dx%d board", n, h, w)
    for x, y in ((w, 0), (0, h), (-1, 0)):
        try:
            Symmetry.IDENTITY.apply_to_move(Move(x, y), (h, w))
        except ValueError:
            continue
        require(False, "the move (%d, %d) outside a %dx%d board is accepted", x, y, h, w)
    ctx.nontrivial(h > 1 and w > 1)
    ctx.label("square" if square else "rectangle")


# ---------------------------------------------------------------- the post-processor

def process_case(draw):
    h = draw(st.integers(2, 8))
    w = h if draw(st.integers(0, 2)) else draw(st.integers(2, 8))
    square = h == w
    return dict(h=h, w=w, ph=h + draw(st.sampled_from([0, 0, 1, 3])), pw=w + draw(st.sampled_from([0, 0, 1, 3])), n=draw(st.integers(1, 6)),
                kind=draw(st.sampled_from([True, "default"] + (["rotate", "flip", "flip_diag_rotate180"] if square else []) + [None])),
                flat=draw(st.booleans()), sparse=draw(st.booleans()), moves=draw(st.integers(0, 5)), fixed=draw(st.booleans()), pad=draw(st.sampled_from([None, None, 11, 12])),
                values=draw(st.integers(3, 5)), drop=draw(st.integers(0, 4)) == 0, seed=draw(st.integers(0, 9999)))


def make(c, rng):
    s = dict(board_size=np.array([c["h"], c["w"]], np.int8), board_input=np.zeros((2, c["ph"], c["pw"]), np.int8),
             stm_input=rng.choice([-1.0, 1.0], 1).astype(np.float32), value_target=rng.random(c["values"]).astype(np.float32))
    s["board_input"][:, :c["h"], :c["w"]] = rng.integers(0, 2, (2, c["h"], c["w"]))
    p = np.zeros((c["ph"], c["pw"]), np.float32)
    p[:c["h"], :c["w"]] = rng.random((c["h"], c["w"]))
    s["policy_target"] = np.concatenate([p.reshape(-1), rng.random(1).astype(np.float32)]) if c["flat"] else p
    if c["sparse"]:
        s["sparse_feature_input"] = rng.integers(0, 9999, (12, c["ph"], c["pw"])).astype(np.int32)
        s["sparse_feature_dim"] = np.arange(12)
    return s


def expect(c, s, index):
    name = None
    if c["kind"]:
        names = SETS["default" if c["kind"] is True else c["kind"]] if c["h"] == c["w"] else RECT
        name = [x for x in (y.name for y in Symmetry) if x in names][index]
    t = npzref.fields(s, c["fixed"])
    if name:
        t = npzref.transform(t, lambda a: reference(a, name))
    return t, name


def check_process(c, ctx):
    rng = np.random.default_rng(c["seed"])
    samples = [make(c, rng) for _ in range(c["n"])]
    count = 1 if not c["kind"] else len(SETS["default" if c["kind"] is True else c["kind"]]) if c["h"] == c["w"] else 4
    idx = [int(i) for i in rng.integers(0, count, c["n"])]
    seen, fallback = set(), set()
    for s, i in zip(samples, idx):
        full = dict(s)
        cells = [(int(k) % c["w"], int(k) // c["w"]) for k in rng.permutation(c["h"] * c["w"])[:c["moves"]]]
        moves = [Move(x, y) for x, y in cells]
        if moves and rng.random() < 0.3:
            moves[int(rng.integers(0, len(moves)))] = Move.PASS
        if not c["sparse"]:
            full["position"] = list(moves)
        full["rule_index"] = 2
        before = {k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in full.items()}
        got = post_process_data(full, fixed_side_input=c["fixed"], fixed_board_size=(c["pad"], c["pad"]) if c["pad"] else None, symmetry_type=c["kind"],
                                symmetry_index=i, drop_extra=c["drop"])
        for k, v in before.items():
            require(np.array_equal(v, full[k]) if isinstance(v, np.ndarray) else v == full[k], "the sample given to the post-processor changed: %s", k)
        want, name = expect(c, s, i)
        seen.add(name)
        if c["pad"]:
            want = npzref.pad(want, c["pad"])
        want = dict(want, rule_index=2)
        if c["drop"]:
            want = {k: want[k] for k in ("board_size", "board_input", "stm_input", "value_target", "policy_target")}
        elif "position" in full:
            image = [m if m.is_pass or not name else Move(*POINTS[name](m.x, m.y, c["w"] - 1, c["h"] - 1)) for m in moves]
            want["position_string"] = "".join("pass" if m.is_pass else chr(97 + m.x) + str(m.y + 1) for m in image)
            want["last_move"] = np.array([-1, -1] if not image else [image[-1].x, image[-1].y])
            require(got["position_string"] == want["position_string"], "position %s instead of %s under %s", got["position_string"], want["position_string"], name)
        got = {k: v for k, v in got.items() if k != "position_string"}
        want.pop("position_string", None)
        d = npzref.difference(got, want)
        require(d is None, lambda: f"{name}: {d}")
    if c["kind"]:
        # without an index one symmetry is chosen by the sample alone
        for s in samples:
            before = np.random.get_state()[1].copy()
            got = [post_process_data(copy.deepcopy(s), fixed_side_input=c["fixed"], symmetry_type=c["kind"]) for _ in range(2)]
            require(npzref.difference(got[0], got[1]) is None, "the symmetry of a sample changes between calls")
            require(np.array_equal(before, np.random.get_state()[1]), "choosing a symmetry uses up the global random state")
            diffs = [npzref.difference(got[0], expect(c, s, i)[0]) for i in range(count)]
            require(None in diffs, lambda: "without an index the sample is none of its symmetric forms: %s" % diffs[0])
            fallback.update([expect(c, s, diffs.index(None))[1]] if diffs.count(None) == 1 else [])
    batch = {k: np.stack([s[k] for s in samples]) for k in samples[0]}
    got = post_process_batch(dict(batch), fixed_side_input=c["fixed"], symmetry_type=c["kind"], symmetry_indices=np.array(idx))
    for j, (s, i) in enumerate(zip(samples, idx)):
        want, name = expect(c, s, i)
        row = {k: np.asarray(v)[j] for k, v in got.items()}
        d = npzref.difference(row, want)
        require(d is None, lambda: f"row {j} of a batch, {name}: {d}")
    ctx.nontrivial(len(seen) > 1)
    for n in seen:
        ctx.label(str(n))
    for n in fallback:
        ctx.label("chosen: %s" % n)
    ctx.label("planes larger than the board", c["ph"] > c["h"] or c["pw"] > c["w"])


# ---------------------------------------------------------------- datasets

def dataset_case(draw, kinds="PRS"):
    many = draw(st.integers(0, 2)) == 0
    c = npzref.cases(draw, kinds, symmetry=True, max_files=2 if many else 3, max_rows=60 if many else 8, min_rows=40 if many else 1)
    square = all(a[0] == a[1] for a in c["admit"])
    c["opt"]["apply_symmetry"] = draw(st.sampled_from([True, True, "default"] + (["rotate", "flip", "flip_diag_rotate180"] if square else [])))
    c["batch"] = draw(st.integers(1, 6))
    c["epochs"] = draw(st.integers(1, 2))
    c["mapped"] = draw(st.booleans())
    return c


def read(c, t, paths, seed):
    ds = build_dataset(t, paths, runtime_context=context("validate" if t in MAP_TYPES.values() else "train", seed, c["batch"]), **npzref.kwargs(c))
    passes = []
    for epoch in range(c["epochs"]):
        if t in MAP_TYPES.values():
            if epoch and not hasattr(ds, "set_epoch"):
                break
        rows = []
        for env in ds:
            b = Batch(env)
            rows += [r for r, m in zip(npzref.rows(b.data), b.mask) if m]
            if t not in MAP_TYPES.values():
                ds._partitioned_stream.commit_batch(env.token)
        passes.append(rows)
    return passes


def check_dataset(c, ctx):
    paths, raws = npzref.write(c, ctx.tmp)
    want = npzref.expected(c, raws)
    types = list(KIND_TYPES[c["kind"]])
    if c["kind"] == "R" or c["kind"] == "P" and len({tuple(b) for b in c["bs"] if b in c["admit"]}) == 1:
        types = [MAP_TYPES[c["kind"]]] if c["mapped"] and npzref.alike(c) else types
    symmetry = c["opt"]["apply_symmetry"]
    fixed = c["opt"]["fixed"]
    forms = {u: [npzref.pad(v, fixed) if fixed else v for v in npzref.variants(s, symmetry)] for u, s in want.items()}
    choices = {}
    for t in types:
        try:
            passes = read(c, t, paths, c["seed"])
        except (RuntimeError, ValueError) as exc:
            if "produced no global batch" in str(exc) or "no valid data entry" in str(exc) or not want:
                raise Reject("no batch")
            raise
        for epoch, rows in enumerate(passes):
            for r in rows:
                u = npzref.row_uid(r["value_target"])
                diffs = [npzref.difference(r, f) for f in forms[u]]
                match = [i for i, d in enumerate(diffs) if d is None]
                require(match, lambda: f"{t}: row {u} is none of its {len(diffs)} symmetric forms; differs from the plain one by {diffs[0]}")
                choices.setdefault((t, epoch), {})[u] = match
    picks = {m[0] for v in choices.values() for m in v.values() if len(m) == 1}
    sure = [m[0] for v in choices.values() for m in v.values() if len(m) == 1]
    n = max(len(f) for f in forms.values())
    if len(sure) >= 25 * n:
        require(len(picks) == n, "only the symmetries %s of %d occur in %d rows", sorted(picks), n, len(sure))
        ctx.label("all symmetries required")
    for t in types:
        a, b = choices.get((t, 0), {}), choices.get((t, 1), {})
        both = [u for u in a if u in b and len(a[u]) == 1 and len(b[u]) == 1]
        if len(both) >= 12:
            require(any(a[u] != b[u] for u in both), "%s: the augmentation of %d rows is the same in two epochs", t, len(both))
            ctx.label("epochs compared")
    ctx.nontrivial(len(picks) >= 2)
    for t in types:
        ctx.label(t)
    ctx.label(str(symmetry))


CAMPAIGNS = [
    Campaign("group", lambda: st.composite(group_case)(), check_group, 200, shards=2),
    Campaign("process", lambda: st.composite(process_case)(), check_process, 500, shards=2),
    Campaign("datasets", lambda: st.composite(dataset_case)(), check_dataset, 500, shards=4),
]
