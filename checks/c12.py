"""C12: line codes identify lines exactly; preprocessing pipelines are transactional."""
import hashlib

import numpy as np
import torch
from hypothesis import strategies as st

from checks.c03 import through_disk
from checks.c11 import Rule
from dataset import build_dataset
from dataset.core import FieldSpec, PipelineStateComposer, PreparedPipelineResult, canonical_pipeline_state_bytes
from dataset.pipeline import PIPELINES, BasePipeline
from dataset.pipeline.line_encoding import (LineEncodingPipeline, get_encoding_usage_flags, get_total_num_encoding,
                                            transform_lines_to_line_encoding)
from vlib.api import Campaign, Reject, require
from vlib.data import KIND_TYPES, MAP_TYPES, Built, Consumer, context, draw_dataset, draw_world, World

RULE = ("A case is a board (or batch, or set of lines) with a line length and code kind, a stack of pipelines over a batch, or a history of "
        "consume/abort/fail/save/restore operations over a dataset with a stateful pipeline. Non-trivial: the board has stones and lines that meet "
        "a border; the stack has a stateful or misbehaving pipeline; a failed or rolled-back batch was followed by a committed one.")
ASSUMPTIONS = ["the board handed to the line encoder ends where its array ends", "line lengths 1..17 (raw codes 1..15)"]
BUDGET = {"quick": 55, "thorough": 900}

DIRS = [(0, 1), (1, 0), (-1, 1), (1, 1)]      # (dy, dx) from the low end of the line to the high end


# ---------------------------------------------------------------- reference codes

def line_cells(a, b, L):
    """(4, H, W, L) states of the line through every cell: 0 wall, 1 self, 2 opponent, 3 empty; lowest offset first."""
    H, W = a.shape
    half = L // 2
    padded = np.zeros((H + 2 * half, W + 2 * half), np.int64)
    padded[half:half + H, half:half + W] = np.where(a != 0, 1, np.where(b != 0, 2, 3))
    out = np.zeros((4, H, W, L), np.int64)
    for d, (dy, dx) in enumerate(DIRS):
        for i in range(L):
            o = i - half
            out[d, ..., i] = padded[half + o * dy:half + o * dy + H, half + o * dx:half + o * dx + W]
    return out


def raw_codes(cells):
    return sum(cells[..., i] << (2 * i) for i in range(cells.shape[-1]))


def border_part(L, left, right):
    """left, right: on-board cells beside the centre, at most L//2. Walls are written in unary around the stones' digits."""
    half = L // 2
    lw, rw = half - left, half - right            # wall cells on either side
    if rw == 0:
        return 0 if lw == 0 else 2 * 3 ** L + sum(3 ** (L - i) for i in range(1, lw))
    code = 3 ** L
    twos_r, twos_l = min(lw, rw), min(lw, rw - 1)
    digits_r = [2] * twos_r + [1] * max(0, rw - 1 - twos_r)
    digits_l = [2] * twos_l + [1] * max(0, lw - 1 - twos_l)
    return code + sum(d * 3 ** i for i, d in enumerate(digits_r)) + sum(d * 3 ** (L - 1 - i) for i, d in enumerate(digits_l))


def compressed(cells):
    L = cells.shape[-1]
    half = L // 2
    inside = cells != 0
    left = inside[..., :half].sum(-1)
    right = inside[..., half + 1:].sum(-1)
    table = np.array([[border_part(L, i, j) for j in range(half + 1)] for i in range(half + 1)], np.int64)
    digits = np.where(cells == 3, 0, cells)
    return table[left, right] + sum(digits[..., i] * 3 ** (L - 1 - i) for i in range(L))


def codes(a, b, L, raw):
    cells = line_cells(a, b, L)
    return raw_codes(cells) if raw else compressed(cells)


# ---------------------------------------------------------------- boards

def draw_length(draw, raw):
    return draw(st.sampled_from([11, 11, 5, 7, 9, 3, 1, 13, 15] + ([] if raw else [17])))


def board_case(draw):
    raw = draw(st.booleans())
    L = draw_length(draw, raw)
    limit = 32 - L // 2
    h = draw(st.one_of(st.integers(1, 9), st.integers(1, limit), st.just(limit), st.just(limit + 1)))
    w = h if draw(st.booleans()) else draw(st.one_of(st.integers(1, 9), st.integers(1, limit), st.just(limit)))
    n = draw(st.integers(1, 3))
    return dict(L=L, raw=raw, shape=[n, h, w], seed=draw(st.integers(0, 1 << 30)), fill=draw(st.sampled_from([0.0, 0.1, 0.3, 0.6, 1.0])),
                layout=draw(st.sampled_from(["plain", "strided", "int64", "transposed"])), flip=draw(st.integers(0, 1 << 20)),
                bad=draw(st.sampled_from(["none", "even", "zero", "long"])))


def boards(case):
    n, h, w = case["shape"]
    rng = np.random.default_rng(case["seed"])
    kind = np.where(rng.random((n, h, w)) < case["fill"], rng.integers(1, 3, (n, h, w)), 0)
    return np.stack([kind == 1, kind == 2], 1).astype(np.int8)


def laid_out(x, layout):
    if layout == "strided":
        y = np.full(x.shape[:-1] + (x.shape[-1] * 2, ), 1, x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if layout == "transposed":
        return np.ascontiguousarray(np.swapaxes(x, -1, -2)).swapaxes(-1, -2)
    return x.astype(np.int64) if layout == "int64" else x


def check_board(case, ctx):
    L, raw = case["L"], case["raw"]
    n, h, w = case["shape"]
    x = boards(case)
    if case["bad"] != "none":
        bad = {"even": L + 1, "zero": 0, "long": 17 if raw else 19}[case["bad"]]
        try:
            LineEncodingPipeline(bad, raw)
        except ValueError:
            pass
        else:
            require(False, "line length %d (raw %s) accepted", bad, raw)
    p = LineEncodingPipeline(L, raw)
    given = laid_out(x, case["layout"])
    batch = dict(board_input=given, board_size=np.tile(np.array([h, w]), (n, 1)))
    if max(h, w) > 32 - L // 2:
        for f in (lambda: p.process(dict(board_input=given[0])), lambda: p.process_batch(batch)):
            try:
                f()
            except ValueError:
                pass
            else:
                require(False, "a %dx%d board is encoded with line length %d although its lines do not fit", h, w, L)
        ctx.label("refused")
        return
    before = given.copy()
    out = p.process_batch(batch)
    got = np.asarray(out["line_encoding"])
    require(got.shape == (n, 4, h, w), "codes have shape %s", got.shape)
    total = np.asarray(out["line_encoding_total_num"])
    expected_total = 4 ** L if raw else get_total_num_encoding(L)
    require(total.shape == (n, ) and (total == expected_total).all() and p.line_encoding_total_num == expected_total,
            "number of codes is %s, expected %d", total, expected_total)
    require(got.min() >= 0 and got.max() < expected_total, "codes %d..%d outside [0, %d)", got.min(), got.max(), expected_total)
    for i in range(n):
        want = codes(x[i, 0], x[i, 1], L, raw)
        if not np.array_equal(got[i], want):
            d, y, c = np.argwhere(got[i] != want)[0]
            require(False, "board %d, direction %d, cell (%d,%d): code %d, expected %d (line %s)", i, d, y, c, got[i, d, y, c], want[d, y, c],
                    line_cells(x[i, 0], x[i, 1], L)[d, y, c].tolist())
        one = p.process(dict(board_input=given[i], other=i))
        require(np.array_equal(one["line_encoding"], got[i]) and one["line_encoding_total_num"] == expected_total and one["other"] == i,
                "board %d alone is encoded differently", i)
    require(np.array_equal(given, before), "the board was changed")
    # a changed cell changes exactly the codes of lines through it
    k = case["flip"] % (h * w)
    y, c = divmod(k, w)
    z = x[:1].copy()
    state = (z[0, 0, y, c] + 2 * z[0, 1, y, c] + 1 + case["flip"] % 2) % 3
    z[0, :, y, c] = [state == 1, state == 2]
    changed = np.asarray(p.process_batch(dict(board_input=z, board_size=batch["board_size"][:1]))["line_encoding"])[0] != got[0]
    through = np.zeros((4, h, w), bool)
    for d, (dy, dx) in enumerate(DIRS):
        for o in range(-(L // 2), L // 2 + 1):
            yy, xx = y + o * dy, c + o * dx
            if 0 <= yy < h and 0 <= xx < w:
                through[d, yy, xx] = True
    require(np.array_equal(changed, through), "changing cell (%d,%d) changed the codes of %s, its lines are %s", y, c,
            np.argwhere(changed).tolist()[:9], np.argwhere(through).tolist()[:9])
    ctx.nontrivial(case["fill"] > 0 and max(h, w) > 1 and L > 1)
    ctx.label("raw" if raw else "compressed")
    ctx.label("L=%d" % L)


# ---------------------------------------------------------------- sets of lines

def lines_case(draw):
    L = draw_length(draw, False)
    n = draw(st.integers(1, 32 - L // 2))
    lines = draw(st.lists(st.lists(st.integers(0, 2), min_size=n, max_size=n), min_size=1, max_size=6))
    return dict(L=L, lines=lines)


def all_lengths():
    return [dict(L=L, all=True) for L in (1, 3, 5, 7, 9, 11)]


def check_lines(case, ctx):
    L = case["L"]
    total = get_total_num_encoding(L)
    if case.get("all"):          # every line of the length, with every distance to the walls
        half = L // 2
        seen = np.zeros(total, np.int64)
        count = 0
        for left in range(half + 1):
            for right in range(half + 1):
                m = left + right + 1
                grid = np.indices((3, ) * m, dtype=np.int8).reshape(m, -1).T
                padded, at = grid, left
                if left == half:                 # a far wall must not matter
                    padded = np.concatenate([np.zeros((len(grid), 1), np.int8), padded], 1)
                    at += 1
                if right == half:
                    padded = np.concatenate([padded, np.ones((len(grid), 1), np.int8)], 1)
                got = transform_lines_to_line_encoding(np.ascontiguousarray(padded), L)[:, at]
                require(got.min() >= 0 and got.max() < total, "codes %d..%d outside [0, %d)", got.min(), got.max(), total)
                np.add.at(seen, got, 1)
                count += len(grid)
        require(seen.max() == 1, "%d of %d lines of length %d share their code with another line", int((seen > 1).sum()), count, L)
        flags = get_encoding_usage_flags(L)
        require(flags.shape == (total, ) and np.array_equal(flags != 0, seen > 0),
                "usage flags of length %d mark %d codes, lines use %d", L, int((flags != 0).sum()), int((seen > 0).sum()))
        ctx.nontrivial(L > 1)
        ctx.label("all lines of a length")
        return
    a = np.array(case["lines"], np.int8)
    got = transform_lines_to_line_encoding(a, L)
    cells = np.stack([line_cells((r == 1)[None], (r == 2)[None], L)[0, 0] for r in a])
    want = compressed(cells)
    require(got.shape == a.shape and np.array_equal(got, want), "lines %s with length %d: codes %s, expected %s", a.tolist(), L, got.tolist(), want.tolist())
    rows = {}
    for code, line in zip(got.reshape(-1).tolist(), cells.reshape(-1, L).tolist()):
        require(rows.setdefault(code, line) == line, "code %d stands for %s and %s", code, rows[code], line)
    ctx.nontrivial(len(rows) > 3)


# ---------------------------------------------------------------- pipelines configured on datasets

def dataset_case(draw):
    kinds = draw(st.sampled_from(["P", "P", "R", "S", "B", "K"]))
    mapped = kinds in MAP_TYPES and draw(st.booleans())
    world = draw_world(draw, kinds=kinds, max_rows=8, max_files=2, foreign=False, uniform=mapped or draw(st.booleans()))
    if mapped:
        for f in world["files"]:
            f["bs"] = world["files"][0]["bs"]
    return dict(world=world, type=MAP_TYPES[kinds] if mapped else draw(st.sampled_from(KIND_TYPES[kinds])), mapped=mapped, L=draw_length(draw, False),
                order=draw(st.booleans()), batch=draw(st.integers(1, 4)), seed=draw(st.integers(0, 50)), fixed_side=draw(st.booleans()),
                fixed=draw(st.sampled_from([None, None, 9])), train=mapped or draw(st.booleans()), threads=draw(st.integers(0, 2)))


def check_dataset(case, ctx):
    w = World(case["world"], ctx.tmp)
    args = {"line_encoding": dict(line_length=case["L"]), "forbidden_point": dict(fixed_side_input=case["fixed_side"])}
    if case["order"]:
        args = dict(reversed(args.items()))
    o = dict(w.options(), fixed_side_input=case["fixed_side"])
    if case["fixed"]:
        o["fixed_board_size"] = (case["fixed"], ) * 2
    if case["type"].startswith("batched"):
        o.update(prefetch_threads=case["threads"], pin_memory=False)
    shuffle = {} if case["mapped"] else dict(shuffle=case["train"])
    mode = "train" if case["train"] else "validate"
    ds = build_dataset(case["type"], w.paths, runtime_context=context(mode, case["seed"], case["batch"]), pipeline_args=args, **shuffle, **o)

    def judge(data):
        x = np.asarray(data["board_input"])
        stm = np.asarray(data["stm_input"]).reshape(-1)[0]
        bs = np.asarray(data["board_size"])
        want = codes(x[0], x[1], case["L"], False)
        require(np.array_equal(np.asarray(data["line_encoding"]), want), "line codes do not belong to the board of their sample")
        require(int(np.asarray(data["line_encoding_total_num"])) == get_total_num_encoding(case["L"]), "number of codes")
        black = x[::-1] if not case["fixed_side"] and not stm < 0 else x
        h, wd = int(bs[0]), int(bs[1])
        want = np.zeros(x.shape[1:], np.int8)
        b, wh = black[0, :h, :wd] != 0, black[1, :h, :wd] != 0
        want[:h, :wd] = Rule(b, wh).map()[0]
        require(np.array_equal(np.asarray(data["forbidden_point"]), want), "forbidden points do not belong to the board of their sample")

    seen = 0
    if case["mapped"]:
        for i in range(min(len(ds), 6)):
            judge(ds[i])
            seen += 1
    else:
        try:
            for env in ds:
                for i in range(len(env.is_real)):
                    if env.is_real[i]:
                        judge({k: v[i] for k, v in env.data.items()})
                        seen += 1
                if seen > 8:
                    break
        except RuntimeError as exc:
            if "produced no global batch" not in str(exc):
                raise
    ctx.nontrivial(seen > 1)
    ctx.label(case["type"])


# ---------------------------------------------------------------- stateful pipelines over a dataset

class Boom(Exception):
    pass


class Fold(BasePipeline):
    """Test pipeline: numbers the rows it has seen and folds their keys into its state."""
    schema_version = 1
    input_fields = (FieldSpec("board_input", True, "per_sample", (-2, -1), 0, "stack", ("b", "i", "u"), "plain"), )
    fail_in = {}                # name -> calls until the next failure

    def __init__(self, name="a", after=None):
        super().__init__()
        self.pipeline_id = "fold_" + name
        self.name = name
        self.after = after
        if after:
            self.input_fields = Fold.input_fields + (FieldSpec("seen_" + after, True, "per_sample", None, None, "stack", ("i", ), "plain"), )
        self.output_fields = (FieldSpec("seen_" + name, True, "per_sample", None, None, "stack", ("i", ), "plain"), )

    def signature_state(self):
        return {"name": self.name}

    def initial_state(self):
        return {"rows": 0, "digest": b"", "last": torch.zeros(2, dtype=torch.int64)}

    def process(self, data):
        raise NotImplementedError

    def process_batch(self, data, **kw):
        raise AssertionError("a stateful pipeline is prepared, never processed")

    def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
        n = len(sample_keys)
        if Fold.fail_in.get(self.name) is not None:
            Fold.fail_in[self.name] -= 1
            if Fold.fail_in[self.name] < 0:
                Fold.fail_in[self.name] = None
                raise Boom(self.name)
        value = np.arange(current_state["rows"], current_state["rows"] + n, dtype=np.int64)
        if self.after:
            value = value * 1000 + np.asarray(data["seen_" + self.after])
        h = hashlib.sha256(current_state["digest"] + canonical_pipeline_state_bytes([list(rng_keys), list(sample_keys)])).digest()
        value = value + (np.frombuffer(h[:2], np.uint16)[0].astype(np.int64) << 40)
        state = {"rows": current_state["rows"] + n, "digest": h, "last": torch.tensor([n, int(current_state["last"][1]) + 1])}
        return PreparedPipelineResult(dict(data, **{"seen_" + self.name: value}), state)


if "verif_fold_a" not in PIPELINES:
    PIPELINES.register("verif_fold_a")(type("FoldA", (Fold, ), {}))
    PIPELINES.register("verif_fold_b")(type("FoldB", (Fold, ), {}))


def history_case(draw):
    d = draw_dataset(draw, max_rows=12, max_files=3)
    two = draw(st.booleans())
    d["pipelines"] = {"verif_fold_a": dict(name="a")}
    if draw(st.booleans()):
        d["pipelines"]["line_encoding"] = dict(line_length=5)
    if two:
        d["pipelines"]["verif_fold_b"] = dict(name="b", after="a")
    op = st.one_of(st.tuples(st.just("step"), st.integers(1, 3)), st.tuples(st.just("ahead"), st.integers(1, 3)),
                   st.tuples(st.just("fail"), st.integers(0, 3)), st.tuples(st.just("restart"), st.integers(0, 1)))
    return dict(data=d, two=two, batch=draw(st.integers(1, 4)), seed=draw(st.integers(0, 50)), ops=[list(o) for o in draw(st.lists(op, min_size=2, max_size=10))])


def check_history(case, ctx):
    built = Built(case["data"], ctx.tmp)
    Fold.fail_in = {}

    def build():
        return built.build(context("train", case["seed"], case["batch"]))

    ref = []
    c = Consumer(build())
    for _ in range(24):
        try:
            b = c.next()
        except RuntimeError as exc:
            if "produced no global batch" not in str(exc):
                raise
            break
        c.commit([b])
        ref.append(b)
    c.abort()
    if not ref:
        raise Reject("no batch")
    # the rows seen so far are counted without gap over batches and epochs
    rows = 0
    for i, b in enumerate(ref):
        got = (b.data["seen_a"] & ((1 << 40) - 1)).tolist()
        require(got == list(range(rows, rows + case["batch"])), "batch %d: the pipeline counts rows %s, expected to start at %d", i, got, rows)
        rows += case["batch"]
    c = Consumer(build())
    pos, disturbed, good = 0, False, False

    def expect(b, p):
        require(b.same(ref[p]), lambda: f"batch {p}: seen {b.data['seen_a'].tolist()} (rows {built.tags(b.data)}), uninterrupted run "
                f"{ref[p].data['seen_a'].tolist()} (rows {built.tags(ref[p].data)})")

    def take(n):
        out = []
        while len(out) < n and pos + len(out) < len(ref):
            b = c.next()
            expect(b, pos + len(out))
            out.append(b)
            if b.last:
                break
        return out

    for op, arg in case["ops"]:
        if op == "step":
            got = take(arg)
            if got:
                c.commit(got)
                pos += len(got)
                good |= disturbed
        elif op == "ahead":
            take(arg)
            c.abort()
            disturbed |= pos < len(ref)
        elif op == "fail":
            Fold.fail_in = {"b" if case["two"] and arg % 2 else "a": arg // 2}
            try:
                take(4)
            except Boom:
                disturbed |= pos < len(ref)
                ctx.label("failed")
            Fold.fail_in = {}
            c.abort()
        elif built.resumable:
            state = through_disk(c.stream.state_dict())
            c.abort()
            c = Consumer(build())
            if arg and pos:
                c.next()
                c.abort()
            c.stream.load_state_dict(state)
            disturbed |= pos < len(ref)
    for _ in range(4):
        got = take(1)
        if got:
            c.commit(got)
            pos += 1
            good |= disturbed
    c.abort()
    ctx.nontrivial(good)
    ctx.label("two" if case["two"] else "one")


# ---------------------------------------------------------------- misbehaving pipelines

FAULTS = ["none", "none", "overwrite", "undeclared", "removed", "missing", "mutate", "mutate-nested", "mutate-tensor", "state-mutated", "signature",
          "short", "dtype", "not-dict", "not-result", "shared-differs", "nan-state", "spatial"]


class Step(BasePipeline):
    schema_version = 1
    input_fields = ()

    def __init__(self, i, fault, stateful):
        super().__init__()
        self.pipeline_id = "step%d" % i
        self.i, self.fault, self.stateful = i, fault, stateful
        self.changed = 0
        spec = dict(dtype_kinds=("i", ))
        self.output_fields = (FieldSpec("out%d" % i, True, "batch_shared" if fault == "shared-differs" else "per_sample",
                                        (-2, -1) if fault == "spatial" else None, None, "broadcast" if fault == "shared-differs" else "stack",
                                        transform="plain", **spec), )
        if stateful:
            self.initial_state = lambda: {"count": 0, "rows": [0, 0]}

    def signature_state(self):
        return {"i": self.i, "changed": self.changed}

    def process(self, data):
        raise NotImplementedError

    def compute(self, data, count):
        n = len(data["value"])
        previous = data["out%d" % (self.i - 1)] if self.i else data["value"]
        return np.asarray(previous) * 3 + self.i + count, n

    def apply(self, data, count):
        f = self.fault
        value, n = self.compute(data, count)
        out = dict(data)
        out["out%d" % self.i] = value
        if f == "overwrite":
            out["value"] = data["value"] + 1
        elif f == "undeclared":
            out["extra"] = value
        elif f == "removed":
            del out["note"]
        elif f == "missing":
            del out["out%d" % self.i]
        elif f == "mutate":
            data["value"][0] += 1
        elif f == "mutate-nested":
            data["note"][-1][0] = "changed"
        elif f == "mutate-tensor":
            data["tensor"].add_(1)
        elif f == "signature":
            self.changed += 1
        elif f == "short":
            out["out%d" % self.i] = value[:-1]
        elif f == "dtype":
            out["out%d" % self.i] = value.astype(np.float32)
        elif f == "not-dict":
            return list(out.items())
        elif f == "spatial":
            out["out%d" % self.i] = np.zeros((n, 2, 3), np.int64)
        return out

    def process_batch(self, data, *, sample_keys=None, rng_keys=None):
        return self.apply(data, 0)

    def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
        out = self.apply(data, current_state["count"])
        rows = list(current_state["rows"])
        state = {"count": current_state["count"] + len(sample_keys), "rows": [rows[1], rows[1] + 1]}
        if self.fault == "state-mutated":
            current_state["count"] += 1
        if self.fault == "nan-state":
            state["count"] = float("nan")
        return out if self.fault == "not-result" else PreparedPipelineResult(out, state)


def composer_case(draw):
    n = draw(st.integers(1, 4))
    faulty = draw(st.integers(0, n - 1))
    fault = draw(st.sampled_from(FAULTS))
    stateful = [draw(st.booleans()) for _ in range(n)]
    if fault in ("state-mutated", "not-result", "nan-state"):
        stateful[faulty] = True
    return dict(n=n, faulty=faulty, fault=fault, stateful=stateful, rows=draw(st.integers(1, 4)), before=draw(st.integers(0, 3)),
                after=draw(st.integers(1, 2)), tamper=draw(st.sampled_from(["none", "none", "drop", "rename", "schema", "order"])))


def check_composer(case, ctx):
    n, rows = case["n"], case["rows"]
    if case["fault"] in ("short", "shared-differs") and rows < 2:
        rows = 2
    steps = [Step(i, "none", s) for i, s in enumerate(case["stateful"])]
    composer = PipelineStateComposer(steps)
    blob = composer.initial_blob
    counts = [0] * n

    def batch(k):
        return dict(value=np.arange(rows, dtype=np.int64) + 10 * k, note=[["r", i] for i in range(rows)], tensor=torch.arange(rows) + k,
                    board_size=np.full((rows, 2), 5))

    def run(k, blob):
        keys = tuple(("k", k, i) for i in range(rows))
        return composer.prepare_batch(batch(k), sample_keys=keys, rng_keys=tuple((0, x, i) for i, x in enumerate(keys)),
                                      current_blob=None if k == 0 else blob)

    def good(k, blob):
        r = run(k, blob)
        value = batch(k)["value"]
        for i in range(n):
            value = value * 3 + i + (counts[i] if case["stateful"][i] else 0)
            require(np.array_equal(r.data["out%d" % i], value), "batch %d: pipeline %d computed %s, expected %s", k, i, r.data["out%d" % i], value)
            counts[i] += rows
        for key, v in batch(k).items():
            require(np.array_equal(np.asarray(r.data[key], dtype=object if key == "note" else None), np.asarray(v, dtype=object if key == "note" else None)),
                    "field %r changed", key)
        return r.composite_blob

    k = 0
    for _ in range(case["before"]):
        blob = good(k, blob)
        k += 1
    keep = bytes(blob)
    if case["fault"] != "none":
        s = steps[case["faulty"]]
        steps_fault = case["fault"]
        if steps_fault in ("shared-differs", "spatial"):       # a different declaration, hence a different composer
            wrong = PipelineStateComposer([Step(i, steps_fault if i == case["faulty"] else "none", st_) for i, st_ in enumerate(case["stateful"])])
        else:
            s.fault = steps_fault
            wrong = composer
        keys = tuple(("k", k, i) for i in range(rows))
        try:
            wrong.prepare_batch(batch(k), sample_keys=keys, rng_keys=tuple((0, x, i) for i, x in enumerate(keys)),
                                current_blob=None if k == 0 else blob)
        except (ValueError, TypeError, RuntimeError):
            pass
        else:
            require(False, "a pipeline that misbehaves (%s) was accepted", case["fault"])
        s.fault = "none"
        s.changed = 0
        require(bytes(blob) == keep, "a failed batch changed the pipeline state")
    if case["tamper"] != "none" and (n > 1 or case["tamper"] != "order"):
        other = [Step(i, "none", s) for i, s in enumerate(case["stateful"])]
        if case["tamper"] == "drop":
            other = other[:-1]
        elif case["tamper"] == "rename":
            other[0].pipeline_id = "other"
        elif case["tamper"] == "schema":
            other[-1].schema_version = 2
        else:
            other[0].pipeline_id, other[1].pipeline_id = other[1].pipeline_id, other[0].pipeline_id
        keys = tuple(("k", k, i) for i in range(rows))
        try:
            PipelineStateComposer(other).prepare_batch(batch(k), sample_keys=keys, rng_keys=keys, current_blob=blob)
        except (ValueError, RuntimeError):
            pass
        else:
            require(False, "the state of another pipeline stack (%s) was accepted", case["tamper"])
    for _ in range(case["after"]):
        blob = good(k, blob)
        k += 1
    ctx.nontrivial(case["fault"] != "none" or (any(case["stateful"]) and k > 1))
    ctx.label(case["fault"])


CAMPAIGNS = [
    Campaign("board", lambda: st.composite(board_case)(), check_board, quick=1200, thorough=20000),
    Campaign("lines", lambda: st.composite(lines_case)(), check_lines, quick=500, thorough=8000, exhaustive=all_lengths),
    Campaign("dataset", lambda: st.composite(dataset_case)(), check_dataset, quick=240, thorough=4000),
    Campaign("history", lambda: st.composite(history_case)(), check_history, quick=400, thorough=6000, shards=8),
    Campaign("composer", lambda: st.composite(composer_case)(), check_composer, quick=800, thorough=10000, shards=2),
]
