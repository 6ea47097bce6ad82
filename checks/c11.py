"""C11: forbidden points follow the Renju rule."""
import numpy as np
from hypothesis import strategies as st

from dataset.pipeline.forbidden_point import ForbiddenPointPipeline
from vlib.api import Campaign, require

RULE = ("A case is one position (or a batch of positions) with side-to-move, board shape and padding. Non-trivial: the position has a point that "
        "is forbidden, or a point where black makes a four or an open three without being forbidden.")
ASSUMPTIONS = ["boards of 1..22 by 1..22 cells; the recursive reference is run on positions of at most ~60 black stones"]
BUDGET = {"quick": 55, "thorough": 900}

EMPTY, BLACK, WHITE, WALL = 0, 1, 2, 3


class Rule:
    """Renju forbidden moves, straight from the definitions: rows of stones, fours, straight fours and threes."""

    def __init__(self, black, white):
        h, w = black.shape
        self.h, self.w, self.stride = h, w, w + 1
        self.cells = [WALL] * ((w + 1) * (h + 2) + 1)
        for y in range(h):
            for x in range(w):
                self.cells[self.at(y, x)] = BLACK if black[y, x] else WHITE if white[y, x] else EMPTY
        self.dirs = (1, self.stride, self.stride + 1, self.stride - 1)

    def at(self, y, x):
        return (y + 1) * self.stride + x

    def row(self, p, d):
        """Cells of the unbroken black row through p."""
        c, out = self.cells, [p]
        q = p - d
        while c[q] == BLACK:
            out.append(q)
            q -= d
        q = p + d
        while c[q] == BLACK:
            out.append(q)
            q += d
        return out

    def five(self, p):
        return any(len(self.row(p, d)) == 5 for d in self.dirs)

    def overline(self, p):
        return any(len(self.row(p, d)) > 5 for d in self.dirs)

    def fours(self, p, d):
        """The fours through the black stone p: four stones that one more stone turns into exactly five -> completing points."""
        out, c = {}, self.cells
        for s in (-d, d):
            for k in range(1, 5):
                q = p + s * k
                if c[q] == EMPTY:
                    c[q] = BLACK
                    row = self.row(q, d)
                    c[q] = EMPTY
                    if len(row) == 5 and p in row:
                        out.setdefault(frozenset(row) - {q}, set()).add(q)
                    break_here = False
                elif c[q] != BLACK:
                    break_here = True
                else:
                    break_here = False
                if break_here:
                    break
        return out

    def straight(self, p, d):
        """Is there a straight four through p: an unbroken four that two different points turn into five?"""
        for stones, ends in self.fours(p, d).items():
            if len(ends) == 2 and max(stones) - min(stones) == 3 * d:
                return True
        return False

    def three(self, p, d):
        """Can the black stone p be extended along d to a straight four by a move that is neither five nor forbidden?"""
        c = self.cells
        for s in (-d, d):
            for k in range(1, 4):
                q = p + s * k
                if c[q] in (WHITE, WALL):
                    break
                if c[q] != EMPTY:
                    continue
                c[q] = BLACK
                ok = False
                if self.straight(q, d) and p in self.row(q, d) and not self.five(q):
                    ok = not self.foul(q)
                c[q] = EMPTY
                if ok:
                    return True
        return False

    def foul(self, p):
        """Is the black stone just put on p a foul (it does not make five)?"""
        if self.overline(p):
            return "overline"
        if sum(len(self.fours(p, d)) for d in self.dirs) >= 2:
            return "double four"
        if sum(self.three(p, d) for d in self.dirs) >= 2:
            return "double three"
        return None

    def map(self):
        out = np.zeros((self.h, self.w), np.int8)
        kinds = set()
        for y in range(self.h):
            for x in range(self.w):
                p = self.at(y, x)
                if self.cells[p] != EMPTY:
                    continue
                self.cells[p] = BLACK
                if not self.five(p):
                    foul = self.foul(p)
                    if foul:
                        out[y, x] = 1
                        kinds.add(foul)
                    elif any(self.fours(p, d) or self.three(p, d) for d in self.dirs):
                        kinds.add("near")
                elif self.foul(p):
                    kinds.add("five with foul")
                self.cells[p] = EMPTY
        return out, kinds


# ---------------------------------------------------------------- positions

PATTERNS = ["XXXX", "XXX", "XX", "X X", "XX X", "X XX", "X XXX", "XXX X", "X XXX X", "XX XX", "XX XX XX", "XXX XXX", "XXXXX", "XXX X XXX", "X X X",
            "OXXX", "OXX X", " XXX ", "O XXX O", "X  XX", "XX  X"]
DIRS = [(0, 1), (1, 0), (1, 1), (1, -1)]


def position(draw, h=None, w=None):
    """Rows like 'X' black, 'O' white, '.' empty."""
    h = h or draw(st.one_of(st.integers(5, 11), st.integers(1, 15), st.sampled_from([15, 15, 20, 22])))
    w = w or (h if draw(st.booleans()) else draw(st.integers(1, 15)))
    grid = [["."] * w for _ in range(h)]
    style = draw(st.sampled_from(["lines", "lines", "lines", "star", "dense", "mixed"]))

    def put(y, x, c):
        if 0 <= y < h and 0 <= x < w:
            grid[y][x] = c

    if style in ("lines", "mixed"):
        for _ in range(draw(st.integers(1, 5))):
            y, x = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
            dy, dx = draw(st.sampled_from(DIRS))
            pattern = draw(st.sampled_from(PATTERNS))
            for k, c in enumerate(pattern):
                if c != " ":
                    put(y + dy * k, x + dx * k, c)
    if style == "star":         # lines of stones through one empty point
        y, x = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
        for dy, dx in DIRS:
            cells = draw(st.lists(st.sampled_from("...XXXO"), min_size=8, max_size=8))
            if draw(st.booleans()):
                for k, c in zip([-4, -3, -2, -1, 1, 2, 3, 4], cells):
                    put(y + dy * k, x + dx * k, c)
        grid[y][x] = "."
    if style in ("dense", "mixed"):
        letters = draw(st.sampled_from([".XXO", "..XXO", "...XO", ".X", "..X", ".....X"]))
        n = min(h * w, draw(st.integers(4, 40)))
        oy, ox = draw(st.integers(0, max(0, h - 6))), draw(st.integers(0, max(0, w - 6)))
        for _ in range(n):
            put(oy + draw(st.integers(0, 6)), ox + draw(st.integers(0, 6)), draw(st.sampled_from(letters)))
    return ["".join(r) for r in grid]


def planes(rows):
    a = np.array([list(r) for r in rows])
    return (a == "X").astype(np.int8), (a == "O").astype(np.int8)


def reference(rows):
    return Rule(*planes(rows)).map()


def show(rows, got, want):
    return "\n".join(" ".join(("!" if g != e else "f" if e else c) for c, g, e in zip(r, gr, wr)) for r, gr, wr in zip(rows, got, want))


def position_case(draw):
    rows = position(draw)
    return dict(rows=rows, fixed=draw(st.booleans()), black=draw(st.booleans()), layout=draw(st.sampled_from(["plain", "wide", "int32", "flip"])))


def sample(case, rows, pad=(0, 0), board_size=True, rng=None):
    """The sample dict of a position: channel 0 is black when sides are fixed, else the side to move."""
    b, w = planes(rows)
    h, wd = b.shape
    x = np.zeros((2, h + pad[0], wd + pad[1]), np.int8)
    x[:, :h, :wd] = (b, w) if case["fixed"] or case["black"] else (w, b)
    out = dict(board_input=x, stm_input=np.float32(-1 if case["black"] else 1))
    if board_size:
        out["board_size"] = np.array([h, wd], np.int8)
    return out


def check_position(case, ctx):
    rows = case["rows"]
    want, kinds = reference(rows)
    data = sample(case, rows)
    x = data["board_input"]
    if case["layout"] == "wide":
        wide = np.zeros(x.shape[:2] + (x.shape[2] * 2, ), np.int8)
        wide[..., ::2] = x
        data["board_input"] = wide[..., ::2]
    elif case["layout"] == "int32":
        data["board_input"] = x.astype(np.int32)
    elif case["layout"] == "flip":
        data["board_input"] = np.ascontiguousarray(x[:, ::-1])[:, ::-1]
    before = {k: np.array(v) for k, v in data.items()}
    out = ForbiddenPointPipeline(case["fixed"]).process(data)
    got = np.asarray(out["forbidden_point"])
    require(got.shape == want.shape, "map has shape %s for a board of %s", got.shape, want.shape)
    require(np.array_equal(got, want), lambda: "forbidden points differ (! wrong, f forbidden):\n" + show(rows, got, want))
    for k, v in before.items():
        require(np.array_equal(np.asarray(data[k]), v) and np.array_equal(np.asarray(out[k]), v), "field %r was changed", k)
    require(set(out) == set(before) | {"forbidden_point"}, "fields %s", sorted(out))
    ctx.nontrivial(bool(kinds))
    for k in kinds:
        ctx.label(k)


def batch_case(draw):
    h, w = draw(st.integers(1, 10)), draw(st.integers(1, 10))
    n = draw(st.integers(1, 4))
    mixed = draw(st.booleans())
    rows = [position(draw, *((draw(st.integers(1, h)), draw(st.integers(1, w))) if mixed else (h, w))) for _ in range(n)]
    return dict(rows=rows, shape=[h + draw(st.integers(0, 2)), w + draw(st.integers(0, 2))] if mixed else [h, w], fixed=draw(st.booleans()),
                stm=[draw(st.booleans()) for _ in range(n)])


def check_batch(case, ctx):
    H, W = case["shape"]
    samples, want, kinds = [], np.zeros((len(case["rows"]), H, W), np.int8), set()
    for i, (rows, black) in enumerate(zip(case["rows"], case["stm"])):
        h, w = len(rows), len(rows[0])
        samples.append(sample(dict(fixed=case["fixed"], black=black), rows, (H - h, W - w)))
        m, k = reference(rows)
        want[i, :h, :w] = m
        kinds |= k
    batch = {k: np.stack([s[k] for s in samples]) for k in samples[0]}
    before = {k: v.copy() for k, v in batch.items()}
    p = ForbiddenPointPipeline(case["fixed"])
    got = np.asarray(p.process_batch(batch, sample_keys=None, rng_keys=None)["forbidden_point"])
    require(np.array_equal(got, want), lambda: "batch of %d: %s" % (len(samples), "\n\n".join(
        show([r.ljust(W, " ") for r in rows] + [" " * W] * (H - len(rows)), g, e) for rows, g, e in zip(case["rows"], got, want))))
    again = p.process_batch({k: v[::-1] for k, v in batch.items()}, sample_keys=None, rng_keys=None)["forbidden_point"]
    require(np.array_equal(np.asarray(again)[::-1], want), "the map of a position depends on its place in the batch")
    for s, e in zip(samples, want):
        require(np.array_equal(np.asarray(p.process(s)["forbidden_point"]), e), "single and batched processing differ")
    require(all(np.array_equal(batch[k], before[k]) for k in before), "the batch was changed")
    ctx.nontrivial(bool(kinds) and len(samples) > 1)
    ctx.label("padded", any((len(r), len(r[0])) != (H, W) for r in case["rows"]))


def line_case(draw):
    return dict(cells="".join(draw(st.lists(st.sampled_from("..XXXO"), min_size=1, max_size=22))), vertical=draw(st.booleans()))


def all_lines():
    return [dict(prefix=a + b, n=9) for a in ".XO" for b in ".XO"]


def check_lines(case, ctx):
    if "cells" in case:
        lines = [case["cells"]]
    else:
        lines = [case["prefix"]]
        while len(lines[0]) < case["n"]:
            lines = [l + c for l in lines for c in ".XO"]
    n = len(lines[0])
    # many lines on one board, two empty rows of white stones between them so that they cannot interact
    p = ForbiddenPointPipeline(True)
    any_kind = False
    for i in range(0, len(lines), 11):
        part = lines[i:i + 11]
        rows = []
        for l in part:
            rows += [l, "O" * n]
        if case.get("vertical"):
            rows = ["".join(r) for r in zip(*rows)]
        want, kinds = reference(rows)
        any_kind |= bool(kinds)
        got = p.process(sample(dict(fixed=True, black=True), rows))["forbidden_point"]
        require(np.array_equal(got, want), lambda: "forbidden points differ (! wrong, f forbidden):\n" + show(rows, got, want))
    ctx.nontrivial(any_kind)


CAMPAIGNS = [
    Campaign("position", lambda: st.composite(position_case)(), check_position, quick=2400, thorough=40000, shards=8),
    Campaign("batch", lambda: st.composite(batch_case)(), check_batch, quick=400, thorough=6000),
    Campaign("lines", lambda: st.composite(line_case)(), check_lines, quick=300, thorough=3000, exhaustive=all_lines),
]
