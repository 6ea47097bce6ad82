"""C29: the playing and viewing programs show positions as training sees them."""
import builtins
import contextlib
import copy
import io
import os
import re
import runpy
import sys

import numpy as np
import torch
import yaml
from hypothesis import strategies as st

from checks import c28
from vlib import keops, zoo
from vlib.api import Campaign, Reject, require
from vlib.data import KIND_TYPES, Built, cell_name, context, draw_dataset, encode_simple, write_binary

RULE = ("A case is a game typed into test_play.py (moves of the user, requests for the model's move, at any size and with any recorded pipeline), a sequence of "
        "moves and undos on its board, a traced model, or a dataset shown by visualize_dataset.py. Non-trivial: the model was asked for a move on a board holding stones; some move "
        "was undone; at least two entries were drawn.")
ASSUMPTIONS = ["boards of at most 26 columns", "the model reports win, loss and draw", "figures are read from the artists given to matplotlib, not from pixels"]
BUDGET = {"quick": 45, "thorough": 600}
NEEDS_EXT = True
REPO = os.environ["VERIF_REPO"]

PIPELINES = [None, None, {"line_encoding": {"line_length": 9}}, {"line_encoding": {"line_length": 11, "raw_code": True}}, "forbidden", "both"]


def pipelines(c):
    forbidden = {"forbidden_point": {"fixed_side_input": c["fixed"]}}
    return {"forbidden": forbidden, "both": {"line_encoding": {"line_length": 9}, **forbidden}}.get(c["pipeline"], c["pipeline"]) if isinstance(c["pipeline"], str) else c["pipeline"]


# ---------------------------------------------------------------- test_play.py

@st.composite
def game(draw):
    w = draw(st.sampled_from([5, 5, 6, 7, 8, 15, 20, 22]))
    h = w if draw(st.booleans()) else draw(st.sampled_from([5, 6, 7, 9]))
    n = draw(st.sampled_from([1, 3, 8, 12, 24]))
    ops = draw(st.lists(st.one_of(st.just("ai"), st.just("ai"), st.integers(0, 1 << 16)), min_size=1, max_size=n))
    if w * h <= 30 and draw(st.integers(0, 2)) == 0:
        ops = ops + ["ai"] * (w * h)
    return dict(w=w, h=h, ops=ops, lower=draw(st.booleans()), fixed=draw(st.booleans()), pipeline=draw(st.sampled_from(PIPELINES)), debug=draw(st.integers(0, 3)) == 0,
                extra=draw(st.sampled_from([0, 0, 1])), shape=draw(st.sampled_from(["plane", "plane", "flat"])), seed=draw(st.integers(0, 1 << 16)), aux=draw(st.booleans()),
                ties=draw(st.booleans()), illegal=draw(st.integers(0, 9)) == 0, keys=draw(st.booleans()), over=draw(st.booleans()), dashes=draw(st.integers(0, 3)) == 0,
                unknown=draw(st.sampled_from([None] * 8 + ["learning_rte", "--boardwidth"])))


def oracle_model():
    from model import MODELS

    if "verif_player" not in MODELS:
        @MODELS.register("verif_player")
        class Player(torch.nn.Module):
            """Records the positions it is shown; its answer depends on the loaded weight and on the position."""
            calls, built = [], []

            def __init__(self, seed=0, extra=0, shape="plane", ties=False, aux=False, payload=None):
                super().__init__()
                self.weight = torch.nn.Parameter(torch.zeros(8))
                self.opt = dict(seed=seed, extra=extra, shape=shape, ties=ties, aux=aux)
                Player.built.append(payload)

            def forward(self, data):
                out = answer(self.weight.detach(), self.opt, {k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in data.items()})
                Player.calls.append((self.training, torch.is_grad_enabled(), {k: np.array(v) for k, v in data.items()}, out))
                return {k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in out.items()}
    return MODELS["verif_player"]


def answer(weight, opt, data):
    board = data["board_input"]
    h, w = board.shape[-2:]
    r = np.random.default_rng([opt["seed"], int(board.sum()), int((board[0].reshape(-1).long() * torch.arange(board[0].numel())).sum())])
    cells = h * w + opt["extra"]
    policy = r.integers(0, 3 if opt["ties"] else 1 << 20, cells) / (1.0 if opt["ties"] else 1 << 17)
    policy = torch.tensor(policy, dtype=torch.float32)
    if opt["shape"] == "plane" and not opt["extra"]:
        policy = policy.reshape(h, w)
    value = torch.tensor(r.normal(size=3), dtype=torch.float32) + weight[:3]
    out = dict(value=value[None], policy=policy[None])
    if opt["aux"]:
        out["aux_losses"] = {"extra": ("value_loss", value[None] * 2), "loss": torch.zeros(())}
    return out


class Inputs:
    def __init__(self, lines):
        self.lines = list(lines)

    def __call__(self, prompt=""):
        if not self.lines:
            raise EOFError("no more moves")
        line = self.lines.pop(0)
        return line() if callable(line) else line


class Position:
    """A board as a list of moves."""

    def __init__(self, w, h):
        self.w, self.h, self.moves = w, h, []

    def free(self):
        return [(x, y) for y in range(self.h) for x in range(self.w) if (x, y) not in self.moves]

    def planes(self, fixed):
        out = np.zeros((2, self.h, self.w), np.int8)
        for i, (x, y) in enumerate(self.moves):
            out[i % 2, y, x] = 1
        return out[::-1].copy() if not fixed and len(self.moves) % 2 else out

    def text(self):
        rows = ["   " + "".join(chr(ord("A") + x) + " " for x in range(self.w))]
        for y in range(self.h):
            rows.append("%2d " % (y + 1) + "".join(("XO"[self.moves.index((x, y)) % 2] if (x, y) in self.moves else ".") + " " for x in range(self.w)))
        return "\n".join(rows) + "\n"


def training_sample(c, moves, ctx, name):
    """What a dataset record of this position gives, after the pipelines."""
    from dataset import build_dataset

    path = os.path.join(ctx.tmp, name + ".bin")
    free = next((x, y) for y in range(c["h"]) for x in range(c["w"]) if (x, y) not in moves)
    write_binary(path, [encode_simple(1, len(moves), c["w"], "renju", free, moves)])
    ds = build_dataset("simple_binary", [path], runtime_context=context("visualize", local=1), shuffle=False, rules=["renju"], boardsizes=[(c["w"], c["w"])],
                       fixed_side_input=c["fixed"], pipeline_args=copy.deepcopy(pipelines(c)))
    data, = [e.data for e in ds]
    return data


def play_session(c, ctx):
    """Runs test_play.py on the game; -> (end, printed text, positions asked for, replies expected)."""
    Player = oracle_model()
    torch.manual_seed(c["seed"])
    weight = torch.randn(8)
    ckpt = os.path.join(ctx.tmp, "ckpt_x_0000012.pt")
    torch.save({"model": {"weight": weight}, "epoch": "3", "iteration": "12"}, ckpt)
    margs = dict(seed=c["seed"], extra=c["extra"], shape=c["shape"], ties=c["ties"], aux=False, payload=c.get("payload", {"a": {"b": 1, "c": [1, 2]}, "d": "x"}))
    file = dict(model_type="verif_player", model_args=margs, dataset_args={"fixed_side_input": c["fixed"], "rules": ["renju"]}, data_pipelines=pipelines(c), board_width=c["w"],
                board_height=c["h"])
    if c["keys"]:
        file.update(rundir="x", batch_size=4, iterations=10, learning_rate=1e-3, train_datas=["a", "b"], no_shuffle=True, optim_args={"betas": [0.9, 0.99]}, clip_grad_norm=1.0,
                    _provenance=dict(git_commit="0" * 40, torch_version="2", cuda_version=None, accelerate_version="1"))
    if c["unknown"]:
        file[c["unknown"]] = 7
    if c.get("prefetch") is not None:
        file["cuda_prefetch_batches"] = c["prefetch"]
    if c["dashes"]:
        file = {k if k.startswith("-") else "--" + k: v for k, v in file.items()}
    config = os.path.join(ctx.tmp, "config.yaml")
    with open(config, "w") as f:
        yaml.safe_dump({k: v for k, v in file.items() if v is not None}, f, sort_keys=False)
    argv = ["-c", config, "-p", ckpt, "--use_cpu"] + (["--debug"] if c["debug"] else [])
    if c["over"] or c["aux"]:
        argv += ["--test_model_args", yaml.safe_dump({"aux": c["aux"], "payload": {"a": {"b": 5}}}, default_flow_style=True, width=1 << 20).strip()]
    state = dict(pos=Position(c["w"], c["h"]), plan=list(c["ops"]), steps=[], end=None)

    def reply():
        """Called for each prompt: settles the model's previous move, then answers."""
        settle(state, out.getvalue())
        pos = state["pos"]
        if not state["plan"]:
            state["end"] = "eof"
            raise EOFError("verif: no more moves")
        op = state["plan"].pop(0)
        if op == "ai":
            state["pending"] = len(Player.calls)
            return ""
        free = pos.free()
        if c["illegal"] and not state["plan"]:
            wrong = pos.moves[op % len(pos.moves)] if pos.moves and op % 2 else [(c["w"], 0), (0, c["h"])][op // 2 % 2]
            state["end"] = "illegal"
            x, y = wrong
        else:
            x, y = free[op % len(free)]
            pos.moves.append((x, y))
            state["steps"].append(("user", list(pos.moves)))
        return chr(ord("a" if c["lower"] else "A") + x) + str(y + 1)

    def settle(state, text):
        if state.get("pending") is None:
            return
        asked = Player.calls[state["pending"]:][:1]
        state["pending"] = None
        found = re.findall(r"winrate: (\S+), drawrate: (\S+), move: ([A-Z])(\d+) \(prob=(\S+)\)", text)
        require(asked and found, "the model is not asked for a move, or no move is reported", key="move")
        win, drw, col, row, prob = found[-1]
        state["steps"].append(("ai", list(state["pos"].moves), asked[0], (ord(col) - 65, int(row) - 1), float(win), float(drw), float(prob)))
        state["pos"].moves.append((ord(col) - 65, int(row) - 1))

    del Player.calls[:], Player.built[:]
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, builtins.input
    sys.argv, builtins.input = ["test_play.py"] + argv, lambda prompt="": (out.write(prompt), reply())[1]
    end = "over"
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(os.path.join(REPO, "test_play.py"), run_name="__main__")
    except EOFError as e:
        end = "eof" if "verif" in str(e) else "error %s" % e
    except SystemExit as e:
        end = "exit %s" % e.code
    except Exception as e:
        if type(e).__name__ in ("Violation", "Reject"):
            raise
        end = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv, builtins.input = old
    if end == "over":
        settle(state, out.getvalue())
    return end, state, out.getvalue(), err.getvalue(), weight, list(Player.calls), list(Player.built)


@st.composite
def settings(draw):
    return dict(w=5, h=5, ops=["ai"], lower=False, fixed=False, pipeline=None, debug=False, extra=0, shape="plane", seed=0, aux=False, ties=False, illegal=False,
                keys=draw(st.booleans()), over=False, dashes=draw(st.booleans()), unknown=None, payload=draw(c28.nested),
                prefetch=draw(st.sampled_from([None] * 5 + [0, 2])))


def check_settings(c, ctx):
    """The settings recorded by train.py are the ones test_play.py builds the model with."""
    end, state, text, err, weight, calls, built = play_session(c, ctx)
    if c["prefetch"] is not None:
        require(not (end.startswith("exit") and "Unknown config key: %scuda_prefetch_batches" % ("--" if c["dashes"] else "") in err and not built),
                "a run config that names cuda_prefetch_batches is refused", key="play-prefetch")
    args = dict(seed=c["seed"], extra=c["extra"], shape=c["shape"], ties=c["ties"], aux=False, payload=c["payload"])
    plain = True
    try:  # what the Python text of the mapping means in YAML
        read = yaml.safe_load(str(args))
        plain = c28.same(read, args)
        spoilt = read == args or [read.get("payload")] == built or any(read.get(k) != args[k] for k in args if k != "payload")
    except Exception:
        plain, spoilt = False, not built
    if not plain and (not built or not c28.same(built, [c["payload"]])):
        require(not spoilt, "nested settings are read as the YAML of their Python text", key="play-nested")
    require(end == "eof" and c28.same(built, [c["payload"]]), "the recorded model settings %r give %r (%s)", c["payload"], built, end, key="settings")
    ctx.nontrivial(isinstance(c["payload"], (dict, list)) and bool(c["payload"]))


def check_play(c, ctx):
    end, state, text, err, weight, calls, built = play_session(c, ctx)
    total = c["w"] * c["h"]
    pos = state["pos"]
    if c["unknown"]:
        require(end.startswith("exit") and end != "exit 0" and not built, "a configuration with the unknown key %s: %s", c["unknown"], end, key="unknown")
        return
    if state["end"] == "illegal":
        require(end.startswith("ValueError"), "an impossible move ends the program with %s", end, key="legal")
    elif len(pos.moves) + 1 >= total:
        require(end == "over", "the game ends with %s at ply %d", end, len(pos.moves), key="end")
    else:
        require(end == "eof", "the program ends with %s at ply %d: %s", end, len(pos.moves), err[-300:], key="end")
    merged = {"a": {"b": 5 if c["over"] or c["aux"] else 1, "c": [1, 2]}, "d": "x"}
    require(built == [merged], "the model is built with %r", built, key="model")
    asked = 0
    for step in state["steps"]:
        if step[0] == "user":
            continue
        _, moves, (training, grad, data, out), move, win, drw, prob = step
        here = Position(c["w"], c["h"])
        here.moves = moves
        require(not training and not grad, "the model plays in training mode", key="model")
        planes = here.planes(c["fixed"])
        require(data["board_input"].shape == (1, 2, c["h"], c["w"]) and np.array_equal(data["board_input"][0], planes), "the model is shown another position at ply %d",
                len(moves), key="position")
        require(data["board_size"].tolist() == [[c["h"], c["w"]]], "the model is told the size %r", data["board_size"].tolist(), key="position")
        require(data["stm_input"].tolist() == [[1.0 if len(moves) % 2 else -1.0]], "the side to move is %r at ply %d", data["stm_input"].tolist(), len(moves), key="position")
        if c["w"] == c["h"] and len(moves) < total and asked < 6:
            want = training_sample(c, moves, ctx, "p%d" % len(moves))
            for k, v in data.items():
                if v.dtype.kind in "OU":
                    continue
                require(k in want, "the field %s is not part of a training sample", k, key="fields")
                require(v.shape == np.shape(want[k]), "%s has the shape %r, in training %r", k, v.shape, np.shape(want[k]), key="fields")
                require(np.array_equal(v, np.array(want[k])), "%s differs from training at ply %d", k, len(moves), key="fields")
            for k in want:
                if k.startswith(("line_enc", "forbidden", "sparse")):
                    require(k in data, "the field %s is missing", k, key="fields")
        require(move in here.free(), "the model plays the occupied point %r", move, key="legal")
        policy = torch.softmax(out["policy"].flatten().double(), 0)
        value = torch.softmax(out["value"].flatten().double(), 0)
        best = max(float(policy[y * c["w"] + x]) for x, y in here.free())
        mine = float(policy[move[1] * c["w"] + move[0]])
        require(abs(mine - best) <= 1e-6 * best, "the move %r has probability %.6f, the best legal move %.6f", move, mine, best, key="move")
        for name, a, b in (("winrate", win, (value[0] - value[1] + 1) / 2), ("drawrate", drw, value[2]), ("probability", prob, mine)):
            require(abs(a - float(b)) <= 1e-4, "the %s is shown as %.4f instead of %.4f", name, a, float(b), key="shown")
        asked += 1
    # every position on the way is drawn once, in order
    shown, walk = [], Position(c["w"], c["h"])
    for i in range(len(pos.moves) + 1):
        walk.moves = pos.moves[:i]
        if i + 1 < total:
            shown.append(walk.text())
    at = 0
    for i, board in enumerate(shown):
        found = text.find(board, at)
        require(found >= 0, "the board after %d moves is not drawn", i, key="shown")
        at = found + len(board)
    header = shown[0].split("\n")[0] + "\n"
    require(text.count(header) == len(shown), "%d boards are drawn for %d positions", text.count(header), len(shown), key="shown")
    if c["debug"]:
        per = 2 if c["aux"] else 1
        printed(text, calls, per, len(state["steps"]))
        values = [np.array(v.split(), float) for v in re.findall(r"Raw Value: \[([^\]]*)\]", text)]
        wanted = []
        for training, grad, data, out in calls[:]:
            wanted.append(out["value"].numpy().ravel())
        require(len(values) >= per * len(state["steps"]), "%d raw values are printed for %d positions", len(values), len(state["steps"]), key="debug")
        for v in values[::per]:
            require(any(np.allclose(v, x, atol=1.1e-4) for x in wanted), "the raw value %r is none of the model's", v, key="debug")
    ctx.label("pipeline %s" % (c["pipeline"] if isinstance(c["pipeline"], str) else sorted(c["pipeline"] or {})))
    ctx.label("rectangle", c["w"] != c["h"])
    ctx.label("to the end", end == "over")
    ctx.nontrivial(any(s[0] == "ai" and s[1] for s in state["steps"]))


def printed(text, calls, per, steps):
    """The debug output holds the raw and normalised outputs of each position."""
    number = r"[-+0-9.e\s\[\]]+"
    outs = [(o["value"].numpy().ravel().astype(float), o["policy"].numpy().ravel().astype(float)) for _, _, _, o in calls]
    soft = lambda v: np.exp(v - v.max()) / np.exp(v - v.max()).sum()
    for what, each, tol, wanted in (("Softmaxed Value", per, 1.1e-4, [soft(v) for v, _ in outs] + [soft(2 * v) for v, _ in outs]),
                                    ("Raw Policy", 1, 0.6e-2, [p for _, p in outs]), ("Softmaxed Policy", 1, 0.6e-2, [soft(p) for _, p in outs])):
        found = [np.array(re.sub(r"[\[\]]", " ", m).split(), float) for m in re.findall(what + r": *\n?(%s)" % number, text)]
        require(len(found) >= each * steps, "%d blocks of %s are printed for %d positions", len(found), what, steps, key="debug")
        for v in found:
            require(any(len(v) == len(x) and np.allclose(v, x, atol=tol, rtol=1e-3) for x in wanted), "%s is printed as %r, the model never gave it", what, v[:5], key="debug")


# ---------------------------------------------------------------- tracing

@st.composite
def traces(draw):
    key = draw(st.sampled_from(sorted(zoo.ZOO)))
    return dict(model=key, shape=draw(st.sampled_from(zoo.ZOO[key][2])), seed=draw(st.integers(0, 1 << 16)), batch=draw(st.integers(1, 3)), fail=draw(st.integers(0, 40)),
                override=draw(st.booleans()))


def check_trace(c, ctx):
    from model.trace import TraceableModule, model_trace

    keops.serialise()
    model, twin = zoo.build(c["model"], c["seed"]), zoo.build(c["model"], c["seed"])
    marks = [m for m in model.modules() if isinstance(m, TraceableModule)]
    if not marks:
        raise Reject("a model without traces")
    data = zoo.batch([zoo.sample(c["model"], c["seed"] + i, tuple(c["shape"])) for i in range(c["batch"])])
    copy_of = lambda: {k: v.clone() for k, v in data.items()}
    own = []
    if c["override"]:        # somebody else watches one module already
        marks[c["seed"] % len(marks)].__dict__["_trace"] = lambda name, t: own.append(name)
    before = [dict(m.__dict__) for m in marks]
    state = {k: v.clone() for k, v in model.state_dict().items()}

    def run(events):
        with model_trace(model, lambda name, t: events.append((name, t.detach().clone()))):
            return model(copy_of())

    def unchanged(what):
        require(all(m.__dict__.get("_trace") is b.get("_trace") and ("_trace" in m.__dict__) == ("_trace" in b) for m, b in zip(marks, before)), "%s leaves its hooks behind", what, key="trace")
        now = model.state_dict()
        require(now.keys() == state.keys() and all(torch.equal(now[k], state[k]) for k in state), "%s changes the model", what, key="trace")

    with torch.no_grad():
        plain = model(copy_of())
        spied = list(own)
        events, again = [], []
        traced = run(events)
        unchanged("tracing")
        for k in ("value", "policy"):
            require(torch.equal(plain[k], traced[k]), "%s: tracing changes the %s", c["model"], k, key="trace")
        require(len(own) == len(spied), "the replaced watcher is still called", key="trace")
        run(again)
        require([n for n, _ in events] == [n for n, _ in again] and all(torch.equal(a[1], b[1]) or bool(torch.isnan(a[1]).any()) for a, b in zip(events, again)),
                "%s: two traces of one position differ", c["model"], key="trace")
        paths = {n for n, m in model.named_modules() if isinstance(m, TraceableModule)}
        for name, _ in events:
            require(any(name.startswith(p + ".") or not p for p in paths), "the event %s belongs to no module", name, key="trace")
        out = io.StringIO()
        if hasattr(model, "forward_debug_print"):
            with contextlib.redirect_stdout(out):
                shown = model.forward_debug_print(copy_of())
            require(torch.equal(shown["value"], plain["value"]) and torch.equal(shown["policy"], plain["policy"]), "debug printing changes the outputs", key="trace")
            at = 0
            for name, t in events:
                at = out.getvalue().find("%s:\n%s" % (name, t), at)
                require(at >= 0, "%s is not printed in its place", name, key="trace")
        # a failing observer ends the trace
        if events:
            left = [c["fail"] % len(events)]

            def failing(name, t):
                left[0] -= 1
                if left[0] < 0:
                    raise KeyError("verif")
            try:
                with model_trace(model, failing):
                    model(copy_of())
                require(False, "the observer's error is lost", key="trace")
            except KeyError:
                pass
            unchanged("a failed trace")
        # one trace at a time per model, and any number of models
        inner, outer = [], []
        with model_trace(model, lambda n, t: outer.append(n)):
            try:
                with model_trace(model, lambda n, t: inner.append(n)):
                    require(False, "a model is traced twice at a time", key="trace")
            except RuntimeError:
                pass
            with model_trace(twin, lambda n, t: inner.append(n)):
                twin(copy_of())
            require([n for n, _ in events] == inner and not outer, "two models share their traces", key="trace")
            model(copy_of())
        require(outer == [n for n, _ in events], "after a refused trace the first sees %d of %d events", len(outer), len(events), key="trace")
        unchanged("nested tracing")
        require(not [1 for m in twin.modules() if "_trace" in m.__dict__], "the other model keeps hooks", key="trace")
    ctx.label(c["model"])
    ctx.nontrivial(len(events) > 1)


# ---------------------------------------------------------------- the board object

@st.composite
def boards(draw):
    return dict(w=draw(st.integers(1, 7)), h=draw(st.integers(1, 7)), fixed=draw(st.booleans()),
                ops=draw(st.lists(st.one_of(st.tuples(st.just("move"), st.integers(-1, 7), st.integers(-1, 7)), st.tuples(st.just("undo"), st.just(0), st.just(0)),
                                            st.tuples(st.just("free"), st.integers(0, 99), st.just(0)), st.tuples(st.just("flip"), st.just(0), st.just(0))),
                                  min_size=1, max_size=30)))


def check_board(c, ctx):
    with c28_quiet():
        Board = runpy.run_path(os.path.join(REPO, "test_play.py"), run_name="verif_play")["Board"]
    b = Board(c["w"], c["h"], {"fixed_side_input": c["fixed"]}, {})
    history, side, undone = [], 0, 0
    for op, x, y in c["ops"]:
        taken = {(p[0], p[1]) for p in history}
        if op == "free":
            free = [(i, j) for j in range(c["h"]) for i in range(c["w"]) if (i, j) not in taken]
            if not free:
                continue
            op, (x, y) = "move", free[x % len(free)]
        if op == "move":
            legal = 0 <= x < c["w"] and 0 <= y < c["h"] and (x, y) not in taken
            require(bool(b.is_legal(x, y)) == legal, "is_legal(%d, %d) is %r", x, y, b.is_legal(x, y), key="board")
            try:
                b.move(x, y)
                ok = True
            except ValueError:
                ok = False
            require(ok == legal, "the move (%d, %d) is %s", x, y, "accepted" if ok else "refused", key="board")
            if legal:
                history.append((x, y, side))
                side = 1 - side
        elif op == "undo":
            try:
                b.undo()
                ok = True
            except ValueError:
                ok = False
            require(ok == bool(history), "undo with %d moves: %r", len(history), ok, key="board")
            if history:
                side = history.pop()[2]
                undone += 1
        else:
            b.flip_side()
            side = 1 - side
        planes = np.zeros((2, c["h"], c["w"]), np.int8)
        for i, j, s in history:
            planes[s, j, i] = 1
        data = b.get_data()
        want = planes if c["fixed"] or side == 0 else planes[::-1]
        require(np.array_equal(data["board_input"].numpy(), want) and float(data["stm_input"]) == (1 if side else -1) and data["board_size"].tolist() == [c["h"], c["w"]]
                and b.ply == len(history) and b.width == c["w"] and b.height == c["h"], "after %s the board differs", op, key="board")
        data["board_input"].fill_(9)        # what is handed out is a copy
    ctx.nontrivial(undone and len(history))


def c28_quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ---------------------------------------------------------------- visualize_dataset.py

@st.composite
def shows(draw):
    d = draw_dataset(draw, max_rows=6, max_files=3, composite=draw(st.integers(0, 3)) == 0)
    d["rate"] = 1.0
    return dict(data=d, batch=draw(st.integers(1, 4)), limit=draw(st.sampled_from([0, 0, 1, 2, 5, 100])), save=draw(st.integers(0, 4)) == 0,
                pipeline=draw(st.sampled_from([None, None, "forbidden"])), passes=draw(st.booleans()), mapped=draw(st.integers(0, 3)) == 0)


def read_figure(fig):
    """What is drawn: stones, policy, crosses, pass marker, value bar, texts."""
    ax, = fig.axes
    out = dict(black=set(), white=set(), policy={}, forbidden=set(), passes=None, bar=None, texts=[t.get_text() for t in ax.texts], grid=0,
               lim=(tuple(ax.get_xlim()), tuple(ax.get_ylim())))
    for line in ax.lines:
        x, y = line.get_xdata(), line.get_ydata()
        mark = line.get_marker()
        if mark in ("None", None, ""):
            out["grid"] += 1
            continue
        x, y = float(np.ravel(x)[0]), float(np.ravel(y)[0])
        if mark == "x":
            out["forbidden"].add((x, y))
        elif mark == "o":
            face = line.get_markerfacecolor()
            if isinstance(face, str):
                out["black" if face == "k" else "white"].add((x, y))
            elif y < 0:
                out["passes"] = float(face[3])
            else:
                require((x, y) not in out["policy"], "a point is drawn twice", key="figure")
                out["policy"][(x, y)] = tuple(map(float, face))
    rects = [p for p in ax.patches if hasattr(p, "get_width")]
    out["bar"] = [(float(p.get_x()), float(p.get_width()), p.get_facecolor()[0]) for p in rects]
    return out


def rows_of(ds, batch, kind):
    """[(sample)] of an independent pass over the dataset."""
    out = []
    if hasattr(ds, "__getitem__") and kind in ("katago_numpy", "processed_katago_numpy"):
        return [{k: np.asarray(v) if not isinstance(v, (str, tuple)) else v for k, v in ds[i].items()} for i in range(len(ds))]
    for env in ds:
        data = env.data
        for i in range(len(data["board_size"])):
            if np.asarray(env.is_real)[i]:
                out.append({k: v[i] if isinstance(v, list) else np.asarray(v[i]) for k, v in data.items()})
    return out


def expected_figure(s, fixed):
    h, w = (int(v) for v in s["board_size"])
    board = np.asarray(s["board_input"])
    stm = float(np.ravel(s["stm_input"])[0])
    value = np.array(s["value_target"], float)
    if not fixed and stm > 0:
        board, value = board[[1, 0]], value[[1, 0, 2]]
    H, W = board.shape[-2:]
    policy = np.array(s["policy_target"], float)
    passes = None
    if policy.ndim == 1:
        passes, policy = policy[-1], policy[:-1].reshape(H, W)
    out = dict(black=set(), white=set(), policy={}, forbidden=set(), passes=passes if passes is not None and passes > 0 else None)
    for y in range(h):
        for x in range(w):
            if board[0, y, x]:
                out["black"].add((x, y))
            elif board[1, y, x]:
                out["white"].add((x, y))
            else:
                out["policy"][(x, y)] = policy[y, x]
            if "forbidden_point" in s and np.asarray(s["forbidden_point"])[..., y, x].any():
                out["forbidden"].add((x, y))
    out["value"] = value
    return out


def matches(fig, want, w, h):
    if fig["black"] != want["black"] or fig["white"] != want["white"] or fig["forbidden"] != want["forbidden"]:
        return "stones or forbidden points"
    if set(fig["policy"]) != set(want["policy"]):
        return "policy points"
    for p, v in want["policy"].items():
        if abs(fig["policy"][p][3] - min(max(v, 0), 1e9) ** 0.5) > 1e-4 or fig["policy"][p][:3] != (1, 0, 0):
            return "policy of %r" % (p,)
    if (fig["passes"] is None) != (want["passes"] is None) or want["passes"] is not None and abs(fig["passes"] - want["passes"] ** 0.5) > 1e-4:
        return "pass move"
    parts = (w - 3) * want["value"][[0, 2, 1]]
    starts = 1 + np.concatenate([[0], np.cumsum(parts)[:-1]])
    if len(fig["bar"]) != 3 or any(abs(a[0] - x) > 1e-3 * (1 + abs(x)) or abs(a[1] - v) > 1e-3 * (1 + abs(v)) for a, x, v in zip(fig["bar"], starts, parts)):
        return "value bar"
    if not fig["bar"][0][2] < fig["bar"][1][2] < fig["bar"][2][2]:
        return "colours of the value bar"
    return None


def check_show(c, ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    d = copy.deepcopy(c["data"])
    if c["mapped"]:
        for t, m in (("P", "processed_katago_numpy"), ("R", "katago_numpy")):
            if "weights" not in d and d["worlds"][0]["kind"] == t:
                d["types"] = [m]
    for w in d["worlds"]:
        w["unit"] = True
    built = Built(d, ctx.tmp + "/data")
    kind, paths, args = built.spec()
    if kind in ("katago_numpy", "processed_katago_numpy"):
        args = {k: v for k, v in args.items() if k in ("boardsizes", "fixed_side_input", "fixed_board_size", "apply_symmetry")}
        d["shuffle"] = False
    if kind not in ("simple_binary", "iterative_sparse_numpy", "iterative_multi") and c["passes"]:
        args["has_pass_move"] = True
    size = args.get("fixed_board_size")
    if isinstance(size, (list, tuple)):
        args["fixed_board_size"] = max(size)
    pipes = {"forbidden_point": {"fixed_side_input": bool(args.get("fixed_side_input"))}} if c["pipeline"] else None
    from dataset import build_dataset
    from dataset.core import single_process_dataset_context
    from utils.misc_utils import seed_everything

    try:
        seed_everything(42)
        ds = build_dataset(kind, list(paths), runtime_context=single_process_dataset_context(c["batch"], seed=0, mode="visualize"), shuffle=d["shuffle"],
                           pipeline_args=copy.deepcopy(pipes), **copy.deepcopy(args))
        want = rows_of(ds, c["batch"], kind)
    except Exception as e:
        if any(t in str(e) for t in ("no batch", "produced no", "no admitted", "admit", "must match exactly")):
            raise Reject("no data")
        raise
    if any(np.max(s["policy_target"]) > 1 for s in want):
        raise Reject("the policies are not probabilities")
    figs = []
    saved = os.path.join(ctx.tmp, "fig")
    argv = list(paths) or ["none"]
    if not paths:
        raise Reject("the program asks for data files")
    argv += ["--dataset_type", kind, "--dataset_args", yaml.safe_dump(_plain(args), default_flow_style=True, width=1 << 20).strip(), "--batch_size", str(c["batch"]),
             "--max_entries", str(c["limit"])]
    if pipes:
        argv += ["--data_pipelines", yaml.safe_dump(pipes, default_flow_style=True, width=1 << 20).strip()]
    if d["shuffle"]:
        argv.append("--shuffle")
    if c["save"]:
        argv += ["--save_fig_dir", saved]
    show = plt.show
    plt.show = lambda *a, **k: figs.append(read_figure(plt.gcf()))
    try:
        code, text = c28.main("visualize_dataset.py", argv)
    except Exception as e:
        if type(e).__name__ in ("Violation", "Reject"):
            raise
        code, text = "%s: %s" % (type(e).__name__, e), ""
    finally:
        plt.show = show
        left = len(plt.get_fignums())
        plt.close("all")
    fixed = bool(args.get("fixed_side_input"))
    n = len(want) if not c["limit"] else min(len(want), c["limit"])
    require(not code, "the program ends with %s", code, key="show")
    require(len(figs) == n, "%d figures for %d of %d entries", len(figs), n, len(want), key="show")
    require(left == 0, "%d figures stay open", left, key="show")
    require(len(want) == sum(len(w.records) for w in built.worlds), "an iteration gives %d of %d entries", len(want), sum(len(w.records) for w in built.worlds), key="entries")
    for i, (fig, s) in enumerate(zip(figs, want)):
        value, stm = expected_figure(s, fixed)["value"], float(np.ravel(s["stm_input"])[0])
        require("BWD"[int(np.argmax(value))] in fig["texts"], "figure %d names the result %r", i, fig["texts"], key="figure")
        require(any("(white)" in t for t in fig["texts"]) == (stm > 0) and any("(black)" in t for t in fig["texts"]) == (stm <= 0), "figure %d: %r", i, fig["texts"], key="figure")
        raw = float(np.ravel(s["raw_eval"])[0]) if "raw_eval" in s else float("nan")
        told = [float(m) for t in fig["texts"] for m in re.findall(r"eval=\[?([-+0-9.e]+)", t)]
        require(len(told) == (raw == raw) and all(abs(t - raw) <= 1e-3 * (1 + abs(raw)) for t in told), "figure %d names the evaluation %r, it is %r", i, told, raw, key="figure")
        h, w = (int(v) for v in s["board_size"])
        line = re.search(r"^Data Entry\[%d\]: (.*)$" % i, text, re.M)
        line = line.group(1) if line else ""
        require(re.sub(r"np\.\w+\((\d+)\)", r"\1", line).startswith("bs=(%d, %d)" % (h, w)) and ("stm=" in line) and ("vt=" in line) and ("ply=" in line) == ("ply" in s)
                and ("pos=%s" % s["position_string"] in line if isinstance(s.get("position_string"), str) else "pos=" not in line),
                "entry %d is announced as %r", i, line, key="announced")
        bad = matches(fig, expected_figure(s, fixed), w, h)
        require(bad is None, "figure %d of a %dx%d board shows another entry: %s", i, h, w, bad, key="figure")
        require(fig["lim"] == ((-1.0, float(w)), (-1.0, float(h))) and fig["grid"] == w + h, "figure %d has another board", i, key="figure")
    if c["save"]:
        files = sorted(os.listdir(saved), key=lambda f: int(f.split(".")[0]))
        require(files == ["%d.png" % i for i in range(n)], "saved figures: %r", files, key="show")
    require(len(re.findall(r"^Data Entry\[(\d+)\]", text, re.M)) == n, "entries are announced wrongly", key="show")
    ctx.label(kind)
    ctx.nontrivial(n > 1)


def _plain(v):
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    return [_plain(x) for x in v] if isinstance(v, (list, tuple)) else v


CAMPAIGNS = [Campaign("play", game, check_play, 400, 8000, shards=4, case_timeout=60),
             Campaign("settings", settings, check_settings, 80, 2000, shards=1, case_timeout=60),
             Campaign("trace", traces, check_trace, 150, 2500, shards=1, case_timeout=60),
             Campaign("board", boards, check_board, 300, 6000, shards=1),
             Campaign("show", shows, check_show, 200, 5000, shards=3, case_timeout=100)]
