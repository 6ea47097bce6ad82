"""C07: binary game records decode faithfully."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from dataset import build_dataset
from vlib import npzref
from vlib.api import Campaign, Reject, require
from vlib.data import RULE_INDEX, Batch, cell_name, context, encode_packed, encode_simple, write_binary

RULE = ("A case is a set of game records written by an independent encoder, with the options of the dataset reading them; every delivered "
        "sample is compared with a replay of its game. Non-trivial: at least two samples were delivered. In the 'damaged' campaign one "
        "file is cut short or a move group is malformed, and the case is non-trivial if something precedes the damage.")
ASSUMPTIONS = ["boards 5..22 and at most 30 stones per game", "value and policy targets compared to 1e-5", "plain files and LZ4 files of one or several frames"]
BUDGET = {"quick": 50, "thorough": 900}
RULES = ["freestyle", "standard", "renju"]
EVALS = st.one_of(st.none(), st.sampled_from([0, 1, -1, 28999, 29000, -29000, -28999, 32767, -32768]), st.integers(-600, 600))


def draw_entry(draw, kind, sizes):
    e = dict(bs=draw(st.sampled_from(sizes)), rule=draw(st.sampled_from(RULES)), result=draw(st.integers(0, 2)),
             seed=draw(st.integers(0, 1 << 16)), init=draw(st.integers(0, 7)))
    if kind == "K":
        noeval = draw(st.integers(0, 3)) == 0
        groups = []
        for _ in range(draw(st.integers(0, 5))):
            n = draw(st.sampled_from([1, 1, 2, 3]))
            groups.append([[draw(st.integers(0, 5)) > 0, None if noeval else draw(EVALS)] for _ in range(n)])
        e["groups"] = groups
        e["total"] = draw(st.integers(0, 1023))
        e["tag"] = draw(st.integers(0, 16383))
    else:
        e["init"] = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 20, 24]))
    return e


def cases(draw, kind=None):
    kind = kind or draw(st.sampled_from("BK"))
    sizes = draw(st.lists(st.sampled_from([5, 6, 9, 15, 20, 22]), min_size=1, max_size=2, unique=True))
    files = [[draw_entry(draw, kind, sizes) for _ in range(draw(st.integers(0 if i else 1, 5)))] for i in range(draw(st.integers(1, 2)))]
    o = dict(fixed_side_input=draw(st.booleans()), drop_extra=draw(st.integers(0, 3)) == 0,
             apply_symmetry=draw(st.sampled_from([False, False, True, "default", "rotate", "flip", "flip_diag_rotate180"])))
    if draw(st.integers(0, 2)) == 0:
        o["fixed_board_size"] = draw(st.sampled_from([22, 23]))
    if kind == "K":
        o.update(has_pass_move=draw(st.booleans()), value_td_lambda=draw(st.sampled_from([0.0, 0.5, 1.0, 0.25])), dynamic_value_lambda=draw(st.booleans()),
                 multipv_temperature=draw(st.sampled_from([0.05, 0.0, 1.0])), use_mate_multipv=draw(st.booleans()))
        if draw(st.booleans()):
            o["winrate_model_args"] = dict(scaling_factor=draw(st.sampled_from([100, 200, 350.5])), eval_mate_threshold=draw(st.sampled_from([500, 29000])),
                                           soft_mate_winrate=draw(st.booleans()))
    return dict(kind=kind, files=files, opt=o, lz4=draw(st.sampled_from([0, 0, 1, 2])), rules=draw(st.one_of(st.just(RULES), st.lists(st.sampled_from(RULES), min_size=1, unique=True))),
                admit=draw(st.one_of(st.just(sizes), st.lists(st.sampled_from(sizes), min_size=1, unique=True))),
                batch=draw(st.integers(1, 5)), quantum=draw(st.sampled_from([1, 2, 256])), seed=draw(st.integers(0, 1000)))


def moves_of(e):
    """(initial stones, groups of (move or None, eval)) of an entry."""
    cells = np.random.default_rng(e["seed"]).permutation(e["bs"] ** 2)
    cells = [(int(c) % e["bs"], int(c) // e["bs"]) for c in cells]
    init, rest = cells[:e["init"]], cells[e["init"]:]
    groups = []
    for g in e.get("groups", []):
        out = []
        for k, (place, ev) in enumerate(g):
            if not place and not any(m is None for m, _ in out):
                out.append((None, ev))
            else:
                out.append((rest[k], ev))
        if out[0][0] is not None:
            rest = [c for c in rest if c != out[0][0]]
        groups.append(out)
    return init, groups, rest[0]


def encode(e, kind):
    init, groups, move = moves_of(e)
    if kind == "B":
        return encode_simple(e["result"], len(init), e["bs"], e["rule"], move, init)
    return encode_packed(e["bs"], e["rule"], e["result"], e["total"], init, groups, e["tag"])


def winrate(ev, args):
    s, mate, soft = args.get("scaling_factor", 200), args.get("eval_mate_threshold", 29000), args.get("soft_mate_winrate", False)
    if not soft and abs(ev) >= mate:
        return 1.0 if ev > 0 else 0.0
    return 1 / (1 + math.exp(-ev / s))


def stones(moves, bs):
    """Planes of (own, opponent) stones from the view of the player to move, black first."""
    planes = np.zeros((2, bs, bs), np.int8)
    for i, m in enumerate(moves):
        if m is not None:
            own = (len(moves) - i) % 2 == 0
            planes[0 if own else 1, m[1], m[0]] = 1
    return planes


def samples_of(e, kind, c):
    """The samples of an entry before augmentation and padding."""
    o = c["opt"]
    if e["rule"] not in c["rules"] or e["bs"] not in c["admit"]:
        return []
    init, groups, move = moves_of(e)
    bs = e["bs"]

    def sample(moves, value, policy, ev):
        return dict(board_size=np.array([bs, bs]), board_input=stones(moves, bs), stm_input=np.array([1.0 if len(moves) % 2 else -1.0]),
                    value_target=np.array(value, float), policy_target=policy, rule_index=RULE_INDEX[e["rule"]], ply=len(moves), moves=list(moves), raw_eval=ev)

    if kind == "B":
        policy = np.zeros((bs, bs))
        policy[move[1], move[0]] = 1
        return [sample(init, [e["result"] == 2, e["result"] == 0, e["result"] == 1], policy, "absent")]
    out, moves = [], list(init)
    args = o.get("winrate_model_args", {})
    for i, g in enumerate(groups):
        r = e["result"] if i % 2 == 0 else 2 - e["result"]
        value = [float(r == 2), float(r == 0), float(r == 1)]
        best, ev = g[0]
        if ev is not None and o["value_td_lambda"]:
            stage = i / (len(groups) - 1) if len(groups) > 1 else 0.0
            t = o["value_td_lambda"] * ((1 - stage) if o["dynamic_value_lambda"] else 1)
            w, l = winrate(ev, args), winrate(-ev, args)
            value = [v * (1 - t) + s * t for v, s in zip(value, [w, l, max(1 - w - l, 0)])]
        policy = np.zeros(bs * bs + 1)
        single = (len(g) == 1 or o["multipv_temperature"] == 0 or any(v is None for _, v in g)
                  or not o["use_mate_multipv"] and ev >= args.get("eval_mate_threshold", 29000))
        if single:
            weights = [1.0] + [0.0] * (len(g) - 1)
        else:
            rates = [winrate(v, args) for _, v in g]
            exps = [math.exp((x - max(rates)) / o["multipv_temperature"]) for x in rates]
            weights = [x / sum(exps) for x in exps]
        for (m, _), p in zip(g, weights):
            policy[-1 if m is None else m[1] * bs + m[0]] += p
        if not o["has_pass_move"]:
            policy = policy[:-1].reshape(bs, bs)
        out.append(sample(moves, value, policy, ev))
        moves.append(best)
    return out


def point(m, k, s):
    """Image of a move under symmetry number k, by following the point through the array transform."""
    if m is None:
        return None
    a = np.zeros((s, s))
    a[m[1], m[0]] = 1
    y, x = np.argwhere(npzref.OPS[k](a))[0]
    return (int(x), int(y))


NAMES = {True: range(8), "default": range(8), "rotate": (0, 1, 2, 3), "flip": (0, 4, 5, 6, 7), "flip_diag_rotate180": (0, 2, 6, 7)}
CORE = ("board_size", "board_input", "stm_input", "value_target", "policy_target")


def forms(s, o):
    """The permitted deliveries of a sample."""
    white = s["stm_input"][0] > 0 and o["fixed_side_input"]
    for k in NAMES.get(o["apply_symmetry"], (0,)) if o["apply_symmetry"] else (0,):
        t = {f: v for f, v in s.items() if f != "moves"}
        if white:
            t["board_input"] = t["board_input"][::-1]
            t["value_target"] = t["value_target"][[1, 0, 2]]
        t = npzref.transform(t, npzref.OPS[k])
        if o.get("fixed_board_size"):
            t = npzref.pad(t, o["fixed_board_size"])
        moves = [point(m, k, int(s["board_size"][0])) for m in s["moves"]]
        if o["drop_extra"]:
            t = {f: t[f] for f in CORE}
        else:
            t["position_string"] = "".join(map(cell_name, moves))
            last = moves[-1] if moves else None
            t["last_move"] = np.array([-1, -1] if last is None else last)
            if t["raw_eval"] == "absent":
                del t["raw_eval"]
            else:
                t["raw_eval"] = np.nan if t["raw_eval"] is None else float(t["raw_eval"])
        yield k, t


def mismatch(got, want):
    if got.keys() != want.keys():
        return f"fields {sorted(got)} instead of {sorted(want)}"
    for k in want:
        if k == "position_string":
            if str(got[k]) != want[k]:
                return f"position {got[k]!r} instead of {want[k]!r}"
            continue
        a, b = np.asarray(got[k], float), np.asarray(want[k], float)
        if b.ndim == 0 and a.size == 1:
            a = a.reshape(())
        if a.shape != b.shape:
            return f"{k} has shape {a.shape} instead of {b.shape}"
        soft = k in ("value_target", "policy_target")
        if not (np.allclose(a, b, rtol=1e-5, atol=1e-6) if soft else np.array_equal(a, b, equal_nan=True)):
            return f"{k} is {a.tolist()} instead of {b.tolist()}"
    return None


def rows_of(data, mask):
    return [{k: v[i] for k, v in data.items()} for i in range(len(mask)) if mask[i]]


def build(c, paths):
    o = dict(c["opt"])
    o.update(rules=list(c["rules"]), boardsizes=[(s, s) for s in c["admit"]], shuffle=False, sequential_active_streams=1, sequential_read_quantum=c["quantum"])
    return build_dataset({"B": "simple_binary", "K": "packed_binary"}[c["kind"]], paths, runtime_context=context("validate", c["seed"], c["batch"]), **o)


def path_of(c, ctx, i):
    return os.path.join(ctx.tmp, "g%d%s" % (i, ".lz4" if c["lz4"] else {"B": ".bin", "K": ".binpack"}[c["kind"]]))


def check(c, ctx):
    paths, want = [], []
    for i, entries in enumerate(c["files"]):
        paths.append(path_of(c, ctx, i))
        write_binary(paths[-1], [encode(e, c["kind"]) for e in entries], frames=c["lz4"])
        for e in entries:
            want += samples_of(e, c["kind"], c)
    if not want:
        raise Reject("no sample matches")
    got = []
    for env in build(c, paths):
        b = Batch(env)
        got += rows_of(b.data, b.mask)
    # several board sizes are delivered in separate batches: compare each size in its own order
    fixed = c["opt"].get("fixed_board_size")
    for size in {int(s["board_size"][0]) for s in want}:
        w = [s for s in want if fixed or int(s["board_size"][0]) == size]
        g = [r for r in got if fixed or int(r["board_size"][0]) == size]
        require(len(w) == len(g), "%d samples of size %d delivered, the records hold %d", len(g), size, len(w))
        for n, (r, s) in enumerate(zip(g, w)):
            found = None
            for k, t in forms(s, c["opt"]):
                found = mismatch(r, t)
                if found is None:
                    ctx.label("symmetry %d" % k)
                    break
            require(found is None, lambda: f"sample {n}: {found}" + (" (and no other symmetry fits)" if c["opt"]["apply_symmetry"] else ""))
    require(all(int(r["board_size"][0]) in c["admit"] for r in got), "a foreign board size was delivered")
    ctx.nontrivial(len(got) >= 2)
    ctx.label("lz4", bool(c["lz4"]))
    ctx.label("pass", any(m is None for s in want for m in s["moves"]))
    ctx.label("odd start", any(e["init"] % 2 for f in c["files"] for e in f))
    ctx.label("white to move, fixed side", c["opt"]["fixed_side_input"] and any(s["stm_input"][0] > 0 for s in want))
    for k in ("drop_extra", "fixed_board_size", "has_pass_move", "value_td_lambda", "winrate_model_args"):
        ctx.label(k, bool(c["opt"].get(k)))


def damaged(draw):
    c = cases(draw)
    c["opt"]["apply_symmetry"] = False
    c["cut"] = draw(st.integers(1, 40))
    c["how"] = draw(st.sampled_from(["cut", "cut", "group"] if c["kind"] == "K" else ["cut"]))
    return c


def check_damaged(c, ctx):
    entries = [e for f in c["files"] for e in f]
    blobs = [encode(e, c["kind"]) for e in entries]
    path = path_of(c, ctx, 0)
    if c["how"] == "cut":
        whole = b"".join(blobs)
        bounds = [0]
        for b in blobs:
            bounds.append(bounds[-1] + len(b))
        cut = len(whole) - min(c["cut"], len(whole) - 1)
        if cut in bounds:
            cut += 1
        if cut >= len(whole):
            raise Reject("nothing to cut")
        intact = max(i for i, b in enumerate(bounds) if b <= cut)
        write_binary(path, [whole[:cut]], frames=1)
    else:
        broken = [i for i, e in enumerate(entries) if e["groups"] and len(e["groups"][-1]) == 1]
        if not broken:
            raise Reject("no group to break")
        intact = broken[-1]
        init, groups, _ = moves_of(entries[intact])
        b = bytearray(blobs[intact])
        b[-4] &= 0xFE                     # the last group no longer starts with a first move
        blobs[intact] = bytes(b)
        write_binary(path, blobs, frames=1)
    want = [s for e in entries[:intact] for s in samples_of(e, c["kind"], c)]
    got, error = [], None
    try:
        for env in build(c, [path]):
            b = Batch(env)
            got += rows_of(b.data, b.mask)
    except (RuntimeError, ValueError, EOFError) as exc:
        error = exc
    require(error is not None, "a damaged file was read to its end without complaint, %d samples delivered", len(got))
    require("produced no global batch" not in str(error), "a damaged file was reported as empty")
    for r in got:
        require(any(mismatch(r, t) is None for s in want for _, t in forms(s, c["opt"])), "a sample was delivered that is in no intact record")
    ctx.nontrivial(bool(want))
    ctx.label(c["how"])
    ctx.label("delivered before the damage", bool(got))


CAMPAIGNS = [
    Campaign("simple", lambda: st.composite(lambda d: cases(d, "B"))(), check, 350, shards=2),
    Campaign("packed", lambda: st.composite(lambda d: cases(d, "K"))(), check, 700, shards=4),
    Campaign("damaged", lambda: st.composite(damaged)(), check_damaged, 250, shards=2),
]
