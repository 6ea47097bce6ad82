"""C03: training data resumes exactly at any committed batch."""
import io
import os

import torch
from hypothesis import strategies as st

from vlib.api import Campaign, Reject, require
from vlib.data import SEQUENTIAL, Built, Consumer, context, draw_dataset

RULE = ("A case is a dataset (files, type, options) and a history of consume/commit/read-ahead/abort/save/restore operations. "
        "Non-trivial: a state or rollback taken strictly inside an epoch was followed by at least one more committed batch.")
ASSUMPTIONS = ["the new process is a new dataset object over the same files; the state passes through torch.save and "
               "torch.load(weights_only=True) as the trainer does", "files are not modified between save and restore unless the case says so"]
BUDGET = {"quick": 60, "thorough": 900}


def cases(draw):
    d = draw_dataset(draw)
    d["steps"] = draw(st.one_of(st.none(), st.integers(1, 7)))
    op = st.one_of(
        st.tuples(st.just("step"), st.integers(1, 3)),
        st.tuples(st.just("step"), st.just(1)),
        st.tuples(st.just("ahead"), st.integers(1, 4)),
        st.tuples(st.just("hold"), st.integers(1, 3)),
        st.tuples(st.just("save"), st.just(0)),
        st.tuples(st.just("restore"), st.integers(0, 3)),
        st.tuples(st.just("restart"), st.integers(0, 3)),
    )
    return dict(data=d, batch=draw(st.integers(1, 5)), seed=draw(st.integers(0, 100)),
                ops=[list(o) for o in draw(st.lists(op, min_size=2, max_size=14))])


def through_disk(state):
    buf = io.BytesIO()
    torch.save(state, buf)
    buf.seek(0)
    return torch.load(buf, map_location="cpu", weights_only=True)


def build(built, case, **over):
    return built.build(context("train", case["seed"], case["batch"]), **over)


def reference(built, case, count):
    """The uninterrupted run: (batches, state after each commit); stops where an epoch delivers nothing."""
    c = Consumer(build(built, case))
    out = []
    for _ in range(count):
        try:
            b = c.next()
        except RuntimeError as exc:
            if "produced no global batch" not in str(exc):
                raise
            break
        c.commit([b])
        out.append(b)
    c.abort()
    return out


def check(case, ctx):
    built = Built(case["data"], ctx.tmp)
    total = 40
    ref = reference(built, case, total)
    if not ref:
        raise Reject("no batch")
    c = Consumer(build(built, case))
    pos = 0
    saved = []
    resumed_inside = False

    def expect(b, p, what):
        if p >= len(ref):
            return False
        require(b.same(ref[p]), lambda: f"{what}: batch {p} (epoch {ref[p].epoch}) differs from the uninterrupted run: rows "
                f"{built.tags(b.data)} epoch {b.epoch} last {b.last}, expected {built.tags(ref[p].data)} epoch {ref[p].epoch} last {ref[p].last}")
        return True

    def take(n):
        """Up to n batches without committing, inside one epoch."""
        out = []
        while len(out) < n and pos + len(out) < len(ref):
            b = c.next()
            expect(b, pos + len(out), "read")
            out.append(b)
            if b.last:
                break
        return out

    def inside():
        return 0 < pos < len(ref) and not ref[pos - 1].last

    pending_check = False
    for op, arg in case["ops"]:
        if op == "step":
            got = take(arg)
            if got:
                c.commit(got)
                pos += len(got)
                if pending_check:
                    resumed_inside = True
        elif op == "ahead":        # read ahead, then abort the iteration: everything uncommitted is given back
            take(arg)
            c.abort()
            pending_check |= inside()
        elif op == "hold":         # commit one, deliver more, keep a state while those are uncommitted, then go on from there
            got = take(arg + 1)
            if got:
                c.commit(got[:1])
                pos += 1
                saved.append((pos, through_disk(c.stream.state_dict())))
                c.abort()
                pending_check |= inside()
        elif op == "save":
            saved.append((pos, through_disk(c.stream.state_dict())))
        else:
            if op == "restart":    # a restart resumes from the latest state
                saved.append((pos, through_disk(c.stream.state_dict())))
                k = len(saved) - 1
            elif saved:
                k = arg % len(saved)
            else:
                continue
            p, state = saved[k]
            c.abort()
            over = {}
            if case["data"].get("threads") is not None:       # read-ahead settings are not part of the data order
                over = dict(threads=(case["data"]["threads"] + arg) % 4, prefetch=1 + (case["data"]["prefetch"] + arg) % 5)
            c = Consumer(build(built, case, **over))
            if arg % 2 and pos % 2:
                for b in [c.next()]:                          # a used object takes over the state as well
                    pass
                c.abort()
            c.stream.load_state_dict(state)
            pos = p
            pending_check |= inside()
    # run on to the end of the following epoch
    extra = 0
    while pos < len(ref) and extra < 12:
        b = c.next()
        expect(b, pos, "continued")
        c.commit([b])
        pos += 1
        extra += 1
        if pending_check:
            resumed_inside = True
    c.abort()
    ctx.nontrivial(resumed_inside)
    for t in case["data"]["types"]:
        ctx.label(t)
    ctx.label("composite", built.composite)
    ctx.label("shuffle", case["data"]["shuffle"])
    ctx.label("epochs>1", ref[min(pos, len(ref)) - 1].epoch > 0)


# ------------------------------------------------------------------------------------------ refusals

CHANGES = ["seed", "batch", "shuffle", "window", "steps", "rate", "fixed_side", "content", "file-removed", "file-order", "symmetry"]


def refuse_cases(draw):
    d = draw_dataset(draw, min_files=2, lz4=True)
    d["rate"] = 1.0
    return dict(data=d, batch=draw(st.integers(1, 3)), seed=draw(st.integers(0, 100)), consumed=draw(st.integers(0, 3)),
                change=draw(st.sampled_from(CHANGES)), which=draw(st.integers(0, 5)))


def whole(w):
    """Every file has an admitted size (a file of another board size contributes nothing and is not part of the dataset)."""
    return all(list(f["bs"]) in [list(x) for x in w.spec["admit"]] for f in w.spec["files"])


def check_refuse(case, ctx):
    d = case["data"]
    built = Built(d, ctx.tmp)
    c = Consumer(build(built, case))
    try:
        for _ in range(case["consumed"]):
            c.commit([c.next()])
    except RuntimeError as exc:
        if "produced no global batch" in str(exc):
            raise Reject("no batch")
        raise
    if not built.resumable:
        try:
            c.stream.state_dict()
        except RuntimeError:
            ctx.nontrivial()
            ctx.label("not resumable")
            return
        finally:
            c.abort()
        require(False, "a source over compressed game files cannot resume exactly but hands out a state")
    state = through_disk(c.stream.state_dict())
    c.abort()
    over, ctxargs = {}, dict(mode="train", seed=case["seed"], local=case["batch"])
    change = case["change"]
    w = built.worlds[case["which"] % len(built.worlds)]
    if change == "seed":
        ctxargs["seed"] += 1
    elif change == "batch":
        ctxargs["local"] += 1
    elif change == "shuffle":
        over["shuffle"] = not d["shuffle"]
    elif change == "window":
        if not d["shuffle"]:
            raise Reject("the window is unused without shuffling")
        over["window"] = d["window"] + 1
    elif change == "steps":
        over["steps"] = (d.get("steps") or 0) + 3
    elif change == "rate":
        over["rate"] = 0.75
    elif change == "fixed_side":
        over["fixed_side"] = not d["fixed_side"]
    elif change == "symmetry":
        if any(x["kind"] in SEQUENTIAL for x in d["worlds"]):
            raise Reject("binary datasets are built without symmetry here")
        over["symmetry"] = not d.get("symmetry")
    elif change == "content":
        if not whole(w):
            raise Reject("a file without admitted rows")
        path = w.paths[case["which"] % len(w.paths)]
        with open(path, "ab") as f:
            f.write(b"\0" * 8 if w.kind in "PRS" else open(path, "rb").read())
    elif change == "file-removed":
        if len(w.paths) < 2 or not whole(w):
            raise Reject("one file")
        w.paths.pop()
    elif change == "file-order":
        if len(w.paths) < 2 or not whole(w):
            raise Reject("one file")
        w.paths.reverse()
    try:
        ds = build(built, case, **over) if not set(ctxargs) - {"mode", "seed", "local"} and ctxargs["seed"] == case["seed"] \
            and ctxargs["local"] == case["batch"] else built.build(context(**ctxargs), **over)
        ds._build_partitioned_stream()
    except ValueError:
        raise Reject("the changed dataset cannot be built")
    accepted = True
    try:
        ds._partitioned_stream.load_state_dict(state)
    except (RuntimeError, ValueError):
        accepted = False
    require(not accepted, "a state saved under another %s was accepted", change)
    # after a refusal the dataset is still usable from its start
    fresh = Consumer(ds)
    want = Consumer(built.build(context(**ctxargs), **over))
    try:
        b = want.next()
    except RuntimeError as exc:
        if "produced no global batch" in str(exc):
            return
        raise
    require(fresh.next().same(b), "after refusing a state the dataset does not start at its first batch")
    fresh.abort(), want.abort()
    ctx.nontrivial()
    ctx.label(change)


CAMPAIGNS = [
    Campaign("history", lambda: st.composite(cases)(), check, 1000, shards=6),
    Campaign("refuse", lambda: st.composite(refuse_cases)(), check_refuse, 400, shards=2),
]
