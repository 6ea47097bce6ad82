"""C05: ranks partition the single-process plan."""
import io
from collections import Counter

import numpy as np
import torch
from hypothesis import strategies as st

from dataset import build_dataset
from vlib.api import Campaign, Reject, require
from vlib.data import MAP_TYPES, Batch, Built, Consumer, World, context, draw_dataset, draw_world

RULE = ("A case is a dataset, a world size and a local batch size; every rank is a dataset object of its own and all ranks advance in "
        "lockstep, with checkpoints taken between steps. Non-trivial: at least two ranks delivered at least two common steps.")
ASSUMPTIONS = ["ranks are separate dataset objects in one process; collective communication between real processes is outside this check",
               "at most 4 ranks"]
BUDGET = {"quick": 60, "thorough": 900}


def disk(state):
    buf = io.BytesIO()
    torch.save(state, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=True)


def joined(parts):
    out = {}
    for k, v in parts[0].data.items():
        out[k] = sum((p.data[k] for p in parts), []) if isinstance(v, list) else np.concatenate([p.data[k] for p in parts])
    return out


def same_arrays(a, b):
    return a.keys() == b.keys() and all(
        (a[k] == b[k]) if isinstance(a[k], list) else
        (a[k].dtype == b[k].dtype and a[k].shape == b[k].shape and a[k].tobytes() == b[k].tobytes()) for k in a)


# -------------------------------------------------------------------------------- one plan cut into slices

def cases(draw):
    d = draw_dataset(draw, kinds="PRS", max_rows=draw(st.sampled_from([10, 24])))
    train = draw(st.sampled_from([True, True, True, False]))
    if train:
        d["steps"] = draw(st.one_of(st.none(), st.none(), st.integers(1, 4)))
    return dict(data=d, W=draw(st.integers(2, 4)), local=draw(st.integers(1, 3)), seed=draw(st.integers(0, 99)), train=train,
                epochs=draw(st.integers(1, 2)), save=draw(st.integers(0, 5)), src=draw(st.integers(0, 3)))


def step(consumers):
    """The next batch of every rank, or None when every rank ended the epoch without another batch."""
    out, ended = [], []
    for c in consumers:
        try:
            out.append(c.next())
            ended.append(False)
        except RuntimeError as exc:
            if "produced no global batch" not in str(exc):
                raise
            ended.append(True)
    require(len(set(ended)) == 1, "some ranks have a batch and others have none: %s", ended)
    return None if ended[0] else out


def check(case, ctx):
    built = Built(case["data"], ctx.tmp)
    W, n, mode = case["W"], case["local"], "train" if case["train"] else "validate"

    def rank(r):
        return built.build(context(mode, case["seed"], n, W, r))

    one = Consumer(built.build(context(mode, case["seed"], n * W)))
    ranks = [Consumer(rank(r)) for r in range(W)]
    steps, epoch_end = 0, 0
    for _ in range(case["epochs"]):
        while True:
            whole = step([one])
            got = step(ranks)
            require((whole is None) == (got is None), "the ranks and the single process disagree about whether the epoch has a batch")
            if whole is None:
                if steps == 0:
                    raise Reject("no batch")
                return finish(case, ctx, steps)
            whole = whole[0]
            for r, b in enumerate(got):
                require(b.last == whole.last and b.epoch == whole.epoch, "step %d: rank %d says last=%s epoch=%d, one process says %s %d",
                        steps, r, b.last, b.epoch, whole.last, whole.epoch)
                require(len(b.mask) == n, "rank %d got %d rows of a local batch of %d", r, len(b.mask), n)
            require(sum((list(b.keys) for b in got), []) == list(whole.keys),
                    lambda: f"step {steps}: the ranks' samples do not make up the global batch in rank order")
            require(np.array_equal(np.concatenate([b.mask for b in got]), whole.mask), "step %d: real-row masks differ", steps)
            require(same_arrays(joined(got), whole.data), "step %d: rows differ between the ranks and one process", steps)
            real = [t for b in got for t, m in zip(built.tags(b.data), b.mask) if m]
            require(len(real) == len(set(real)), "a record is delivered to two ranks in one step")
            if case["train"]:
                prep = [c.stream.prepare_commit([b.token]) for c, b in zip(ranks, got)]
                require(len({p.coordination_descriptor for p in prep}) == 1, "ranks describe the same step differently")
                for c, p in zip(ranks, prep):
                    c.stream.commit_prepared(p)
                one.commit([whole])
                if steps == case["save"]:
                    # the trainer restores every rank from the state of the rank that wrote the checkpoint
                    state = disk(ranks[case["src"] % W].stream.state_dict())
                    for r in range(W):
                        ranks[r].abort()
                        ranks[r] = Consumer(rank(r))
                        ranks[r].stream.load_state_dict(state)
                    ctx.label("restored")
                    other = Consumer(built.build(context(mode, case["seed"], n * W)))
                    try:
                        other.stream.load_state_dict(state)
                    except RuntimeError:
                        pass
                    else:
                        require(False, "a state of %d ranks is accepted by one process", W)
            steps += 1
            if whole.last:
                break
        for c in [one] + ranks:
            if c.it is not None:
                require(next(c.it, None) is None, "a batch follows the last one of the epoch")
                c.it = None
    finish(case, ctx, steps)


def finish(case, ctx, steps):
    ctx.nontrivial(steps >= 2)
    for t in case["data"]["types"]:
        ctx.label(t)
    ctx.label("composite", "weights" in case["data"])
    ctx.label("train" if case["train"] else "evaluation")


def map_cases(draw):
    w = draw_world(draw, kinds="PR", max_rows=12, mixed=False)
    return dict(world=w, W=draw(st.integers(2, 4)), local=draw(st.integers(1, 3)), seed=draw(st.integers(0, 9)))


def check_map(case, ctx):
    w = World(case["world"], ctx.tmp)
    W, n = case["W"], case["local"]

    def run(size, r, world_size):
        ds = build_dataset(MAP_TYPES[w.kind], w.paths, runtime_context=context("validate", case["seed"], size, world_size, r), **w.options())
        return [Batch(env) for env in ds]

    whole, ranks = run(n * W, 0, 1), [run(n, r, W) for r in range(W)]
    require(all(len(r) == len(whole) for r in ranks), "ranks deliver %s steps, one process %d", [len(r) for r in ranks], len(whole))
    for i, b in enumerate(whole):
        parts = [r[i] for r in ranks]
        require(same_arrays(joined(parts), b.data) and np.array_equal(np.concatenate([p.mask for p in parts]), b.mask)
                and sum((list(p.keys) for p in parts), []) == list(b.keys), "step %d differs between the ranks and one process", i)
        require(all(p.last == b.last for p in parts), "the ranks disagree about the last step")
    ctx.nontrivial(len(whole) >= 2)
    ctx.label(MAP_TYPES[w.kind])


# -------------------------------------------------------------------------------- sequential streams: files are dealt out

def shard_cases(draw):
    W = draw(st.integers(2, 4))
    d = draw_dataset(draw, kinds="BK", max_rows=8, max_files=6, min_files=W, composite=False)
    comp = draw(st.integers(0, 3)) == 0
    if comp:
        n = draw(st.integers(2, 3))
        kind = d["worlds"][0]["kind"]
        d["worlds"] += [draw_world(draw, kinds=[kind], max_rows=8, max_files=5, min_files=W, foreign=False) for _ in range(n - 1)]
        d["worlds"][0]["admit"] = sorted({tuple(f["bs"]) for f in d["worlds"][0]["files"]})
        d["worlds"][0]["admit"] = [list(a) for a in d["worlds"][0]["admit"]]
        base = 0
        for w in d["worlds"]:
            w["uid0"] = base
            base += sum(f["n"] for f in w["files"])
        d["types"] = [d["types"][0]] * n
        d["weights"] = [draw(st.sampled_from([1, 1, 2, 0.5])) for _ in range(n)]
        d["sync"] = draw(st.booleans())
    d["steps"] = draw(st.integers(1, 12))
    return dict(data=d, W=W, local=draw(st.integers(1, 3)), seed=draw(st.integers(0, 99)), epochs=draw(st.integers(1, 3)),
                save=draw(st.integers(0, 8)), lz4=draw(st.integers(0, 5)) == 0)


def check_shard(case, ctx):
    d = case["data"]
    if case["lz4"]:
        for w in d["worlds"]:
            w["lz4"] = True
    built = Built(d, ctx.tmp)
    W, n, steps = case["W"], case["local"], d["steps"]

    def rank(r, **over):
        return built.build(context("train", case["seed"], n, W, r), **over)

    admitted = {}
    for wi, w in enumerate(built.worlds):
        for r in w.records:
            admitted[r.uid] = ((wi, r.file), r.shape)
    # refusals: no exact plan without a step budget
    for what, make in (("without steps_per_epoch", lambda: rank(0, steps=None)),
                       ("for evaluation", lambda: built.build(context("validate", case["seed"], n, W, 0)))):
        try:
            make()._build_partitioned_stream()
        except ValueError:
            pass
        else:
            require(False, "a sequential source of unknown length was sharded %s", what)

    def complain(exc):
        # a rank whose shard has no admitted record cannot train
        return "no admitted records" in str(exc) or "produced no global batch" in str(exc)

    def gives(r):
        """Whether the files of a rank hold any record it may deliver."""
        try:
            Consumer(built.build(context("train", case["seed"], 1, W, r), steps=1)).next()
        except (RuntimeError, AssertionError):
            return False
        return True

    delivered = [[] for _ in range(W)]          # [(epoch, uid)]
    try:
        ranks = [Consumer(rank(r)) for r in range(W)]
        for e in range(case["epochs"]):
            for s in range(steps):
                got = []
                for r, c in enumerate(ranks):
                    try:
                        got.append(c.next())
                    except RuntimeError as exc:
                        if complain(exc):
                            require(not gives(r), "rank %d of %d finds no record at step %d of epoch %d although its files hold some: %s", r, W, s, e, exc)
                        raise
                for r, b in enumerate(got):
                    require(b.epoch == e and b.last == (s == steps - 1), "rank %d: epoch %d step %d of %d is delivered as epoch %d last=%s",
                            r, e, s, steps, b.epoch, b.last)
                    require(len(b.mask) == n and bool(b.mask.all()), "rank %d: a training batch of %d rows, mask %s", r, len(b.mask), b.mask.tolist())
                    tags = built.tags(b.data)
                    require(len(tags) == n, "rank %d delivers rows that are no record of the files", r)
                    delivered[r] += [(e, t) for t in tags]
                prep = [c.stream.prepare_commit([b.token]) for c, b in zip(ranks, got)]
                require(len({p.coordination_descriptor for p in prep}) == 1, "ranks describe the same step differently")
                for c, p in zip(ranks, prep):
                    c.stream.commit_prepared(p)
                if built.resumable and e * steps + s == case["save"]:
                    states = [disk(c.stream.state_dict()) for c in ranks]
                    for r in range(W):
                        ranks[r].abort()
                        ranks[r] = Consumer(rank(r))
                        try:
                            ranks[r].stream.load_state_dict(states[(r + 1) % W])
                        except (RuntimeError, ValueError):
                            pass
                        else:
                            require(False, "rank %d accepts the state of rank %d of a sharded stream", r, (r + 1) % W)
                        reference = Consumer(rank(r))
                        ranks[r].stream.load_state_dict(states[r])
                        del reference
                    ctx.label("restored")
    except RuntimeError as exc:
        if complain(exc):
            raise Reject("a shard without admitted records")
        raise
    for c in ranks:
        c.abort()
    owners = {}
    for r in range(W):
        for _, t in delivered[r]:
            require(t in admitted, "record %d is not admitted", t)
            require(owners.setdefault(admitted[t][0], r) == r, "file %s is read by ranks %d and %d", admitted[t][0], owners[admitted[t][0]], r)
    cycles = False
    if not built.composite and d["rate"] == 1.0:
        fixed = bool(d.get("fixed"))
        every = set()
        for r in range(W):
            for e in range(case["epochs"]):
                seq = [t for e2, t in delivered[r] if e2 == e]
                every |= set(seq)
                own = [t for t in admitted if owners.get(admitted[t][0]) == r]
                by_shape = {}
                for t in own:
                    by_shape.setdefault(None if fixed else admitted[t][1], []).append(t)
                counts = Counter(seq)
                for shape, members in by_shape.items():
                    c = [counts[t] for t in members]
                    # only files already seen are known to be owned; an unseen file of the rank has count 0 everywhere
                    require(max(c) - min(c) <= 1, "rank %d repeats records of shape %s before the others were delivered: counts %s",
                            r, shape, dict(zip(members, c)))
                    cycles |= min(c) >= 2
        shapes = {None if fixed else s for _, s in admitted.values()}
        if len(shapes) == 1 and all(len([1 for e, _ in delivered[r] if e == 0]) >= len(admitted) for r in range(W)):
            require(every == set(admitted), "records %s are given to no rank", sorted(set(admitted) - every))
            ctx.label("complete")
    ctx.nontrivial(steps * case["epochs"] >= 2)
    ctx.label("several cycles", cycles)
    ctx.label("composite", built.composite)
    ctx.label(d["types"][0])


CAMPAIGNS = [
    Campaign("slices", lambda: st.composite(cases)(), check, 800, shards=4),
    Campaign("map", lambda: st.composite(map_cases)(), check_map, 160, shards=1),
    Campaign("shards", lambda: st.composite(shard_cases)(), check_shard, 700, shards=3),
]
