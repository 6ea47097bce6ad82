"""C09: composite datasets keep their ratio and identities."""
import os
from fractions import Fraction
from functools import reduce
from math import gcd, lcm

import numpy as np
from hypothesis import strategies as st

from dataset import build_dataset
from vlib.api import Campaign, Reject, require
from vlib.data import KIND_TYPES, MAP_TYPES, SEQUENTIAL, Batch, Built, World, context, draw_world

RULE = ("A case is a composite over one to four children with ratios, read as a stream of records (in pieces of generated sizes, with the "
        "cursor saved and restored in between) or as batches. Non-trivial: at least two children with two records each.")
ASSUMPTIONS = ["children of at most 24 records", "what a child yields alone is taken from the same dataset type without a composite around it",
               "within a period a child may be at most one record ahead of or behind its share"]
BUDGET = {"quick": 50, "thorough": 900}


def cases(draw, uniform=False):
    pool = draw(st.sampled_from(["PR", "P", "PR", "S", "B", "K", "BK"]))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    worlds = [draw_world(draw, kinds=pool, max_rows=draw(st.sampled_from([4, 12, 24])), max_files=2, foreign=False, uniform=uniform) for _ in range(n)]
    if uniform:
        for w in worlds:
            w["admit"] = worlds[0]["admit"]
            for f in w["files"]:
                f["bs"] = worlds[0]["files"][0]["bs"]
    base = 0
    for w in worlds:
        w["uid0"] = base
        base += sum(f["n"] for f in w["files"])
    d = dict(worlds=worlds, types=[draw(st.sampled_from(KIND_TYPES[w["kind"]])) for w in worlds],
             weights=[draw(st.sampled_from([1, 1, 1.0, 2, 3, 5, 0.5, 0.25, 0.1, 0.3, 1.5, 7])) for _ in range(n)], sync=draw(st.booleans()),
             shuffle=draw(st.booleans()), window=1, rate=draw(st.sampled_from([1.0, 1.0, 0.7])), fixed=draw(st.sampled_from([None, None, 9])),
             fixed_side=draw(st.booleans()))
    if any(w["kind"] in SEQUENTIAL for w in worlds):
        d["streams"], d["quantum"] = draw(st.integers(1, 3)), draw(st.sampled_from([1, 2, 256]))
    if sum(integer_weights(d["weights"])) > 60:
        d["weights"] = [1] * n
    return dict(data=d, seed=draw(st.integers(0, 999)), chunks=draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)), save=draw(st.booleans()),
                cycle=draw(st.sampled_from([0, 0, 1])), epoch=draw(st.integers(0, 2)), batch=draw(st.integers(1, 5)))


def integer_weights(ratios):
    f = [Fraction(str(float(r))) for r in ratios]
    k = reduce(lcm, (x.denominator for x in f))
    w = [int(x * k) for x in f]
    g = reduce(gcd, w)
    return [x // g for x in w]


def judge_order(children, sizes, weights, sync):
    """children: child index of every record in the order of the composite; sizes: records every child has."""
    n, total = len(weights), sum(weights)
    cycles = min(s // w for s, w in zip(sizes, weights))
    if sync:
        require(len(children) == cycles * total, "%d records, expected %d complete periods of %d", len(children), cycles, total)
    else:
        require([children.count(c) for c in range(n)] == list(sizes), "records per child %s, expected all of %s", [children.count(c) for c in range(n)], sizes)
    counts = [0] * n
    for k, c in enumerate(children[:cycles * total], 1):
        counts[c] += 1
        for i, w in enumerate(weights):
            # below a whole record off the ideal share would be best possible; interleaving of three and more children may need one
            require(abs(counts[i] * total - k * w) <= total if n < 3 else abs(counts[i] * total - k * w) < 2 * total,
                    "after %d records child %d delivered %d, its share is %d of %d", k, i, counts[i], w, total)
        if k % total == 0:
            require(counts == [w * (k // total) for w in weights], "after %d whole periods the counts are %s", k // total, counts)
    if not sync:                       # a child that still has records keeps its pace after another ran out
        rest = children[cycles * total:]
        left = [s - cycles * w for s, w in zip(sizes, weights)]
        while rest:
            take = [min(l, w) for l, w in zip(left, weights)]
            head, rest = rest[:sum(take)], rest[sum(take):]
            require([head.count(c) for c in range(n)] == take, "after a child ran out a period holds %s, expected %s", [head.count(c) for c in range(n)], take)
            left = [l - t for l, t in zip(left, take)]


def alone(built, i, case):
    """Records of child i on its own: (record keys in order)."""
    d = case["data"]
    w = built.worlds[i]
    o = dict(built.options(i), boardsizes=sorted({b for x in built.worlds for b in x.options()["boardsizes"]}))
    ds = build_dataset(d["types"][i], w.paths, runtime_context=context("train", case["seed"], 1), shuffle=d["shuffle"], sample_rate=d["rate"], **o)
    ds._build_partitioned_stream()
    return ds._record_source, ds


def drain(source, case, chunks, save):
    """(child, record key, envelope) of a whole pass over a source."""
    cursor = source.start_cycle(case["epoch"], case["cycle"], 0)
    out, i = [], 0
    while True:
        k = chunks[i % len(chunks)]
        i += 1
        if save and i % 2 and source.capabilities.resumable:
            state = source.save_cursor(cursor)
            if hasattr(source, "close_cursor"):
                source.close_cursor(cursor)
            cursor = source.restore_cursor(state)
        if k == 0 or not hasattr(source, "next_envelopes"):
            env, cursor = source.next_envelope(cursor)
            got = [] if env is None else [env]
        else:
            got, cursor = source.next_envelopes(cursor, k)
            require(len(got) <= k, "%d records delivered where at most %d were asked for", len(got), k)
        if not got:
            break
        out += got
        if len(out) > 5000:
            raise AssertionError("endless source")
    env, cursor = source.next_envelope(cursor)
    require(env is None, "a source that ended goes on")
    if hasattr(source, "close_cursor"):
        source.close_cursor(cursor)
    return out


def check_source(case, ctx):
    d = case["data"]
    built = Built(d, ctx.tmp)
    ds = built.build(context("train", case["seed"], case["batch"]))
    ds._build_partitioned_stream()
    source = ds._record_source
    weights = integer_weights(d["weights"])
    require(list(source.weights) == weights, "ratios %s became weights %s", d["weights"], source.weights)
    got = drain(source, case, case["chunks"], case["save"])
    ids = list(source.child_ids)
    require(ids == ["c%d" % i for i in range(len(weights))], "child ids %s", ids)
    sizes, shapes = [], {c: s for s, c in source.shape_codes.items()}
    mine = [[e for e in got if e.source_id == i] for i in range(len(ids))]
    for i in range(len(ids)):
        solo, keep = alone(built, i, case)
        want = drain(solo, case, [0], False)
        codes = {c: s for s, c in solo.shape_codes.items()}
        sizes.append(len(want))
        for k, (a, b) in enumerate(zip(mine[i], want)):
            require(a.record_key == ("composite", ids[i], b.record_key), "record %d of child %d is %s, alone it is %s", k, i, a.record_key, b.record_key)
            require(shapes[a.shape_code] == codes[b.shape_code], "record %d of child %d changes its shape", k, i)
        keep.close() if hasattr(keep, "close") else None
    judge_order([e.source_id for e in got], sizes, weights, d["sync"])
    ctx.nontrivial(sum(s >= 2 for s in sizes) >= 2)
    ctx.label("sync" if d["sync"] else "all")
    ctx.label("a child ran out", max(s / w for s, w in zip(sizes, weights)) > min(s // w for s, w in zip(sizes, weights)))
    ctx.label("cursor restored", case["save"] and source.capabilities.resumable)
    ctx.label("kinds " + "".join(sorted({w["kind"] for w in d["worlds"]})))


# ---------------------------------------------------------------- delivered content

def rows_of(ds, worlds, commit):
    out = []
    for env in ds:
        b = Batch(env)
        for i in np.nonzero(b.mask)[0]:
            out.append({k: v[i:i + 1] for k, v in b.data.items()})
        if commit:
            ds._partitioned_stream.commit_batch(env.token)
    return out


def check_content(case, ctx):
    d = case["data"]
    d["shuffle"], d["rate"] = False, 1.0
    if {w["kind"] for w in d["worlds"]} == {"B", "K"}:
        raise Reject("their samples have different fields")
    built = Built(d, ctx.tmp)
    try:
        got = rows_of(built.build(context("validate", case["seed"], case["batch"])), built.worlds, False)
    except RuntimeError as exc:
        if "no global batch" in str(exc) and d["sync"]:
            raise Reject("no complete period")
        raise
    single, owner = {}, {}
    sizes = []
    for i, w in enumerate(built.worlds):
        ds = build_dataset(d["types"][i], w.paths, runtime_context=context("validate", case["seed"], 1), shuffle=False, **dict(w.options(), **built.options(i)))
        rows = rows_of(ds, [w], False)
        sizes.append(len(rows))
        for r in rows:
            u = built.tags(r)[0]
            single[u] = r
            owner[u] = i
    order = []
    seen = set()
    for r in got:
        u = built.tags(r)[0]
        require(u in single and u not in seen, "row %d is delivered twice or belongs to no child", u)
        seen.add(u)
        a, b = dict(r), dict(single[u])
        unlike = [k for k in a.keys() | b.keys() if k not in a or k not in b or not np.array_equal(np.asarray(a[k]), np.asarray(b[k]))]
        require(not unlike, "row %d of child %d differs from the same row of the child alone in %s", u, owner[u], unlike)
        order.append(owner[u])
    shapes = {tuple(r["board_size"][0]) for r in single.values()}
    if len(shapes) == 1 or d["fixed"]:
        judge_order(order, sizes, integer_weights(d["weights"]), d["sync"])
        ctx.label("order judged")
    elif not d["sync"]:
        require(seen == set(single), "%d rows are missing", len(set(single) - seen))
    ctx.nontrivial(sum(s >= 2 for s in sizes) >= 2)


# ---------------------------------------------------------------- random-access composites and refused ones

def map_case(draw):
    kind = draw(st.sampled_from("PR"))
    n = draw(st.integers(1, 3))
    worlds = [draw_world(draw, kinds=kind, max_rows=8, max_files=2, foreign=False, uniform=True) for _ in range(n)]
    base = 0
    for w in worlds:
        w["uid0"] = base
        base += sum(f["n"] for f in w["files"])
        for f in w["files"]:
            f["bs"] = worlds[0]["files"][0]["bs"]
        w["admit"] = worlds[0]["admit"]
    return dict(worlds=worlds, kind=kind, batch=draw(st.integers(1, 5)), seed=draw(st.integers(0, 99)), fixed_side=draw(st.booleans()))


def check_map(case, ctx):
    worlds = [World(w, os.path.join(ctx.tmp, "w%d" % i)) for i, w in enumerate(case["worlds"])]
    t = MAP_TYPES[case["kind"]]
    boards = worlds[0].options()["boardsizes"]
    children = {"m%d" % i: dict(dataset_type=t, data_paths=list(w.paths)) for i, w in enumerate(worlds)}
    ds = build_dataset("multi", [], dataset_dict=children, boardsizes=boards, fixed_side_input=case["fixed_side"],
                       runtime_context=context("validate", case["seed"], case["batch"]))
    require(children == {"m%d" % i: dict(dataset_type=t, data_paths=list(w.paths)) for i, w in enumerate(worlds)}, "the configuration was changed")
    want = [r.uid for w in worlds for r in w.records]
    got = []
    for env in ds:
        b = Batch(env)
        got += [u for u, m in zip(worlds[0].tags(b.data), b.mask) if m]
    require(got == want, "rows %s instead of %s", got, want)
    ctx.nontrivial(len(worlds) > 1)


def refused_case(draw):
    c = cases(draw)
    c["bad"] = draw(st.sampled_from(["zero", "negative", "nan", "inf", "file twice", "structure", "pipelines", "type", "empty"]))
    return c


def check_refused(case, ctx):
    d = case["data"]
    built = Built(d, ctx.tmp)
    bad = case["bad"]
    w0, w1 = built.worlds[0], built.worlds[-1]
    child = dict(dataset_type=d["types"][0], data_paths=list(w0.paths), blend_ratio=1)
    other = dict(dataset_type=d["types"][-1], data_paths=list(w1.paths), blend_ratio=1)
    children = {"a": child, "b": other}
    if len(built.worlds) == 1 and bad != "empty":
        if len(w0.paths) < 2:
            raise Reject("one file")
        child["data_paths"], other["data_paths"] = w0.paths[:1], w0.paths[1:]
    if bad in ("zero", "negative", "nan", "inf"):
        other["blend_ratio"] = {"zero": 0, "negative": -1.0, "nan": float("nan"), "inf": float("inf")}[bad]
    elif bad == "file twice":
        if w0.kind != w1.kind:
            raise Reject("different kinds")
        link = os.path.join(ctx.tmp, "again" + os.path.splitext(w0.paths[0])[1])
        os.symlink(w0.paths[0], link)
        other["data_paths"] = other["data_paths"] + [link]
    elif bad == "structure":
        key = "drop_extra" if w1.kind in "SBK" else "has_pass_move"
        other[key] = True
    elif bad == "pipelines":
        other["pipeline_args"] = {"forbidden_point": {}}
    elif bad == "type":
        other["dataset_type"] = "no_such_type"
    elif bad == "empty":
        children = {}
    try:
        ds = build_dataset("iterative_multi", [], dataset_dict=children, boardsizes=[tuple(b) for w in d["worlds"] for b in w["admit"]], shuffle=d["shuffle"],
                           runtime_context=context("train", case["seed"], 1))
        for env in ds:
            break
    except (ValueError, TypeError, RuntimeError) as exc:
        require("no global batch" not in str(exc), "a composite with %s is reported as empty", bad)
    else:
        require(False, "a composite with %s is accepted", bad)
    ctx.nontrivial(True)
    ctx.label(bad)


CAMPAIGNS = [
    Campaign("source", lambda: st.composite(cases)(), check_source, 500, shards=4),
    Campaign("content", lambda: st.composite(lambda d: cases(d, d(st.booleans())))(), check_content, 250, shards=2),
    Campaign("map", lambda: st.composite(map_case)(), check_map, 80, shards=1),
    Campaign("refused", lambda: st.composite(refused_case)(), check_refused, 150, shards=1),
]
