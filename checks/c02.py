"""C02: an epoch covers every admitted record once."""
from collections import Counter

from hypothesis import strategies as st

from dataset import build_dataset
from dataset.core import sample_is_admitted
from vlib import planref
from vlib.api import Campaign, require
from vlib.data import KIND_TYPES, MAP_TYPES, SEQUENTIAL, Batch, Reader, World, context, draw_world

RULE = ("A case is a set of dataset files whose records carry identities, a dataset type and its options. Non-trivial: at "
        "least two full batches or a padded batch were delivered, and the records do not simply fill the batches.")
ASSUMPTIONS = ["files of at most 24 rows on boards 5..9, in one campaign up to 2700 rows and 24 files", "one process; other world sizes are C05",
               "sampling admission is compared with the function decided by C10"]
BUDGET = {"quick": 50, "thorough": 900}


def cases(draw, kinds="PRSBK", train=None):
    spec = draw_world(draw, kinds=kinds, max_rows=draw(st.sampled_from([6, 14, 24, 24])))
    kind = spec["kind"]
    if kind in SEQUENTIAL:
        spec["lz4"] = draw(st.booleans())
    if kind == "R" and draw(st.booleans()):     # boards of several logical sizes in planes of one size
        n = spec["files"][0]["bs"][0]
        for f in spec["files"]:
            f["bs"] = [n, n]
        spec.update(logical=True, admit=[[n, n], [n, n - 1], [n - 1, n - 1]])
    train = draw(st.booleans()) if train is None else train
    case = dict(world=spec, type=draw(st.sampled_from(KIND_TYPES[kind])), train=train,
                batch=draw(st.integers(1, 6)), shuffle=draw(st.booleans()), seed=draw(st.integers(0, 1000)),
                window=draw(st.sampled_from([1, 2, 5, 16, 32768])), epochs=draw(st.integers(1, 3)),
                steps=draw(st.one_of(st.none(), st.integers(1, 6))) if train else None,
                rate=draw(st.sampled_from([1.0] * 7 + [0.5, 0.5, 0.1, 0.0])),
                fixed=draw(st.sampled_from([None, None, 8, 9])), bytes=draw(st.sampled_from([None, None, 200, 4096])))
    if kind in SEQUENTIAL:
        case["streams"] = draw(st.integers(1, 4))
        case["quantum"] = draw(st.sampled_from([1, 2, 3, 256]))
        case["bytes"] = draw(st.sampled_from([None, 4096, 1 << 20]))
    if case["type"].startswith("batched"):
        case["threads"] = draw(st.integers(0, 3))
        case["prefetch"] = draw(st.integers(1, 6))
    return case


def options(case, world):
    o = dict(world.options(), shuffle=case["shuffle"], shuffle_window_size=case["window"],
             shuffle_buffer_bytes=case["bytes"], sample_rate=case["rate"])
    if case["fixed"]:
        o["fixed_board_size"] = case["fixed"]
    if case["steps"]:
        o["steps_per_epoch"] = case["steps"]
    if "streams" in case:
        o.update(sequential_active_streams=case["streams"], sequential_read_quantum=case["quantum"])
    if "threads" in case:
        o.update(prefetch_threads=case["threads"], prefetch_batches=case["prefetch"], pin_memory=False)
    return o


def record_keys(case, world):
    """uid -> sample key, from an unsampled one-row evaluation pass over the same files."""
    o = options(dict(case, rate=1.0, steps=None, shuffle=False), world)
    ds = build_dataset(case["type"], world.paths, runtime_context=context("validate", case["seed"], 1), **o)
    out = {}
    for env in ds:
        b = Batch(env)
        out[world.tags(b.data)[0]] = b.keys[0]
    return out


def check_epoch(case, world, batches, records, ordered, error):
    """One epoch's deliveries against the admitted records [(uid, shape, file)]."""
    B, train, steps = case["batch"], case["train"], case["steps"]
    counts = Counter(r[1] for r in records)
    full = sum(c // B for c in counts.values())
    expected_n = full if train else sum(-(-c // B) for c in counts.values())
    if train and steps:
        expected_n = min(expected_n, steps)
    if expected_n == 0:
        require(error is not None, "no batch can be made (%d records) but the epoch ended normally", len(records))
        return
    require(error is None, "epoch failed: %s", error)
    info = {r[0]: r for r in records}
    real, seen_shapes = [], []
    for i, b in enumerate(batches):
        tags = world.tags(b.data)
        require(len(tags) == B and len(b.mask) == B and len(b.keys) == B, "batch %d has %d rows, mask %d, keys %d; expected %d",
                i, len(tags), len(b.mask), len(b.keys), B)
        rows = [t for t, m in zip(tags, b.mask) if m]
        require(all(t in info for t in tags), lambda: f"batch {i} delivers rows that are not admitted records: {tags}")
        shapes = {info[t][1] for t in tags}
        require(len(shapes) == 1, "batch %d mixes board shapes %s", i, sorted(shapes))
        if train:
            require(all(b.mask), "training batch %d has padding rows", i)
        else:
            require(bool(b.mask[0]) and all(b.mask[j] or not any(b.mask[j:]) for j in range(B)),
                    "real rows of batch %d do not come first: %s", i, b.mask.tolist())
            require(all(t in rows for t in tags), "padding rows of batch %d are not copies of its real rows", i)
        require(b.last == (i == len(batches) - 1), "batch %d of %d has is_last=%s", i, len(batches), b.last)
        real += rows
        seen_shapes.append(shapes.pop())
    dup = [t for t, c in Counter(real).items() if c > 1]
    require(not dup, "records delivered more than once in the epoch: %s", dup)
    require(len(batches) == expected_n, "%d batches delivered, expected %d (records per shape %s, batch %d, steps %s)",
            len(batches), expected_n, dict(counts), B, steps)
    if not train:
        require(set(real) == set(info), "evaluation missed records %s", sorted(set(info) - set(real)))
    elif not steps or full <= steps:
        per = Counter(seen_shapes)
        for shape, c in counts.items():
            require(per[shape] == c // B, "shape %s: %d batches of %d from %d records", shape, per[shape], B, c)
    if ordered == "exact":
        ref = planref.plan([(r[0], r[1]) for r in records], B, train, steps)
        got = [world.tags(b.data) for b in batches]
        require(got == [u for u, _ in ref], lambda: f"order differs from the source order: got {got}, expected {[u for u, _ in ref]}")
        require([b.mask.tolist() for b in batches] == [m for _, m in ref], "real-row masks differ from the plan")
    elif ordered == "per-file":
        last = {}
        for t in real:
            k = info[t][1:]
            require(last.get(k, -1) < t, "records of one file and shape are out of order: %d after %d", t, last.get(k, -1))
            last[k] = t


def check_stream(case, ctx):
    world = World(case["world"], ctx.tmp)
    fixed = (case["fixed"],) * 2 if case["fixed"] else None
    all_records = [(r.uid, fixed or r.shape, r.file) for r in world.records]
    keys = record_keys(case, world) if case["rate"] < 1 else None
    ds = build_dataset(case["type"], world.paths, runtime_context=context(
        "train" if case["train"] else "validate", case["seed"], case["batch"]), **options(case, world))
    reader = Reader(ds)
    ordered = None
    if not case["shuffle"]:
        ordered = "per-file" if case.get("streams", 1) > 1 else "exact"
    orders = []
    for epoch in range(case["epochs"]):
        records = all_records
        if keys is not None:
            records = [r for r in records if sample_is_admitted(case["rate"], case["seed"], epoch if case["train"] else 0, keys[r[0]])]
        error, batches = None, []
        try:
            batches = reader.epoch(commit=case["train"])
        except RuntimeError as exc:
            if "produced no global batch" not in str(exc):
                raise
            error = str(exc)
        check_epoch(case, world, batches, records, ordered, error)
        order = [t for b in batches for t in world.tags(b.data)]
        if case["shuffle"] and case["window"] > 100 and case["bytes"] is None and case["rate"] == 1.0 and len(order) >= 14:
            # 14 records in the same random order twice: probability below 1e-10
            require(order != sorted(order), "a shuffled epoch delivers the records in source order")
            require(not case["train"] or order not in orders, "two epochs deliver the same shuffled order")
            orders.append(order)
            ctx.label("reshuffled", epoch > 0)
        for b in batches:
            want = epoch if case["train"] else 0         # evaluation passes all read epoch 0
            require(b.epoch == want, "batch of epoch %d is labelled epoch %d", want, b.epoch)
        counts = Counter(r[1] for r in records)
        ctx.nontrivial(len(batches) > 1 and any(c % case["batch"] for c in counts.values()))
        ctx.label("shapes>1", len(counts) > 1)
        ctx.label("empty epoch", error is not None)
        if error is not None:
            break
    ctx.label(case["type"])
    ctx.label("train" if case["train"] else "eval")
    ctx.label("shuffle", case["shuffle"])
    ctx.label("steps", case["steps"] is not None)
    ctx.label("rate<1", case["rate"] < 1)


def map_cases(draw):
    kind = draw(st.sampled_from("PR"))
    spec = draw_world(draw, kinds=kind, max_rows=20, mixed=False)
    if kind == "R":          # boards of several logical sizes in planes of one size
        spec["logical"] = draw(st.booleans())
        if spec["logical"]:
            n = spec["files"][0]["bs"][0]
            spec["admit"] = [[n, n], [n, n - 1], [n - 1, n - 1]]
    return dict(world=spec, type=MAP_TYPES[kind], train=False, batch=draw(st.integers(1, 9)), steps=None,
                fixed=draw(st.sampled_from([None, None, 8])), seed=draw(st.integers(0, 9)), passes=draw(st.integers(1, 2)))


def check_map(case, ctx):
    world = World(case["world"], ctx.tmp)
    fixed = (case["fixed"],) * 2 if case["fixed"] else None
    o = world.options()
    if fixed:
        o["fixed_board_size"] = case["fixed"]
    ds = build_dataset(case["type"], world.paths, runtime_context=context("test", case["seed"], case["batch"]), **o)
    for _ in range(case["passes"]):
        batches = [Batch(env) for env in ds]
        records = [(r.uid, fixed or r.shape, r.file) for r in world.records]
        check_epoch(case, world, batches, records, "per-shape", None)
        # source order within each shape
        for shape in {r[1] for r in records}:
            want = [r[0] for r in records if r[1] == shape]
            got = [t for b in batches for t, m in zip(world.tags(b.data), b.mask) if m and t in set(want)]
            require(got == want, "shape %s is delivered as %s, expected %s", shape, got, want)
    ctx.nontrivial(len(batches) > 1 and len(records) % case["batch"] != 0)
    ctx.label(case["type"])


def large_cases(draw):
    """More records than the planner's internal chunks (1024) and more files than the decoder caches."""
    kind = draw(st.sampled_from("PPRSB"))
    many = draw(st.booleans())
    bs = draw(st.integers(7, 8)) if kind == "B" else 5
    two = draw(st.booleans())
    files = [dict(bs=[bs + (two and draw(st.booleans()))] * 2, n=draw(st.integers(1, 40) if many else st.integers(300, 900)),
                  comp=draw(st.booleans())) for _ in range(draw(st.integers(8, 24) if many else st.integers(1, 3)))]
    train = draw(st.booleans())
    case = dict(world=dict(kind=kind, files=files, admit=[[bs, bs], [bs + 1, bs + 1]], seed=draw(st.integers(0, 1 << 20))),
                type=draw(st.sampled_from(KIND_TYPES[kind])), train=train, batch=draw(st.integers(3, 200)),
                shuffle=draw(st.booleans()), seed=draw(st.integers(0, 1000)), window=draw(st.sampled_from([1, 50, 1500, 32768])),
                epochs=2, steps=None, rate=draw(st.sampled_from([1.0, 1.0, 0.7])), fixed=None, bytes=None)
    if kind in SEQUENTIAL:
        case["streams"], case["quantum"] = draw(st.integers(1, 4)), draw(st.sampled_from([1, 7, 256]))
    if case["type"].startswith("batched"):
        case["threads"], case["prefetch"] = draw(st.integers(0, 3)), draw(st.integers(1, 8))
    return case


CAMPAIGNS = [
    Campaign("large", lambda: st.composite(large_cases)(), check_stream, 60, shards=2),
    Campaign("train", lambda: st.composite(lambda draw: cases(draw, train=True))(), check_stream, 2000, shards=4),
    Campaign("eval", lambda: st.composite(lambda draw: cases(draw, train=False))(), check_stream, 1000, shards=2),
    Campaign("map", lambda: st.composite(map_cases)(), check_map, 400, shards=2),
]
