"""C01: the bounded shuffle is an exact-once, bounded, seeded permutation."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from dataset.packed import PackedRecordBlock, PackedUInt64ShuffleReservoir
from dataset.shuffle import StreamingShuffleReservoir
from vlib.api import Campaign, require

RULE = ("A case is a reservoir configuration plus a history of offer/offer_many/offer_zero_sized/save/restore/drain "
        "operations (or a block history for the native reservoir). Non-trivial: at least one record was evicted "
        "before the drain, or a saved state was restored after further records.")
ASSUMPTIONS = ["record sizes are those passed at the offer", "reservoirs of at most ~300 records"]
BUDGET = {"quick": 45, "thorough": 900}

SEEDS = st.one_of(st.integers(0, 50), st.integers(-(1 << 63), (1 << 63) - 1))
KEYS = st.sampled_from([(), ("a",), ("a", 1), (0,), (1, "b", None)])


def histories(draw):
    max_bytes = draw(st.one_of(st.none(), st.integers(1, 200)))
    size = st.integers(0, max_bytes if max_bytes is not None else 100)
    if max_bytes is not None:
        size = st.one_of(size, st.integers(0, max(1, max_bytes // 4)))
    op = st.one_of(
        st.tuples(st.just("offer"), size),
        st.tuples(st.just("many"), st.lists(size, max_size=12)),
        st.tuples(st.just("zero"), st.integers(0, 20)),
        st.tuples(st.just("save"), st.just(0)),
        st.tuples(st.just("restore"), st.integers(0, 5)),
        st.tuples(st.just("oversize"), st.integers(0, 4)),
    )
    return dict(
        capacity=draw(st.one_of(st.integers(1, 8), st.integers(1, 64))), max_bytes=max_bytes,
        seed=draw(SEEDS), epoch=draw(st.integers(0, 5)), key=list(draw(KEYS)),
        ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=40))],
    )


def make(case):
    return StreamingShuffleReservoir(case["capacity"], seed=case["seed"], epoch=case["epoch"],
                                     stream_key=tuple(case["key"]), max_bytes=case["max_bytes"])


def check_history(case, ctx):
    r = make(case)
    cap, mb = case["capacity"], case["max_bytes"]
    next_id = 0
    offered, emitted, held = [], [], {}     # history on the current path
    saved = []
    restored_after_more = False

    def accept(out, incoming):
        for x, s in incoming:
            offered.append((x, s))
            held[x] = s
        for x in out:
            require(x in held, "record %r emitted although it is not held (duplicate or invented)", x)
            del held[x]
            emitted.append(x)

    def bounds():
        require(len(r) == len(held), "occupancy %d but %d records were offered and not emitted", len(r), len(held))
        require(len(r) <= cap, "holds %d records, capacity %d", len(r), cap)
        total = sum(held.values())
        require(r.resident_bytes == total, "resident bytes %d, held records total %d", r.resident_bytes, total)
        if mb is not None:
            require(total <= mb, "holds %d bytes, limit %d", total, mb)
        s = r.stats
        require((s.offered, s.emitted, s.occupancy, s.resident_bytes) ==
                (len(offered), len(emitted), len(held), total), "stats disagree with the history: %r", s)
        require(s.peak_occupancy <= cap and s.peak_occupancy >= len(held), "peak occupancy %r", s)
        if mb is not None:
            require(s.peak_resident_bytes <= mb, "peak bytes %r over the limit %d", s, mb)

    for op, arg in case["ops"]:
        if op == "offer":
            x = next_id
            next_id += 1
            accept(r.offer(x, size_bytes=arg), [(x, arg)])
        elif op == "many":
            items = [(next_id + i, s) for i, s in enumerate(arg)]
            next_id += len(arg)
            accept(r.offer_many(items), items)
        elif op == "zero":
            items = [(next_id + i, 0) for i in range(arg)]
            next_id += arg
            accept(r.offer_zero_sized([x for x, _ in items]), items)
        elif op == "oversize":
            if mb is None:
                continue
            before = r.state()
            for call in (lambda: r.offer(-1, size_bytes=mb + 1),
                         lambda: r.offer_many([(-2 - i, 0) for i in range(arg)] + [(-1, mb + 1)])):
                try:
                    call()
                except ValueError:
                    pass
                else:
                    require(False, "a record larger than the byte limit was accepted")
            require(r.state() == before, "a refused record changed the state")
        elif op == "save":
            saved.append((r.state(), list(offered), list(emitted), dict(held)))
        elif op == "restore" and saved:
            state, o, e, h = saved[arg % len(saved)]
            restored_after_more |= len(o) < len(offered)
            offered, emitted, held = list(o), list(e), dict(h)
            r = make(case)
            r.restore(state)
        bounds()
    before_drain = len(emitted)
    state, o, e, h = r.state(), list(offered), list(emitted), dict(held)
    accept(r.drain(), [])
    require(not held, "%d records were never emitted", len(held))
    bounds()
    require(sorted(emitted) == sorted(x for x, _ in offered), "emitted records differ from offered records")
    require(r.drain() == (), "a second drain emitted records")
    try:
        r.offer(10 ** 9)
    except RuntimeError:
        pass
    else:
        require(False, "an offer after the drain was accepted")
    # Same path, offered one by one in a fresh reservoir: identical output.
    ref = make(case)
    out = []
    for x, s in offered:
        out.extend(ref.offer(x, size_bytes=s))
    require(len(out) == before_drain, "one-by-one offers evicted %d records, the history %d", len(out), before_drain)
    out.extend(ref.drain())
    require(out == emitted, "order depends on grouping or on save/restore: %r vs %r", out, emitted)
    # As one group.
    ref = make(case)
    out = list(ref.offer_many(offered)) + list(ref.drain())
    require(out == emitted, "order of one group differs: %r vs %r", out, emitted)
    # A restored state at the end drains identically.
    ref = make(case)
    ref.restore(state)
    require(list(ref.drain()) == emitted[before_drain:], "drain after restore differs")
    ctx.label("evicted", before_drain > 0)
    ctx.label("restored after more", restored_after_more)
    ctx.label("byte limit", mb is not None)
    ctx.nontrivial(before_drain > 0 or restored_after_more)


def native_histories(draw):
    op = st.one_of(
        st.tuples(st.just("block"), st.integers(0, 60)),
        st.tuples(st.just("save"), st.just(0)),
        st.tuples(st.just("restore"), st.integers(0, 5)),
    )
    return dict(capacity=draw(st.one_of(st.integers(1, 8), st.integers(1, 300))), seed=draw(SEEDS),
                epoch=draw(st.integers(0, 5)), key=list(draw(KEYS)), base=draw(st.sampled_from([0, 5, 1 << 32, (1 << 64) - 5000])),
                ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=25))])


def check_native(case, ctx):
    def mk():
        return PackedUInt64ShuffleReservoir(case["capacity"], seed=case["seed"], epoch=case["epoch"],
                                            stream_key=tuple(case["key"]))

    r = mk()
    n = 0
    offered, emitted, saved = [], [], []
    more = False

    def ids(k):
        nonlocal n
        out = [(case["base"] + i) % (1 << 64) for i in range(n, n + k)]
        n += k
        return out

    for op, arg in case["ops"]:
        if op == "block":
            block = ids(arg)
            out = r.offer_block(PackedRecordBlock(np.array(block, dtype=np.uint64)))
            offered += block
            emitted += [int(x) for x in out]
        elif op == "save":
            saved.append((r.state(), list(offered), list(emitted)))
        elif op == "restore" and saved:
            state, o, e = saved[arg % len(saved)]
            more |= len(o) < len(offered)
            offered, emitted = list(o), list(e)
            r = mk()
            r.restore(state)
        require(len(r) == len(offered) - len(emitted), "occupancy %d, expected %d", len(r), len(offered) - len(emitted))
        require(len(r) <= case["capacity"], "holds %d records, capacity %d", len(r), case["capacity"])
    before = len(emitted)
    emitted += [int(x) for x in r.drain()]
    require(sorted(emitted) == sorted(offered), "native reservoir lost, duplicated or invented records")
    ref = StreamingShuffleReservoir(case["capacity"], seed=case["seed"], epoch=case["epoch"], stream_key=tuple(case["key"]))
    out = list(ref.offer_zero_sized(offered)) + list(ref.drain())
    require(out == emitted, "native order differs from the Python order: %r vs %r", emitted, out)
    ref = mk()
    out = [int(x) for x in ref.offer_block(PackedRecordBlock(np.array(offered, dtype=np.uint64)))] + [int(x) for x in ref.drain()]
    require(out == emitted, "native order depends on block boundaries or save/restore")
    ctx.label("evicted", before > 0)
    ctx.label("restored after more", more)
    ctx.nontrivial(before > 0 or more)


def order_cases(draw):
    capacity = draw(st.integers(20, 60))
    return dict(capacity=capacity, n=capacity + draw(st.integers(25, 150)), seed=draw(SEEDS),
                epoch=draw(st.integers(0, 5)), native=draw(st.booleans()),
                change=draw(st.sampled_from(["seed", "epoch", "key"])), delta=draw(st.integers(1, 1000)))


def run_order(case):
    key = tuple(case.get("key", ()))
    if case["native"]:
        r = PackedUInt64ShuffleReservoir(case["capacity"], seed=case["seed"], epoch=case["epoch"], stream_key=key)
        out = r.offer_block(PackedRecordBlock(np.arange(case["n"], dtype=np.uint64))).tolist()
        return out, r.drain().tolist()
    r = StreamingShuffleReservoir(case["capacity"], seed=case["seed"], epoch=case["epoch"], stream_key=key)
    out = list(r.offer_many((i, 0) for i in range(case["n"])))
    return out, list(r.drain())


def check_order(case, ctx):
    a, da = run_order(case)
    other = dict(case)
    if case["change"] == "seed":
        other["seed"] = case["seed"] + case["delta"] if case["seed"] < 0 else case["seed"] - case["delta"]
    elif case["change"] == "epoch":
        other["epoch"] = case["epoch"] + case["delta"]
    else:
        other["key"] = ("k", case["delta"])
    b, db = run_order(other)
    # Chance agreement of two independent orders of this size is below 1e-15.
    require(a != b, "evictions do not depend on the %s", case["change"])
    require(da != db, "drain order does not depend on the %s", case["change"])
    require(a + da != list(range(case["n"])), "output order equals input order")
    same, dsame = run_order(dict(case))
    require((same, dsame) == (a, da), "same configuration, different order")
    ctx.nontrivial()


def check_uniform(case, ctx):
    """Every eviction and drain position is uniform over seeds (fixed seeds, 7-sigma bounds)."""
    n, cap, trials = case["n"], case["capacity"], case["trials"]
    first = np.zeros(n)
    table = np.zeros((n, n))
    for t in range(trials):
        out, rest = run_order(dict(capacity=cap, n=n, seed=case["seed0"] + t, epoch=t % 3, native=case["native"]))
        full = out + rest
        first[full[0]] += 1
        for pos, x in enumerate(full):
            table[x, pos] += 1
    # first output: the eviction that admits record `cap`, uniform over the first `cap` records
    pool = cap if cap < n else n
    exp = trials / pool
    sig = (trials * (1 / pool) * (1 - 1 / pool)) ** 0.5
    require(abs(first[:pool] - exp).max() < 7 * sig + 1, "first output is biased: %r (expected %.1f each)", first.tolist(), exp)
    if cap >= n:
        require(abs(table - exp).max() < 7 * sig + 1, "drain positions are biased:\n%r", table)
    else:
        # stationary slots: a record admitted at i >= cap is evicted by the very next draw with probability 1/cap
        nxt = np.array([table[i, i - cap + 1] for i in range(cap, n - 1)])
        require(abs(nxt - exp).max(initial=0) < 7 * sig + 1, "eviction of a fresh record is biased: %r", nxt.tolist())
    ctx.nontrivial()


def uniform_cases():
    return [dict(n=n, capacity=c, trials=600, seed0=s, native=nat)
            for n, c, s in [(5, 5, 0), (7, 20, 1000), (12, 4, 2000), (10, 3, -5000)] for nat in (False, True)]


def check_process(case, ctx):
    """The same order in a process with another hash seed."""
    code = ("import sys, json; sys.path[:0] = json.loads(sys.argv[1]); import checks.c01 as m; "
            "print(json.dumps(m.run_order(json.loads(sys.argv[2]))))")
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
    r = subprocess.run([sys.executable, "-c", code, json.dumps(sys.path), json.dumps(case)], env=env,
                       capture_output=True, text=True)
    require(r.returncode == 0, "subprocess failed: %s", r.stderr[-1500:])
    got = json.loads(r.stdout)
    require([list(x) for x in run_order(case)] == got, "order differs in another process")
    ctx.nontrivial()


CAMPAIGNS = [
    Campaign("history", lambda: st.composite(histories)(), check_history, quick=2600, shards=4),
    Campaign("native", lambda: st.composite(native_histories)(), check_native, quick=1600, shards=4),
    Campaign("order", lambda: st.composite(order_cases)(), check_order, quick=400, shards=2),
    Campaign("uniform", lambda: st.fixed_dictionaries(dict(
        n=st.integers(2, 8), capacity=st.integers(1, 10), trials=st.just(300), seed0=st.integers(0, 10 ** 6),
        native=st.booleans())), check_uniform, quick=24, shards=2, exhaustive=uniform_cases),
    Campaign("process", lambda: st.fixed_dictionaries(dict(
        capacity=st.integers(1, 30), n=st.integers(1, 100), seed=SEEDS, epoch=st.integers(0, 3),
        native=st.booleans(), hashseed=st.integers(1, 1000), key=st.just(["x", 1]))), check_process, quick=2, thorough=8, shards=1),
]
