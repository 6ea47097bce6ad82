"""C31: pipeline metrics are exact and tuning stays inside its limits."""
import copy
import glob
import json
import math
import os
from fractions import Fraction

import torch
from hypothesis import strategies as st

from checks.c04 import world
from vlib import keops, runs, train
from vlib.api import Campaign, Reject, require
from vlib.data import Built, Consumer, context

RULE = ("A case is (control) a tuner configuration with a history of measurements, restores and restarts, (metrics) a data set read in intervals with "
        "snapshots in between, (latencies) measured durations and snapshots of several ranks, or (runs) a training run with tuning, interrupted once. Non-trivial: at "
        "least two tuning decisions, two intervals with rows, or a decision that reached a log and a checkpoint.")
ASSUMPTIONS = ["CPU only: measurements of CUDA copies are fed to the counters directly", "no clock is trusted: the values of durations are only checked where the case gives them"]
BUDGET = {"quick": 50, "thorough": 700}
NAMES = {"prefetch_threads": "workers", "prefetch_batches": "read-ahead", "cache_entries": "cache", "cache_bytes": "cache"}


# ------------------------------------------------------------------------------------------- the controller

def draw_config(draw):
    return dict(reuse=draw(st.sampled_from(["off", "exact", "compatible"])), warmup_iterations=draw(st.sampled_from([0, 0, 3, 10])),
                verify_iterations=draw(st.sampled_from([0, 2, 6])), decision_interval=draw(st.integers(1, 6)), freeze_after=draw(st.sampled_from([1, 5, 20, 10000])),
                target_producer_headroom=draw(st.sampled_from([1.0, 1.5, 3.0])), max_data_wait_fraction=draw(st.sampled_from([0.0, 0.02, 0.5, 1.0])),
                max_prefetch_threads=draw(st.integers(1, 6)), max_prefetch_batches=draw(st.integers(1, 40)),
                host_cache_budget_bytes=draw(st.sampled_from([1, 1000, 1 << 27, 1 << 29, 1 << 31])), respect_explicit=True)


def draw_metrics(draw):
    return dict(producer_headroom=draw(st.sampled_from([0.0, 0.9, 1.0, 1.4, 1.5, 1.6, 3.0, 5.9, 6.0, 50.0])), data_wait_fraction=draw(st.sampled_from([0.0, 0.0, 0.01, 0.02, 0.03, 0.6, 2.0])),
                depth=draw(st.sampled_from([0.0, 0.5, 0.69, 0.7, 0.9, 1.0])), reloads=draw(st.sampled_from([0.0, 0.0, 1.0, 5.0])))


@st.composite
def control(draw):
    ops, moving = [], draw(st.booleans())
    for _ in range(draw(st.integers(1, 30))):
        kind = draw(st.sampled_from(["step"] * 8 + ["restore", "restart", "other"]))
        ops.append([kind, draw(st.integers(0, 4)), draw_metrics(draw)] if kind == "step" else [kind])
    health = draw(st.sampled_from([None, None, "good", "bad"]))
    for op in ops:
        if op[0] == "step" and health:
            op[2].update(producer_headroom=50.0 if health == "good" else 0.1, data_wait_fraction=0.0)
    return dict(config=draw_config(draw), ops=ops, lazy=moving, locked=sorted(draw(st.sets(st.sampled_from(["prefetch_threads", "prefetch_batches", "cache_bytes"]), max_size=2))),
                initial=[draw(st.integers(1, 6)), draw(st.integers(1, 40)), draw(st.integers(1, 8)), draw(st.sampled_from([1, 500, 1 << 27, 1 << 30]))])


def tuner(case, tmp, key="a", like="b", config=None):
    from dataset.telemetry import PipelineAutotuneConfig, PipelineAutotuner

    c = PipelineAutotuneConfig.parse(dict(config or case["config"], cache_dir=os.path.join(tmp, "profiles")))
    w, b, e, n = case["initial"]
    # an explicit value above its limit is refused when the data set is built
    w, b = min(w, c.max_prefetch_threads), min(b, c.max_prefetch_batches)
    return PipelineAutotuner(c, initial_workers=w, initial_prefetch_batches=b, initial_cache_entries=e, initial_cache_bytes=min(n, c.host_cache_budget_bytes),
                             exact_key=key * 64, compatible_key=like * 64, locked_options=case["locked"])


def within(settings, c):
    return (1 <= settings["prefetch_threads"] <= c["max_prefetch_threads"] and 1 <= settings["prefetch_batches"] <= c["max_prefetch_batches"]
            and settings["cache_entries"] >= 1 and 1 <= settings["cache_bytes"] <= c["host_cache_budget_bytes"])


def decided(case, before, after, metrics, iteration, key="decision"):
    """One tuning decision: before and after are states of the controller."""
    c, locked = case["config"], case["locked"]
    old, new = before["settings"], after["settings"]
    require(within(new, c), "at iteration %d the settings %r leave the limits %r", iteration, new, c, key="limits")
    changed = {NAMES[k] for k in old if old[k] != new[k]}
    require(len(changed) <= 1, "iteration %d changes %r at once", iteration, sorted(changed), key=key)
    require(all(old[k] == new[k] for k in locked), "iteration %d changes an explicit value: %r to %r", iteration, old, new, key="explicit")
    healthy = metrics["producer_headroom"] >= c["target_producer_headroom"] and metrics["data_wait_fraction"] <= c["max_data_wait_fraction"]
    for k in old:
        require(new[k] == old[k] or (new[k] < old[k]) == healthy, "iteration %d changes %s from %d to %d while the targets are %s", iteration, k, old[k], new[k],
                "met" if healthy else "missed", key=key)
    started = before["started_iteration"] if before["started_iteration"] is not None else iteration
    late = iteration - started >= c["freeze_after"]
    fresh = after["decisions"][len(before["decisions"]):]
    require(after["decisions"][:len(before["decisions"])] == before["decisions"], "a decision was rewritten at iteration %d", iteration, key="record")
    if changed:
        require(not after["frozen"], "iteration %d changes a setting and freezes", iteration, key=key)
        d = fresh[-1] if fresh else {}
        require(d.get("iteration") == iteration and d.get("before") == old and d.get("after") == new and d.get("reason"), "the change of iteration %d is recorded as %r", iteration, d,
                key="record")
    if after["frozen"]:
        require(healthy or late, "tuning freezes at iteration %d with the targets missed inside its window", iteration, key="freeze")
        require(any(d.get("iteration") == iteration and d.get("reason") for d in fresh), "freezing at iteration %d is not recorded", iteration, key="record")
    elif late and iteration > started:
        require(False, "tuning goes on at iteration %d, %d after its start, although its window is %d", iteration, iteration - started, c["freeze_after"], key="freeze")
    elif healthy:
        require(changed, "iteration %d meets the targets, nothing is changed and tuning does not freeze", iteration, key="freeze")
    else:
        able = [k for k, top in (("prefetch_threads", c["max_prefetch_threads"]), ("prefetch_batches", c["max_prefetch_batches"])) if k not in locked and old[k] < top]
        if metrics["cache/reloads"] and "cache_bytes" not in locked and old["cache_bytes"] < c["host_cache_budget_bytes"]:
            able.append("cache")
        require(bool(changed) == bool(able), "iteration %d misses the targets, %r could grow and %r changed", iteration, able, sorted(changed), key=key)
    return bool(changed)


def check_control(case, ctx):
    """Every decision of the controller is allowed; restored and restarted controllers go on as agreed."""
    c = case["config"]
    t = tuner(case, ctx.tmp)
    t.attach_run_dir(os.path.join(ctx.tmp, "run"))
    require(t.settings == t.requested_settings and t.reused is None, "a new controller starts with %r", t.settings, key="start")
    it, decisions, frozen = 0, 0, False
    for op in case["ops"]:
        before = copy.deepcopy(t.state_dict())
        if op[0] == "step":
            it += op[1] + (0 if case["lazy"] else 1)
            metrics = {"producer_headroom": op[2]["producer_headroom"], "data_wait_fraction": op[2]["data_wait_fraction"], "cache/reloads": op[2]["reloads"],
                       "prefetch/queue_depth_mean": op[2]["depth"] * before["settings"]["prefetch_batches"]}
            state = t.update(dict(metrics), it)
            after = copy.deepcopy(t.state_dict())
            started = before["started_iteration"] if before["started_iteration"] is not None else it
            wait = c["verify_iterations"] if before["reused"] is not None else c["warmup_iterations"]
            early = before["frozen"] or it - started < wait or (
                before["last_decision_iteration"] is not None and it - before["last_decision_iteration"] < c["decision_interval"])
            if early:
                require(state is None and after["settings"] == before["settings"] and after["decisions"] == before["decisions"] and after["frozen"] == before["frozen"],
                        "a decision at iteration %d is too early: %r", it, after, key="early")
            else:
                require(state == after, "the decision of iteration %d reports another state", it, key="record")
                if before["reused"] is not None:
                    healthy = op[2]["producer_headroom"] >= c["target_producer_headroom"] and op[2]["data_wait_fraction"] <= c["max_data_wait_fraction"]
                    require(after["frozen"] and after["settings"] == before["settings"] if healthy else after["reused"] is None,
                            "a reused profile that %s the targets ends as %r", "meets" if healthy else "misses", after, key="reuse")
                    if healthy:
                        frozen = True
                        continue
                decided(case, before, after, metrics, it)
                decisions += 1
            with open(os.path.join(ctx.tmp, "run", "pipeline_tuning.json")) as f:
                record = json.load(f)
            require(record["resolved"] == after["settings"] and record["frozen"] == after["frozen"] and record["decisions"] == json.loads(json.dumps(after["decisions"])),
                    "the run record after iteration %d is %r", it, record, key="record")
        elif op[0] == "restore":
            other = tuner(case, os.path.join(ctx.tmp, "elsewhere"))
            other.attach_run_dir(os.path.join(ctx.tmp, "run"))
            other.load_state_dict(json.loads(json.dumps(before)))
            require(other.state_dict() == before, "restored as %r instead of %r", other.state_dict(), before, key="restore")
            other.store = t.store
            t = other
        elif op[0] == "restart":
            restart(case, ctx, before, decisions)
        else:
            foreign(case, ctx, before)
        frozen |= t.frozen
    profiles = glob.glob(os.path.join(ctx.tmp, "profiles", "*"))
    require(len(profiles) == int(frozen), "frozen: %s, profiles: %r", frozen, profiles, key="profile")
    ctx.label("frozen", frozen)
    ctx.label("locked %d" % len(case["locked"]))
    ctx.nontrivial(decisions >= 2)


def restart(case, ctx, state, decisions):
    """A new run with the profiles left so far."""
    c = case["config"]
    for reuse in ("off", "exact", "compatible"):
        for key, like, fits in (("a", "b", reuse != "off"), ("c", "b", reuse == "compatible"), ("c", "d", False)):
            new = tuner(case, ctx.tmp, key, like, dict(c, reuse=reuse))
            require(within(new.settings, c), "a reused profile sets %r", new.settings, key="limits")
            if fits and state["frozen"]:
                want = dict(state["settings"], **{k: new.requested_settings[k] for k in case["locked"]})
                require(new.reused == ("exact" if key == "a" else "compatible") and new.settings == want, "the profile %r is reused (%s, %s) as %r", state["settings"], reuse, key,
                        new.settings, key="reuse")
            elif not fits:
                require(new.reused is None and new.settings == new.requested_settings, "a profile of another runtime is used: %r (%s)", new.settings, reuse, key="reuse")
            require(not new.frozen and not new.decisions, "a new run starts frozen", key="reuse")
        new = tuner(dict(case, locked=["cache_bytes", "prefetch_batches", "prefetch_threads"]), ctx.tmp, "a", "b", dict(c, reuse=reuse))
        require(all(new.settings[k] == new.requested_settings[k] for k in new.locked_options), "a reused profile changes explicit values: %r", new.settings, key="explicit")
    if state["frozen"]:
        path, = glob.glob(os.path.join(ctx.tmp, "profiles", "*"))
        with open(path, "rb") as f:
            data = f.read()
        with open(path, "wb") as f:
            f.write(data[:len(data) // 2])
        new = tuner(case, ctx.tmp, "a", "b", dict(c, reuse="compatible"))
        require(new.reused is None and new.settings == new.requested_settings, "a torn profile is used", key="reuse")
        with open(path, "wb") as f:
            f.write(data)
        ctx.label("profile reused")


def foreign(case, ctx, state):
    """A state of another runtime or form is refused and changes nothing."""
    t = tuner(case, os.path.join(ctx.tmp, "elsewhere"))
    start = copy.deepcopy(t.state_dict())
    bad = [dict(state, exact_key="f" * 64), dict(state, compatible_key="f" * 64), dict(state, schema="other"), dict(state, settings={"prefetch_threads": 2}), None]
    for s in bad:
        try:
            t.load_state_dict(s)
        except ValueError:
            require(t.state_dict() == start, "a refused state changed the controller", key="foreign")
            continue
        require(False, "the state %.100r is accepted", s, key="foreign")
    try:
        t.load_state_dict(dict(state, settings={k: v * 1000 for k, v in state["settings"].items()}))
    except ValueError:
        pass
    require(within(t.settings, case["config"]), "a restored state sets %r", t.settings, key="limits")


# ------------------------------------------------------------------------------------------- counters of the loader

@st.composite
def metrics(draw):
    d = dict(shuffle=draw(st.booleans()), window=draw(st.sampled_from([1, 4, 64])), rate=draw(st.sampled_from([1.0, 1.0, 0.7])), fixed=draw(st.sampled_from([None, 9])),
             fixed_side=False, worlds=[world(draw, comp=True)], types=["batched_processed_katago_numpy"], symmetry=draw(st.booleans()), bytes=None)
    tune = draw(st.booleans())
    return dict(data=d, batch=draw(st.integers(1, 4)), seed=draw(st.integers(0, 50)), threads=draw(st.integers(1 if tune else 0, 4)), prefetch=draw(st.integers(1, 12)),
                tunes=draw(st.lists(st.tuples(st.sampled_from([0.1, 9.0]), st.sampled_from([0.0, 0.5]), st.integers(0, 1)), max_size=4)), tune=dict(budget=draw(st.sampled_from([1, 3000, 20000, 1 << 30]))) if tune else None, cuts=draw(st.lists(st.integers(1, 5), min_size=1, max_size=5)),
                respect=draw(st.booleans()), limits=[draw(st.integers(1, 4)), draw(st.integers(1, 12))], loader=draw(st.booleans()))


def check_metrics(case, ctx):
    built = Built(case["data"], ctx.tmp)
    over = dict(threads=case["threads"], prefetch=case["prefetch"], observability=True)
    refused = False
    if case["tune"]:
        over["autotune"] = dict(cache_dir=os.path.join(ctx.tmp, "profiles"), host_cache_budget_bytes=case["tune"]["budget"], max_prefetch_threads=case["limits"][0],
                                max_prefetch_batches=case["limits"][1], respect_explicit=case["respect"], warmup_iterations=0, decision_interval=1)
        refused = case["respect"] and (case["threads"] > case["limits"][0] or case["prefetch"] > case["limits"][1])
    ds = built.build(context("train", case["seed"], case["batch"]), **over)
    try:
        c = Consumer(ds)
    except ValueError:
        require(refused, "explicit values within the limits are refused", key="explicit")
        return
    require(not refused, "explicit values above the tuner's limits are accepted", key="explicit")
    from dataset.telemetry import tensor_bytes
    from utils.training_utils import ObservedDeviceLoaderWrapper

    state = ds.pipeline_tuning_state_dict()
    if state:
        require(state["settings"]["prefetch_threads"] == min(case["threads"], case["limits"][0]) and state["settings"]["prefetch_batches"] == min(case["prefetch"], case["limits"][1]),
                "configured %d/%d, tuning starts with %r", case["threads"], case["prefetch"], state["settings"], key="start")
        require(state["settings"]["cache_bytes"] <= case["tune"]["budget"], "a cache of %d bytes", state["settings"]["cache_bytes"], key="limits")
    first = ds.pipeline_metrics_snapshot()
    require(first["manifest/files"] == len(built.worlds[0].paths) and first["manifest/rows"] == sum(1 for _ in built.worlds[0].records), "the manifest is said to have %d files, %d rows",
            first["manifest/files"], first["manifest/rows"], key="manifest")
    wrapped = ObservedDeviceLoaderWrapper(ds, torch.device("cpu"), ds.pipeline_stats) if case["loader"] else None
    it = iter(wrapped) if wrapped else None
    taken, snaps, done, rows, sizes, sent = 0, [first], False, 0, [], 0
    for n in case["cuts"] + [10 ** 6]:
        for _ in range(n):
            try:
                b = next(it) if wrapped else c.next()
            except RuntimeError as exc:
                if "produced no global batch" in str(exc):
                    raise Reject("no batch")
                raise
            real = int(torch.as_tensor(b.is_real).sum()) if wrapped else int(b.mask.sum())
            taken, rows = taken + 1, rows + real
            if wrapped:
                sent += tensor_bytes(b.data) + len(b.is_real)
            if (b.token.batch.is_last if hasattr(b.token, "batch") else b.token.is_last):
                done = True
                break
        if done:
            if wrapped:
                require(next(it, None) is None, "a batch after the last")
            else:
                c.it = None
        snaps.append(ds.pipeline_metrics_snapshot())
        total = {k: sum(s[k] for s in snaps) for k in snaps[0]}
        decoded = total["interval/decoded_batches"]
        ahead = 0 if case["threads"] == 0 else max(case["limits"][1], case["prefetch"]) if case["tune"] else case["prefetch"]
        require(taken <= decoded <= taken + ahead, "%d batches delivered, %d counted as decoded (%d read ahead)", taken, decoded, ahead, key="decoded")
        produced = sum(s["throughput/decoded_rows_s"] * s["interval/seconds"] for s in snaps)
        require(abs(produced - decoded * case["batch"]) < 1e-3 * max(1, produced), "%d batches decoded, %.3f rows counted", decoded, produced, key="rows")
        if case["threads"]:
            require(total["prefetch/completed_batches"] <= total["prefetch/submitted_batches"], "more batches completed than submitted", key="queue")
            require(taken <= total["prefetch/completed_batches"] + (0 if done else 1), "%d delivered, %d completed", taken, total["prefetch/completed_batches"], key="queue")
            require(snaps[-1]["prefetch/queue_depth_max"] <= ahead, "the queue held %d batches, the limit is %d", snaps[-1]["prefetch/queue_depth_max"], ahead, key="queue")
        if wrapped:
            require(total["interval/h2d_batches"] == taken and total["transfer/h2d_bytes"] == sent, "%d batches of %d bytes transferred, counted %d of %d", taken, sent,
                    total["interval/h2d_batches"], total["transfer/h2d_bytes"], key="transfer")
        last = snaps[-1]
        loads = total["cache/misses"] - total["cache/reloads"]
        if state:
            now = ds.pipeline_tuning_state_dict()["settings"]
            for k, name in (("prefetch/active_workers", "prefetch_threads"), ("prefetch/configured_batches", "prefetch_batches"), ("cache/capacity_entries", "cache_entries"),
                            ("cache/capacity_bytes", "cache_bytes")):
                require(last[k] == now[name], "%s is set to %d, %d is in force", name, now[name], last[k], key="in force")
        if not case["threads"] or done and case["threads"] == 1 and not state:      # nothing is loading at this moment
            require(total["cache/misses"] - total["cache/evictions"] == last["cache/resident_entries"], "%d loaded, %d evicted, %d resident", total["cache/misses"],
                    total["cache/evictions"], last["cache/resident_entries"], key="cache")
        require(loads <= len(built.worlds[0].paths), "%d first loads of %d files", loads, len(built.worlds[0].paths), key="cache")
        require(last["cache/resident_entries"] <= max(1, last["cache/capacity_entries"]), "too many resident files", key="cache")
        require(last["cache/resident_bytes"] <= last["cache/capacity_bytes"] or last["cache/resident_entries"] == 1, "%d bytes resident in %d entries, the limit is %d",
                last["cache/resident_bytes"], last["cache/resident_entries"], last["cache/capacity_bytes"], key="cache")
        sizes.append(decoded)
        if done:
            break
        if state and case["tunes"]:
            head, wait, reloads = case["tunes"][len(sizes) % len(case["tunes"])]
            ds.pipeline_tuning_update({"producer_headroom": head, "data_wait_fraction": wait, "cache/reloads": reloads, "prefetch/queue_depth_mean": 99.0}, len(sizes))
            ctx.label("tuned while reading")
    require(done and total["interval/decoded_batches"] == taken, "%d batches in the epoch, %d counted", taken, total["interval/decoded_batches"], key="decoded")
    if case["threads"]:
        require(total["prefetch/submitted_batches"] == total["prefetch/completed_batches"] == taken, "%d batches, %d submitted, %d completed", taken,
                total["prefetch/submitted_batches"], total["prefetch/completed_batches"], key="queue")
    idle = ds.pipeline_metrics_snapshot()
    keep = ("manifest/", "memory/", "interval/seconds", "prefetch/active", "prefetch/configured", "cache/resident", "cache/capacity")
    require(all(v == 0 for k, v in idle.items() if not k.startswith(keep)), "an idle interval reports %r", {k: v for k, v in idle.items() if v}, key="reset")
    ctx.label("workers %d" % case["threads"])
    ctx.label("tuned", bool(case["tune"]))
    ctx.nontrivial(len(set(sizes)) > 1)


# ------------------------------------------------------------------------------------------- durations and ranks

@st.composite
def latencies(draw):
    ns = st.one_of(st.integers(0, 20000), st.integers(0, 10 ** 7), st.integers(0, 3 * 10 ** 9), st.sampled_from([9999, 10000, 10001, 99999, 100000, 10 ** 9, 10 ** 9 + 1]))
    ranks = draw(st.integers(1, 4))
    return dict(ranks=[dict(decode=draw(st.lists(st.tuples(ns, st.integers(0, 64), st.integers(1, 8)), max_size=30)), wait=draw(st.lists(ns, max_size=30)), source=draw(st.lists(ns, max_size=40)),
                            h2d=draw(st.lists(st.tuples(ns, st.integers(0, 1 << 20)), max_size=20)), cuda=draw(st.lists(st.tuples(ns, ns), max_size=5)),
                            cache=draw(st.lists(st.tuples(st.sampled_from(["hit", "miss", "wait"]), ns, st.booleans(), st.integers(0, 3)), max_size=20)),
                            queue=draw(st.lists(st.integers(0, 40), max_size=20)), workers=draw(st.integers(1, 5)), batches=draw(st.integers(1, 40))) for _ in range(ranks)],
                speed=draw(st.sampled_from([0.5, 1.0, 13.25, 1000.0])), rows=draw(st.integers(1, 512)), twice=draw(st.booleans()))


def quantile(values, q=Fraction(95, 100)):
    return sorted(values)[max(1, math.ceil(len(values) * q)) - 1] if values else 0


def bounds(value, values, what):
    """A reported 95th percentile is not below the exact one, and at most 2.5 times as large."""
    true = quantile(values)
    ns = round(value * 1e6)
    require(true <= ns <= max(10000, 2.5 * true, max(values, default=0) if true > 10 ** 9 else 0) if values else ns == 0, "the 95th percentile of %s is %d, reported %d", what, true, ns, key="latency")


def feed(stats, r):
    for ns, rows, batches in r["decode"]:
        stats.record_decode(ns, rows, batches)
    for ns in r["wait"]:
        stats.record_prefetch_wait(ns)
    for ns in r["source"]:
        stats.record_source_wait(ns)
    for ns, size in r["h2d"]:
        stats.record_h2d(ns, size)
    for a, b in r["cuda"]:
        stats.record_cuda_prefetch(a / 1e6, b / 1e6)
    for kind, ns, reload, evictions in r["cache"]:
        stats.record_cache_access(kind, ns, reload=reload, evictions=evictions)
    for depth in r["queue"]:
        stats.record_queue(depth, submitted=1)


def close(a, b, what, tol=1e-9):
    require(abs(a - b) <= tol * max(1, abs(b)), "%s is %r, not %r", what, a, b, key="value")


def check_latencies(case, ctx):
    from dataset.telemetry import PipelineStats, aggregate_pipeline_snapshots

    snaps, stats = [], []
    for r in case["ranks"]:
        s = PipelineStats()
        if case["twice"]:       # an earlier interval leaves nothing behind
            feed(s, case["ranks"][0])
            s.snapshot(active_workers=1, prefetch_batches=1)
        feed(s, r)
        got = s.snapshot(active_workers=r["workers"], prefetch_batches=r["batches"], cache_state=dict(entries=3, bytes=7, capacity_entries=6, capacity_bytes=9))
        snaps.append(got)
        d = [ns for ns, _, _ in r["decode"]]
        mean = lambda v: sum(v) / max(1, len(v)) / 1e6
        for name, values in (("decode", d), ("prefetch_wait", r["wait"]), ("source_wait", r["source"])):
            close(got["latency/%s_mean_ms" % name], mean(values), name)
            bounds(got["latency/%s_p95_ms" % name], values, name)
        close(got["transfer/h2d_launch_mean_ms"], mean([a for a, _ in r["h2d"]]), "launch")
        bounds(got["transfer/h2d_launch_p95_ms"], [a for a, _ in r["h2d"]], "launch")
        close(got["transfer/h2d_device_mean_ms"], mean([a for a, _ in r["cuda"]]), "device")
        close(got["latency/cuda_prefetch_exposed_wait_mean_ms"], mean([b for _, b in r["cuda"]]), "exposed")
        bounds(got["latency/cuda_prefetch_exposed_wait_p95_ms"], [b for _, b in r["cuda"]], "exposed")
        rows = sum(n for _, n, _ in r["decode"])
        close(got["throughput/producer_capacity_rows_s"], rows * r["workers"] * 1e9 / max(1, sum(d)), "capacity")
        close(got["throughput/decoded_rows_s"] * got["interval/seconds"], rows, "decoded rows", 1e-6)
        kinds = {k: [c for c in r["cache"] if c[0] == k] for k in ("hit", "miss", "wait")}
        want = {"interval/decoded_batches": sum(b for _, _, b in r["decode"]), "transfer/h2d_bytes": sum(b for _, b in r["h2d"]), "interval/h2d_batches": len(r["h2d"]),
                "interval/cuda_prefetch_batches": len(r["cuda"]), "cache/hits": len(kinds["hit"]), "cache/misses": len(kinds["miss"]), "cache/waits": len(kinds["wait"]),
                "cache/reloads": sum(c[2] for c in kinds["miss"]), "cache/evictions": sum(c[3] for c in r["cache"]), "cache/hit_ratio": len(kinds["hit"]) / max(1, len(r["cache"])),
                "cache/load_mean_ms": mean([c[1] for c in kinds["miss"]]), "prefetch/queue_depth_mean": sum(r["queue"]) / max(1, len(r["queue"])),
                "prefetch/queue_depth_max": max(r["queue"], default=0), "prefetch/submitted_batches": len(r["queue"]), "prefetch/active_workers": r["workers"],
                "prefetch/configured_batches": r["batches"], "cache/resident_entries": 3, "cache/resident_bytes": 7, "cache/capacity_entries": 6, "cache/capacity_bytes": 9,
                "prefetch/starvation_ratio": sum(ns >= 100000 for ns in r["wait"]) / max(1, len(r["wait"]))}
        for k, v in want.items():
            close(got[k], v, k)
    got = aggregate_pipeline_snapshots(copy.deepcopy(snaps), consumer_batches_s=case["speed"], rows_per_batch=case["rows"])
    for k in snaps[0]:
        close(got[k], sum(s[k] for s in snaps) / len(snaps), "the mean of " + k)
    slowest = min(s["throughput/producer_capacity_rows_s"] for s in snaps)
    wait = max(s["latency/source_wait_p95_ms"] + (s["latency/cuda_prefetch_exposed_wait_p95_ms"] if r["cuda"] else s["transfer/h2d_launch_p95_ms"])
               for s, r in zip(snaps, case["ranks"]))
    for k, v in {"throughput/consumer_rows_s": case["speed"] * case["rows"], "producer_headroom": slowest / (case["speed"] * case["rows"]), "data_wait_fraction": wait * case["speed"] / 1000,
                 "distributed/rank_count": len(snaps), "distributed/producer_capacity_min_rows_s": slowest, "distributed/exposed_data_wait_p95_max_ms": wait}.items():
        close(got[k], v, k)
    other = aggregate_pipeline_snapshots(snaps[::-1], consumer_batches_s=case["speed"], rows_per_batch=case["rows"])
    for k in got:
        close(other[k], got[k], "with the ranks in another order, " + k)
    ctx.nontrivial(sum(bool(r["decode"]) + bool(r["source"]) for r in case["ranks"]) >= 2)


# ------------------------------------------------------------------------------------------- training runs

@st.composite
def training(draw):
    ranks = draw(st.sampled_from([1, 1, 2]))
    job = runs.draw_job(draw, world=ranks, kinds="P", mapped=False, max_iterations=14)
    d = job["data"]
    if "weights" in d:
        d.pop("weights")
        d["worlds"], d["types"] = d["worlds"][:1], d["types"][:1]
        while len(d["worlds"][0]["files"]) < ranks:
            d["worlds"][0]["files"].append(dict(d["worlds"][0]["files"][0]))
    d.update(types=["batched_processed_katago_numpy"], threads=draw(st.integers(1, 3)), prefetch=draw(st.integers(1, 6)))
    job.update(noise=False, val=0)
    job["tune"] = dict(observability=draw(st.sampled_from([None, True])), autotune=dict(
        warmup_iterations=draw(st.integers(0, 3)), verify_iterations=draw(st.integers(0, 2)), decision_interval=draw(st.integers(1, 3)),
        freeze_after=draw(st.sampled_from([2, 5, 1000])), max_prefetch_threads=draw(st.integers(3, 4)), max_prefetch_batches=draw(st.integers(6, 12)),
        target_producer_headroom=draw(st.sampled_from([1e-6, 1.5, 1e12])), max_data_wait_fraction=draw(st.sampled_from([0.0, 0.02, 1.0])), respect_explicit=draw(st.booleans()),
        reuse=draw(st.sampled_from(["off", "exact", "compatible"]))))
    return dict(job=job, world=ranks, log=draw(st.sampled_from([1, 1, 2])), stop=draw(st.integers(0, 999)), moved=draw(st.integers(0, 2)) == 0)


def check_training(case, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job, ranks, conf = case["job"], case["world"], case["job"]["tune"]["autotune"]
    kw = dict(runs.settings(job, ctx.tmp), log_interval=case["log"])
    rundir = os.path.join(ctx.tmp, "run")
    half = dict(kw, iterations=job["iterations"])
    out = runs.run(half, rundir, ctx.tmp, ("step", case["stop"] * job["iterations"] * job["accumulate"] // 1000, "raise"), ranks)
    if any(o.error and any(e in o.error for e in ("produced no global batch", "no batch is available", "produced no admitted records", "non-finite")) for o in out):
        raise Reject("no batch")
    require(all(o.value or o.error and "injected" in o.error or ranks > 1 for o in out), lambda: "the first session ends with %s" % [o.error or o.died for o in out], key="run")
    states = sorted(glob.glob(os.path.join(rundir, "ckpts", "state_*.pt")))
    kept = torch.load(states[-1], weights_only=True) if states else None
    if case["moved"]:       # other limits: another runtime, whose tuning state is ignored
        kw = dict(kw, dataset_args=dict(kw["dataset_args"], autotune=dict(kw["dataset_args"]["autotune"], max_prefetch_batches=conf["max_prefetch_batches"] + 1)))
    out = runs.run(kw, rundir, ctx.tmp, None, ranks)
    require(all(o.value for o in out), lambda: "the run cannot be continued: %s" % [o.error or o.died for o in out], key="run")
    with open(os.path.join(rundir, "pipeline_tuning.json")) as f:
        record = json.load(f)
    last = torch.load(os.path.join(rundir, "ckpts", "state_%07d.pt" % job["iterations"]), weights_only=True)
    limit = dict(conf, max_prefetch_batches=conf["max_prefetch_batches"] + int(case["moved"]), host_cache_budget_bytes=2 * 1024 ** 3)
    for r in last["resume"]["ranks"]:
        t = r["pipeline_tuning"]
        require(t["settings"] == record["resolved"] and json.loads(json.dumps(t["decisions"])) == record["decisions"] and t["frozen"] == record["frozen"],
                "rank %r saved %r, the run record holds %r", r.get("rank"), t, record, key="ranks")
        if kept is not None and not case["moved"]:
            old = kept["resume"]["ranks"][r["rank"]]["pipeline_tuning"]
            require(t["decisions"][:len(old["decisions"])] == old["decisions"], "the decisions before the interruption are %r, %r was saved", t["decisions"], old["decisions"], key="restore")
            require(t["started_iteration"] == old["started_iteration"] or old["started_iteration"] is None, "tuning starts again at iteration %r", t["started_iteration"], key="restore")
            require(not old["frozen"] or t["settings"] == old["settings"], "frozen settings %r became %r", old["settings"], t["settings"], key="freeze")
        elif kept is not None:
            start = out[0].value["start"]
            require(all(d["iteration"] > start for d in t["decisions"]), "decisions of another runtime are taken over: %r", t["decisions"], key="foreign")
    lines = [line for line in train.log_lines(rundir) if "train_loss" in line]
    by_it = {line["it"]: line for line in lines}
    locked = ["prefetch_threads", "prefetch_batches"] if conf["respect_explicit"] else []
    events = 0
    for it, line in by_it.items():
        m = line["data_pipeline"]
        now = {k.split("/")[1]: v for k, v in m.items() if k.startswith("autotune/") and k != "autotune/frozen"}
        require(within(now, limit), "iteration %d runs with %r", it, now, key="limits")
        require(all(now[k] == job["data"]["threads" if k.endswith("threads") else "prefetch"] for k in locked), "iteration %d changes explicit values: %r", it, now, key="explicit")
        speed = line["running_stat"]["it/s"] * job["accumulate"] * job["batch"] / ranks
        require(abs(m["throughput/consumer_rows_s"] - speed) <= 1e-6 * speed, "a rank consumes %r rows per second, %r is logged", speed, m["throughput/consumer_rows_s"], key="speed")
        require(line.get("data_pipeline_tuning", {}).get("iteration", it) == it, "iteration %d logs the decision %r", it, line.get("data_pipeline_tuning"), key="log")
        require(m["distributed/rank_count"] == ranks, "%r ranks measured", m["distributed/rank_count"], key="ranks")
    for d in record["decisions"]:
        line = by_it.get(d["iteration"])
        require(line is not None, "a decision at iteration %r, where nothing was logged", d["iteration"], key="log")
        if d["action"] == "adjust":
            events += 1
            require(line.get("data_pipeline_tuning") == d, "the log line of iteration %d holds the decision %r, not %r", d["iteration"], line.get("data_pipeline_tuning"), d, key="log")
            require(all(line["data_pipeline"]["autotune/" + k] == v for k, v in d["after"].items()), "the settings logged with the decision %r differ", d, key="log")
    times = [d["iteration"] for d in record["decisions"] if d["action"] in ("adjust", "freeze")]
    require(all(b - a >= conf["decision_interval"] for a, b in zip(times, times[1:])), "decisions at %r, %d apart", times, conf["decision_interval"], key="early")
    if not record["frozen"]:
        require(record["started_iteration"] is None or job["iterations"] - record["started_iteration"] < conf["freeze_after"] + conf["decision_interval"] * 2 + case["log"] * 2 + conf["warmup_iterations"],
                "not frozen at the end of its window", key="freeze")
    ctx.label("frozen", record["frozen"])
    ctx.label("ranks %d" % ranks)
    ctx.nontrivial(len(record["decisions"]) and kept is not None)


CAMPAIGNS = [Campaign("control", control, check_control, 900, 20000, shards=2, case_timeout=60),
             Campaign("metrics", metrics, check_metrics, 400, 8000, shards=2, case_timeout=60),
             Campaign("latencies", latencies, check_latencies, 600, 12000, shards=1, case_timeout=60),
             Campaign("runs", training, check_training, 40, 500, shards=4, case_timeout=150)]
