"""C04: prefetching and telemetry never change the batches."""
import io
import os
import random
import time

import numpy as np
import torch
from hypothesis import strategies as st

from vlib.api import Campaign, Reject, require
from vlib.data import Built, Consumer, context, draw_world, same_batch

RULE = ("A case is a set of processed NPZ files, stream options, a reference run decoded synchronously and a run with workers, read-ahead, "
        "telemetry, tuning decisions, cache limits and decode delays. Non-trivial: at least three batches were compared while more "
        "than one was in flight, or a decoding error surfaced after at least one good batch.")
ASSUMPTIONS = ["CPU only: pinned memory and CUDA prefetch are not exercised", "thread schedules are perturbed by random sleeps in "
               "file loading and a short interpreter switch interval, not enumerated"]
BUDGET = {"quick": 50, "thorough": 900}


def world(draw, max_files=9, comp=None):
    w = draw_world(draw, kinds="P", max_files=max_files, max_rows=10)
    if comp is not None:
        for f in w["files"]:
            f["comp"] = comp
    return w


def config(draw, tune=True):
    """One way of running the loader."""
    c = dict(threads=draw(st.integers(1, 5)), prefetch=draw(st.sampled_from([1, 2, 3, 4, 5, 8, 17, 40])),
             delay=draw(st.sampled_from([0, 0, 1, 2])), jitter=draw(st.integers(0, 1 << 16)))
    c["observability"] = draw(st.sampled_from([None, True, True, {"enabled": False}]))
    if tune and draw(st.integers(0, 2)) == 0:
        c["autotune"] = dict(warmup_iterations=0, verify_iterations=0, decision_interval=1, freeze_after=draw(st.sampled_from([2, 1000])),
                             max_prefetch_threads=draw(st.integers(1, 4)), max_prefetch_batches=draw(st.integers(1, 12)),
                             respect_explicit=False, reuse=draw(st.sampled_from(["off", "exact", "compatible"])))
        c["tunes"] = [[draw(st.sampled_from([0.1, 1.6, 9.0])), draw(st.sampled_from([0.0, 0.5])), draw(st.integers(0, 12)),
                       draw(st.integers(0, 2))] for _ in range(draw(st.integers(1, 6)))]
    return c


def cases(draw):
    d = dict(shuffle=draw(st.booleans()), window=draw(st.sampled_from([1, 4, 64, 32768])), rate=draw(st.sampled_from([1.0, 1.0, 0.7])),
             fixed=draw(st.sampled_from([None, None, None, 9])), fixed_side=draw(st.booleans()),
             worlds=[world(draw)], types=["batched_processed_katago_numpy"], symmetry=draw(st.sampled_from([False, True])),
             bytes=draw(st.sampled_from([None, 500])), steps=draw(st.one_of(st.none(), st.none(), st.integers(2, 6))))
    if d["fixed"] is None and draw(st.integers(0, 4)) == 0:
        d["pipelines"] = {"line_encoding": {"line_length": 5}}
    return dict(data=d, batch=draw(st.integers(1, 4)), seed=draw(st.integers(0, 50)), run=config(draw), epochs=draw(st.integers(1, 3)),
                lag=draw(st.integers(0, 3)), again=config(draw), cut=draw(st.integers(1, 6)), train=draw(st.sampled_from([True, True, False])))


class Jitter:
    """Delays every np.load by a seeded random time."""

    def __init__(self, conf):
        self.conf, self.rng = conf, random.Random(conf.get("jitter", 0))

    def __enter__(self):
        import sys

        self.old, self.interval = np.load, sys.getswitchinterval()
        if self.conf.get("delay"):
            def load(*a, **k):
                time.sleep(self.rng.random() * 0.002 * self.conf["delay"])
                return self.old(*a, **k)
            np.load = load
            sys.setswitchinterval(1e-5)

    def __exit__(self, *a):
        import sys

        np.load = self.old
        sys.setswitchinterval(self.interval)


def build(built, case, conf, tmp):
    over = dict(threads=conf["threads"], prefetch=conf["prefetch"], observability=conf.get("observability"))
    if conf.get("autotune"):
        over["autotune"] = dict(conf["autotune"], cache_dir=os.path.join(tmp, "profiles"))
        if built.d.get("pipelines"):
            over.pop("autotune")
    mode = "train" if case["train"] else "validate"
    return built.build(context(mode, case["seed"], case["batch"]), **over)


SYNC = dict(threads=0, prefetch=1)


def run_epochs(ds, case, epochs, tunes=(), lag=0):
    """[(epoch, batch)] with commits lagging behind deliveries by up to `lag` batches (as asynchronous training does)."""
    c = Consumer(ds)
    out = []
    tunes = list(tunes)
    for _ in range(epochs):
        open_tokens = []
        while True:
            try:
                b = c.next()
            except RuntimeError as exc:
                if "produced no global batch" not in str(exc):
                    raise
                return out
            out.append(b)
            if case["train"]:
                open_tokens.append(b)
                if len(open_tokens) > lag or b.last:
                    c.commit(open_tokens)
                    open_tokens = []
            if tunes:
                head, wait, depth, reloads = tunes.pop(0)
                ds.pipeline_tuning_update({"producer_headroom": head, "data_wait_fraction": wait, "prefetch/queue_depth_mean": depth,
                                           "cache/reloads": reloads}, len(out))
            if b.last:
                break
        # the end of the epoch
        extra = next(c.it, None)
        require(extra is None, "a batch follows the one marked last")
        c.it = None
    return out


def compare(ref, got, what):
    require(len(got) == len(ref), "%s: %d batches, synchronous decoding gives %d", what, len(got), len(ref))
    for i, (a, b) in enumerate(zip(ref, got)):
        require(b.same(a), lambda: f"{what}: batch {i} (epoch {a.epoch}) differs from synchronous decoding: keys equal "
                f"{a.keys == b.keys}, mask {b.mask.tolist()} vs {a.mask.tolist()}, data equal {same_batch(a.data, b.data)}, "
                f"last {b.last}/{a.last}, epoch {b.epoch}/{a.epoch}")


def check(case, ctx):
    built = Built(case["data"], ctx.tmp)
    ref = run_epochs(build(built, case, SYNC, ctx.tmp), case, case["epochs"])
    if not ref:
        raise Reject("no batch")
    conf = case["run"]
    with Jitter(conf):
        ds = build(built, case, conf, ctx.tmp)
        got = run_epochs(ds, case, case["epochs"], conf.get("tunes", ()) if not built.d.get("pipelines") else (), case["lag"])
    compare(ref, got, "prefetched")
    snap = getattr(ds, "pipeline_metrics_snapshot", lambda: None)()
    ctx.label("telemetry", snap is not None)
    # stop after `cut` batches under one configuration, go on under another one
    other = case["again"]
    resumed = False
    if case["train"]:
        with Jitter(other):
            a = Consumer(ds2 := build(built, case, conf, ctx.tmp))
            done = []
            while len(done) < min(case["cut"], len(ref)):
                b = a.next()
                a.commit([b])
                done.append(b)
            buf = io.BytesIO()
            torch.save(a.stream.state_dict(), buf)
            tuning = getattr(ds2, "pipeline_tuning_state_dict", lambda: None)()
            a.abort()
            buf.seek(0)
            c = Consumer(ds3 := build(built, case, other, ctx.tmp))
            c.stream.load_state_dict(torch.load(buf, weights_only=True))
            if tuning is not None:
                ds3.restore_pipeline_tuning_state_dict(tuning)
            while len(done) < len(ref):
                b = c.next()
                c.commit([b])
                done.append(b)
            c.abort()
        compare(ref, done, "resumed under other loader settings")
        resumed = case["cut"] < len(ref)
    ctx.nontrivial(len(ref) >= 3 and not (conf["threads"] == 1 and conf["prefetch"] == 1))
    ctx.label("autotune", "autotune" in conf)
    ctx.label("pipelines", bool(built.d.get("pipelines")))
    ctx.label("resumed", resumed)
    ctx.label("delays", bool(conf["delay"]))
    ctx.label("files>6", len(built.worlds[0].paths) > 6)
    ctx.label("evaluation", not case["train"])


# ------------------------------------------------------------------------------------------- decoding errors

def error_cases(draw):
    w = world(draw, max_files=6, comp=True)
    d = dict(shuffle=draw(st.booleans()), window=draw(st.sampled_from([1, 4, 64])), rate=1.0, fixed=draw(st.sampled_from([None, None, 9])),
             fixed_side=False, worlds=[w], types=["batched_processed_katago_numpy"], symmetry=False, bytes=None)
    return dict(data=d, batch=draw(st.integers(1, 3)), seed=draw(st.integers(0, 50)), run=config(draw, tune=False), train=True,
                bad=draw(st.integers(0, 5)), how=draw(st.sampled_from(["garbage", "short", "gone"])), committed=draw(st.integers(0, 4)))


def check_errors(case, ctx):
    """A file that turns unreadable after it was catalogued."""
    built = Built(case["data"], ctx.tmp)
    w = built.worlds[0]
    ref = run_epochs(build(built, case, SYNC, ctx.tmp), case, 1)
    if not ref:
        raise Reject("no batch")
    k = len(w.paths) - 1 - case["bad"] % len(w.paths)
    info = {r.uid: r.file for r in w.records}
    hit = [i for i, b in enumerate(ref) if any(info[t] == k for t in w.tags(b.data))]
    if not hit:
        raise Reject("the file is not used")
    conf = case["run"]
    ds = build(built, case, conf, ctx.tmp)
    ds._build_partitioned_stream()
    path = w.paths[k]
    good = open(path, "rb").read()
    if case["how"] == "gone":
        os.unlink(path)
    else:
        with open(path, "wb") as f:
            f.write(b"not a zip" * 20 if case["how"] == "garbage" else good[:len(good) // 2])
    c = Consumer(ds)
    got, error = [], None
    with Jitter(conf):
        while error is None and len(got) < len(ref):
            try:
                b = c.next()
            except Exception as exc:  # noqa: BLE001
                error = exc
                break
            got.append(b)
            if len(got) <= case["committed"]:
                c.commit([b])
    require(error is not None, "batch %d cannot be decoded but %d batches were delivered", hit[0], len(got))
    require(len(got) <= hit[0], "the batch that cannot be decoded is %d, the error came after %d batches", hit[0], len(got))
    if conf["prefetch"] == 1:
        require(len(got) == hit[0], "the error came after %d batches, batch %d is the one that cannot be decoded", len(got), hit[0])
    for i, b in enumerate(got):
        require(b.same(ref[i]), "batch %d before the error differs from synchronous decoding", i)
    # the file is readable again: iteration goes on after the last committed batch
    c.it = None
    with open(path, "wb") as f:
        f.write(good)
    done = min(case["committed"], len(got))
    while done < len(ref):
        b = c.next()
        require(b.same(ref[done]), "after the error, the batch that follows %d committed ones differs", done)
        c.commit([b])
        done += 1
    c.abort()
    ctx.nontrivial(hit[0] > 0)
    ctx.label(case["how"])
    ctx.label("delivered some", bool(got))


CAMPAIGNS = [
    Campaign("settings", lambda: st.composite(cases)(), check, 900, shards=6, case_timeout=60),
    Campaign("errors", lambda: st.composite(error_cases)(), check_errors, 420, shards=2, case_timeout=60),
]
