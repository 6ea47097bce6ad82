"""C06: NPZ datasets decode rows faithfully."""
import numpy as np
from hypothesis import strategies as st

from dataset import build_dataset
from vlib import npzref
from vlib.api import Campaign, Reject, require
from vlib.data import KIND_TYPES, MAP_TYPES, Batch, context

RULE = ("A case is a set of NPZ files (layout, sizes, dtypes, channels) with the options of a dataset type, decoded by every dataset type "
        "over that layout and by an independent reference. Non-trivial: at least two rows were delivered.")
ASSUMPTIONS = ["policies are compared to 1e-5 relative, everything else exactly", "boards 4..10, at most 4 planes files of 8 rows",
               "the mapped types require one plane size and the same fields in every file"]
BUDGET = {"quick": 50, "thorough": 900}

DTYPES = dict(board_size="iu", board_input="i", stm_input="f", value_target="f", policy_target="f", sparse_feature_input="i",
              sparse_feature_dim="i")


def cases(draw, kinds="PRS"):
    c = npzref.cases(draw, kinds)
    c["batch"] = draw(st.integers(1, 4))
    c["train"] = draw(st.booleans())
    c["shuffle"] = draw(st.booleans())
    c["threads"] = draw(st.integers(0, 2))
    return c


def deliveries(c, dtype, paths):
    """Rows of one pass (padding left out); rows of an incomplete training batch are missing."""
    extra = npzref.kwargs(c)
    is_map = dtype in MAP_TYPES.values()
    train = c["train"] and not is_map
    if not is_map:
        extra["shuffle"] = c["shuffle"]
    if dtype.startswith("batched"):
        extra.update(prefetch_threads=c["threads"], prefetch_batches=3, pin_memory=False)
    ds = build_dataset(dtype, paths, runtime_context=context("train" if train else "validate", c["seed"], c["batch"]), **extra)
    out = []
    for env in ds:
        b = Batch(env)
        for k, v in b.data.items():
            require(v.dtype.kind in DTYPES[k], "%s: field %s has dtype %s", dtype, k, v.dtype)
        out += [r for r, m in zip(npzref.rows(b.data), b.mask) if m]
        if train:
            ds._partitioned_stream.commit_batch(env.token)
    return out, train, ds


def check(c, ctx):
    paths, raws = npzref.write(c, ctx.tmp)
    want = npzref.expected(c, raws)
    types = list(KIND_TYPES[c["kind"]])
    alike = npzref.alike(c)
    if c["kind"] in MAP_TYPES and alike:
        used = {tuple(s["board_input"].shape[-2:]) for s in want.values()}
        sizes = {tuple(b) for b in c["bs"]} if c["kind"] == "R" else {tuple(b) for b in c["bs"] if b in c["admit"]}
        if len(used) <= 1 and len(sizes) == 1:
            types.append(MAP_TYPES[c["kind"]])
    total = 0
    fixed = c["opt"]["fixed"]
    if fixed:
        want = {k: npzref.pad(s, fixed) for k, s in want.items()}
    for t in types:
        try:
            got, train, ds = deliveries(c, t, paths)
        except (RuntimeError, ValueError) as exc:
            if not want:
                continue                    # nothing matches: any complaint will do
            if "produced no global batch" in str(exc) and c["train"] and max(counts(want, fixed).values()) < c["batch"]:
                continue
            raise
        seen = set()
        for r in got:
            uid = npzref.row_uid(r["value_target"])
            require(uid in want, "%s delivers row %s, which does not match the filters", t, uid)
            require(uid not in seen, "%s delivers row %d twice", t, uid)
            seen.add(uid)
            d = npzref.difference(r, want[uid])
            require(d is None, lambda: f"{t}: row {uid}: {d}")
        if not train:
            require(seen == set(want), lambda: f"{t}: rows {sorted(set(want) - seen)} are missing")
        else:
            n = sum(v // c["batch"] * c["batch"] for v in counts(want, fixed).values())
            require(len(seen) == n, "%s: %d rows in full batches, expected %d", t, len(seen), n)
        require(bool(ds.is_fixed_side_input) == c["opt"]["fixed_side_input"], "is_fixed_side_input is wrong")
        total += len(seen)
        ctx.label(t)
    if not want:
        raise Reject("nothing matches")
    ctx.nontrivial(total >= 2)
    ctx.label("other archives", bool(c.get("forms")))
    ctx.label("fields absent from some files", not alike)
    for k in ("fixed", "filter_stm", "cond", "has_pass_move", "value_td_level", "board_input_channels", "fixed_side_input", "drop_extra"):
        ctx.label(k, c["opt"].get(k) not in (None, False, 0) or k == "cond" and c["opt"].get(k) == 0)


def counts(want, fixed):
    out = {}
    for s in want.values():
        k = fixed or tuple(int(v) for v in s["board_size"])
        out[k] = out.get(k, 0) + 1
    return out


CAMPAIGNS = [
    Campaign("processed", lambda: st.composite(lambda d: cases(d, "P"))(), check, 600, shards=3),
    Campaign("raw", lambda: st.composite(lambda d: cases(d, "R"))(), check, 400, shards=3),
    Campaign("sparse", lambda: st.composite(lambda d: cases(d, "S"))(), check, 250, shards=2),
]
