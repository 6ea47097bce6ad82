"""C10: seeded randomness is exact, uniform and canonical."""
import hashlib
import json
import math
import struct

import numpy as np
import torch
from hypothesis import strategies as st

from dataset import core
from vlib.api import Campaign, Reject, require
from vlib.data import KIND_TYPES, Batch, Built, context, draw_dataset

RULE = ("A case is a seed with identities and bounds (draws, vectorised draws, permutations, admission), a dataset with a sampling rate, or a "
        "nested state value. Non-trivial: the bound is above 1 and at least two draws are compared; the rate lies strictly between 0 and 1; "
        "the state value is a container or tensor.")
ASSUMPTIONS = ["the generator is the documented one: BLAKE2b-256 over a tagged little-endian encoding, rejection sampling, Fisher-Yates",
               "equality of state values is bitwise for floats and ignores list/tuple"]
BUDGET = {"quick": 45, "thorough": 900}

I64 = st.one_of(st.integers(0, 20), st.integers(-(1 << 63), (1 << 63) - 1), st.sampled_from([-(1 << 63), (1 << 63) - 1, -1, 0]))
BOUND = st.one_of(st.integers(1, 20), st.sampled_from([1, 2, 4, 8, 16, 256, 1 << 32, 1 << 63, (1 << 63) + 1, (1 << 63) + 12345, (1 << 64) - 1, 1 << 64]),
                  st.integers(1, 1 << 64), st.integers((1 << 63), (1 << 64)))
DOMAIN = st.sampled_from(["sample", "symmetry", "shuffle", "", "dömäne", "x" * 40])
ATOM = st.one_of(st.none(), st.booleans(), I64, st.text(max_size=6), st.binary(max_size=6).map(lambda b: {"b": b.hex()}))
KEY = st.recursive(ATOM, lambda c: st.lists(c, max_size=4), max_leaves=8)


def py(key):
    if isinstance(key, dict):
        return bytes.fromhex(key["b"])
    if isinstance(key, list):
        return tuple(py(k) for k in key)
    return key


# ---------------------------------------------------------------- reference generator

def tlv(v):
    if v is None:
        return b"\0"
    if v is True or v is False:
        return b"\1\1" if v else b"\1\0"
    if isinstance(v, int):
        return b"\2" + (v % (1 << 64)).to_bytes(8, "little")
    if isinstance(v, str):
        raw = v.encode()
        return b"\3" + len(raw).to_bytes(4, "little") + raw
    if isinstance(v, bytes):
        return b"\4" + len(v).to_bytes(4, "little") + v
    return b"\5" + len(v).to_bytes(4, "little") + b"".join(map(tlv, v))


def digest(seed, domain, key, counter=0):
    return hashlib.blake2b(b"NNUE-DATA-RNG\0\1\0" + tlv((domain, seed, key, counter)), digest_size=32,
                           person=b"NNUEdsRNGv1\0\0\0\0\0").digest()


def u64(seed, domain, key, counter=0):
    return int.from_bytes(digest(seed, domain, key, counter)[:8], "little")


def draw_below(n, seed, domain, key, counter=0):
    while True:
        v = u64(seed, domain, key, counter)
        counter += 1
        if v < ((1 << 64) // n) * n:
            return v % n, counter


def splitmix(n, seed, domain, epoch, base_key, cycle, row, occurrence):
    m = (1 << 64) - 1
    v = (u64(seed, domain + "_processed_splitmix_v1", (epoch, *base_key, occurrence)) + row * 0x9E3779B97F4A7C15 + cycle * 0xD1B54A32D192ED03) & m
    v = ((v ^ (v >> 30)) * 0xBF58476D1CE4E5B9) & m
    v = ((v ^ (v >> 27)) * 0x94D049BB133111EB) & m
    return (v ^ (v >> 31)) & (n - 1)


# Internal fast forms are compared when they exist under their present names; permutations and datasets use them in any case.
PREFIX = hasattr(core, "_counter_rng_base") and hasattr(core, "_uniform_below_from_base")
VECTOR = getattr(core, "_uniform_below_for_processed_sample_keys", None)
VECTOR2 = getattr(core, "_uniform_below_for_processed_sample_keys_v2", None)
PACKED2 = getattr(core, "_uniform_below_for_packed_processed_rows_v2", None)


# ---------------------------------------------------------------- draws

def draw_case(draw):
    return dict(seed=draw(I64), domain=draw(DOMAIN), key=draw(st.lists(KEY, max_size=3)), n=draw(BOUND),
                counter=draw(st.one_of(st.integers(0, 5), st.just((1 << 62)))), count=draw(st.integers(1, 12)), other=draw(st.lists(KEY, max_size=3)))


def refuses(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False


def check_draw(case, ctx):
    seed, domain, key, n = case["seed"], case["domain"], py(case["key"]), case["n"]
    require(core.rng_digest(seed, domain, key, case["counter"]) == digest(seed, domain, key, case["counter"]), "digest differs from its definition")
    require(core.rng_u64(seed, domain, key, case["counter"]) == u64(seed, domain, key, case["counter"]), "64-bit draw differs from its definition")
    counter = ref = case["counter"]
    base = core._counter_rng_base(seed, domain, key) if PREFIX else None
    rejected = False
    for i in range(case["count"]):
        got = core.uniform_below(n, seed, domain, key, counter)
        want = draw_below(n, seed, domain, key, ref)
        require(tuple(got) == want, "draw %d below %d is %r, expected %r", i, n, got, want)
        require(0 <= got[0] < n, "draw %r outside [0, %d)", got[0], n)
        if base is not None:
            fast = core._uniform_below_from_base(n, base, counter)
            require(tuple(fast) == want, "prefix form of draw %d below %d is %r, expected %r", i, n, fast, want)
        rejected |= want[1] - ref > 1
        counter, ref = got[1], want[1]
    other = py(case["other"])
    if tlv(other) != tlv(key):
        require(core.rng_digest(seed, domain, other) != core.rng_digest(seed, domain, key), "keys %r and %r share their randomness", key, other)
    for bad in (0, -1, (1 << 64) + 1):
        require(refuses(lambda: core.uniform_below(bad, seed, domain, key), ValueError), "bound %d accepted", bad)
    require(refuses(lambda: core.rng_u64(seed, domain, key, -1), ValueError), "negative counter accepted")
    require(refuses(lambda: core.rng_u64(seed, domain, (1 << 63,)), ValueError), "key integer outside 64 bits accepted")
    require(refuses(lambda: core.rng_u64(seed, domain, (1.5,)), TypeError), "key of type float accepted")
    ctx.nontrivial(n > 1 and case["count"] > 1)
    ctx.label("rejection", rejected)


# ---------------------------------------------------------------- vectorised draws

def vector_case(draw):
    files = draw(st.lists(st.tuples(st.sampled_from(["root", "root", "c0", "ü"]), st.binary(max_size=8).map(bytes.hex),
                                    st.sampled_from(["npz-row", "npz-row", "cycle"])), min_size=1, max_size=3))
    address = st.one_of(st.lists(st.integers(0, 2000), min_size=1, max_size=2), st.lists(st.integers(0, (1 << 63) - 1), min_size=1, max_size=2))
    return dict(seed=draw(I64), domain=draw(DOMAIN), epoch=draw(st.integers(0, 1000)), n=draw(st.one_of(BOUND, st.sampled_from([2, 4, 8]))),
                files=[list(f) for f in files], occurrence=draw(st.integers(0, 3)),
                keys=[[draw(st.integers(0, len(files) - 1)), draw(address)] for _ in range(draw(st.integers(0, 25)))])


def check_vector(case, ctx):
    seed, domain, epoch, n, occ = case["seed"], case["domain"], case["epoch"], case["n"], case["occurrence"]
    heads = [(f[0], bytes.fromhex(f[1]), f[2]) for f in case["files"]]
    keys = [(*heads[f], tuple(a)) for f, a in case["keys"]]
    want = [draw_below(n, seed, domain, (epoch, k, occ))[0] for k in keys]
    got = [int(v) for v in VECTOR(n, seed, domain, epoch, keys, occ)] if VECTOR else want
    require(got == want, "vectorised draws below %d are %r, scalar ones %r", n, got, want)
    power = n & (n - 1) == 0
    if power:
        want = [splitmix(n, seed, domain, epoch, (*k[:3], len(k[3])), k[3][0] if len(k[3]) == 2 else 0, k[3][-1], occ) for k in keys]
    if not VECTOR2:
        return
    got = [int(v) for v in VECTOR2(n, seed, domain, epoch, keys, occ)]
    require(got == want, "vectorised draws below %d are %r, expected %r", n, got, want)
    require(all(0 <= v < n for v in got), "draw outside [0, %d): %r", n, got)
    alone = [int(VECTOR2(n, seed, domain, epoch, [k], occ)[0]) for k in keys[:6]]
    require(alone == got[:6], "a draw depends on the other keys: %r alone, %r together", alone, got[:6])
    if power and PACKED2:
        digests = tuple(h[1] for h in heads)
        idx = np.array([f for f, _ in case["keys"]], dtype=np.int64)
        rows = np.array([a[-1] for _, a in case["keys"]], dtype=np.uint64)
        got = PACKED2(n, seed, domain, epoch, digests, idx, rows, occ).tolist()
        want = [splitmix(n, seed, domain, epoch, ("root", digests[f], "npz-row", 1), 0, a[-1], occ) for f, a in case["keys"]]
        require(got == want, "packed draws below %d are %r, expected %r", n, got, want)
    ctx.nontrivial(n > 1 and len(keys) > 1)
    ctx.label("power of two" if power else "other bound")
    ctx.label("several files", len({f for f, _ in case["keys"]}) > 1)


# ---------------------------------------------------------------- permutations and admission

def permutation_case(draw):
    return dict(seed=draw(I64), domain=draw(DOMAIN), key=draw(st.lists(KEY, max_size=3)), length=draw(st.one_of(st.integers(0, 12), st.integers(0, 150))))


def check_permutation(case, ctx):
    n, key = case["length"], py(case["key"])
    got = list(core.deterministic_permutation(n, case["seed"], case["domain"], key))
    require(sorted(got) == list(range(n)), "not a permutation of %d: %r", n, got)
    values, counter = list(range(n)), 0
    for i in reversed(range(1, n)):
        j, counter = draw_below(i + 1, case["seed"], case["domain"], key, counter)
        values[i], values[j] = values[j], values[i]
    require(got == values, "permutation %r differs from its definition %r", got, values)
    ctx.nontrivial(n > 1)


RATES = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25, 5e-324, 1e-9, 0.1, 1 - 2.0 ** -53]))


def admission_case(draw):
    rates = sorted(draw(st.lists(RATES, min_size=1, max_size=4)))
    return dict(seed=draw(I64), epoch=draw(st.integers(0, 100)), rates=rates, keys=draw(st.lists(KEY, max_size=8)),
                many=draw(st.sampled_from([0, 0, 0, 3000])), bad=draw(st.one_of(st.floats(max_value=0, exclude_max=True, allow_infinity=False),
                                                                              st.floats(min_value=1, exclude_min=True, allow_infinity=False))))


def check_admission(case, ctx):
    seed, epoch = case["seed"], case["epoch"]
    for key in case["keys"]:
        k = py(key)
        k = k if isinstance(k, tuple) else (k,)
        previous = False
        for r in case["rates"]:
            got = core.sample_is_admitted(r, seed, epoch, k)
            v = u64(seed, "sample", (epoch, k))
            want = r >= 1.0 or v / (1 << 64) < r
            require(got == want, "rate %r, draw %d: admitted %r", r, v, got)
            require(got or not previous, "admitted at a lower rate than %r but not at it", r)
            require(r > 0 or not got, "admitted at rate 0")
            require(r < 1 or got, "left out at rate 1")
            previous = got
    if case["many"]:
        n = case["many"]
        for r in case["rates"]:
            c = sum(core.sample_is_admitted(r, seed, epoch, ("root", b"x", "npz-row", (i,))) for i in range(n))
            require(abs(c - n * r) <= 7 * math.sqrt(n * r * (1 - r)) + 1, "rate %r admitted %d of %d samples", r, c, n)
    require(refuses(lambda: core.sample_is_admitted(case["bad"], seed, epoch, ("k",)), ValueError), "rate %r accepted", case["bad"])
    require(refuses(lambda: core.sample_is_admitted(float("nan"), seed, epoch, ("k",)), ValueError), "rate NaN accepted")
    ctx.nontrivial((len(case["keys"]) > 1 or case["many"]) and any(0 < r < 1 for r in case["rates"]))
    ctx.label("statistics", case["many"] > 0)


# ---------------------------------------------------------------- datasets with a sampling rate

def dataset_case(draw):
    d = draw_dataset(draw, max_rows=draw(st.sampled_from([8, 24])), max_files=3)
    rates = sorted(draw(st.lists(st.one_of(st.floats(0.05, 0.95), st.sampled_from([0.0, 0.5, 1.0])), min_size=1, max_size=3)))
    return dict(data=d, rates=rates, seed=draw(st.integers(-5, 1000)), batches=[draw(st.integers(1, 5)) for _ in range(2)],
                epochs=draw(st.integers(1, 2)), world=draw(st.sampled_from([1, 1, 2])) if "streams" not in d else 1, train=draw(st.booleans()),
                shuffled=draw(st.booleans()), window=draw(st.sampled_from([1, 3, 100])))


def delivered(built, case, rate, batch, mode, epochs, world=1, **over):
    """Per epoch: {uid: key} of everything delivered over all ranks."""
    out = [dict() for _ in range(epochs)]
    for rank in range(world):
        ds = built.build(context(mode, case["seed"], batch, world, rank), rate=rate, **over)
        stream = None
        try:
            for e in range(epochs):
                try:
                    for env in ds:
                        b = Batch(env)
                        for t, k, m in zip(built.tags(b.data), b.keys, b.mask):
                            if m:
                                out[b.epoch][t] = k
                        if mode == "train":
                            stream = ds._partitioned_stream
                            stream.commit_batch(env.token)
                except RuntimeError as exc:
                    if "produced no" not in str(exc) and "no admitted" not in str(exc):
                        raise
                    if mode == "train":
                        return None
        finally:
            if stream is not None and hasattr(stream, "close"):
                stream.close()
    return out


def check_datasets(case, ctx):
    d = case["data"]
    built = Built(dict(d, rate=1.0), ctx.tmp)
    keys = delivered(built, case, 1.0, 1, "validate", 1, shuffle=False)[0]
    if not keys:
        raise Reject
    composite = built.composite
    previous = set()
    partial = False
    for r in case["rates"]:
        got = delivered(built, case, r, case["batches"][0], "validate", 1, shuffle=False)[0]
        want = {u for u, k in keys.items() if r >= 1 or u64(case["seed"], "sample", (0, k)) / (1 << 64) < r}
        if composite:           # admission happens in the children, and the schedule decides how far each is read
            again = delivered(built, case, r, case["batches"][1], "validate", 1, shuffle=False)[0]
            require(got == again, "rate %r admits %s, with another batch size %s", r, sorted(got), sorted(again))
            partial |= 0 < len(got) < len(keys)
            continue
        require(set(got) == want, "rate %r admits %s, expected %s", r, sorted(got), sorted(want))
        require(previous <= set(got), "records %s admitted at a lower rate than %r but not at it", sorted(previous - set(got)), r)
        previous = set(got)
        partial |= 0 < len(got) < len(keys)
        again = delivered(built, case, r, case["batches"][1], "validate", 1, shuffle=False, threads=2)[0]
        require(set(again) == want, "another batch size admits %s instead of %s", sorted(again), sorted(want))
        if case["train"]:
            runs = delivered(built, case, r, case["batches"][1], "train", case["epochs"], case["world"],
                             shuffle=case["shuffled"], window=case["window"], steps=1 if case["world"] > 1 else None)
            if runs is not None:
                for e, run in enumerate(runs):
                    ok = {u for u, k in keys.items() if r >= 1 or u64(case["seed"], "sample", (e, k)) / (1 << 64) < r}
                    require(set(run) <= ok, "epoch %d on %d ranks delivers %s, which rate %r does not admit", e, case["world"],
                            sorted(set(run) - ok), r)
    ctx.nontrivial(partial)
    ctx.label(",".join(sorted({w["kind"] for w in d["worlds"]})) + ("*" if composite else ""))


# ---------------------------------------------------------------- canonical pipeline state

DT = ["bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float16", "float32", "float64", "bfloat16"]
SIZE = {"bool": 1, "uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "float16": 2,
        "float32": 4, "float64": 8, "bfloat16": 2}
NAMES = st.one_of(st.text(max_size=5), st.sampled_from(["a", "b", "$", "$x", "$f65", "rng", "\u00e9", "\u2028", "\U0001f600", '"', "\\", ""]))


def values(draw, depth=3):
    kind = draw(st.sampled_from(["none", "bool", "int", "int", "float", "bytes", "str", "tensor"] + ["list", "tuple", "dict", "dict"] * (depth > 0)))
    if kind == "none":
        return dict(t=kind)
    if kind == "bool":
        return dict(t=kind, v=draw(st.booleans()))
    if kind == "int":
        return dict(t=kind, v=draw(I64))
    if kind == "float":
        return dict(t=kind, v=draw(st.floats(allow_nan=False, allow_infinity=False)).hex())
    if kind == "bytes":
        return dict(t=kind, v=draw(st.binary(max_size=8)).hex())
    if kind == "str":
        return dict(t=kind, v=draw(NAMES))
    if kind == "tensor":
        dtype = draw(st.sampled_from(DT))
        shape = draw(st.lists(st.integers(0, 3), max_size=3))
        n = math.prod(shape)
        raw = draw(st.binary(min_size=n * SIZE[dtype], max_size=n * SIZE[dtype]))
        if dtype == "bool":
            raw = bytes(b & 1 for b in raw)
        return dict(t=kind, dtype=dtype, shape=shape, v=raw.hex(), layout=draw(st.sampled_from(["plain", "transposed", "strided"])))
    if kind == "dict":
        return dict(t=kind, v=[[k, values(draw, depth - 1)] for k in draw(st.lists(NAMES, max_size=4, unique=True))])
    return dict(t=kind, v=[values(draw, depth - 1) for _ in range(draw(st.integers(0, 4)))])


def build(v, reverse=False, swap=False, dense=False):
    t = v["t"]
    if t == "none":
        return None
    if t == "float":
        return float.fromhex(v["v"])
    if t == "bytes":
        return bytes.fromhex(v["v"])
    if t == "tensor":
        dtype = getattr(torch, v["dtype"])
        x = torch.frombuffer(bytearray(bytes.fromhex(v["v"])), dtype=dtype).reshape(v["shape"]) if v["v"] else torch.empty(v["shape"], dtype=dtype)
        if v["layout"] == "transposed" and x.ndim > 1 and not dense:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        if v["layout"] == "strided" and x.ndim and not dense:
            wide = torch.zeros(*x.shape[:-1], x.shape[-1] * 2, dtype=dtype)
            wide[..., ::2] = x
            x = wide[..., ::2]
        return x
    if t == "dict":
        items = [(k, build(i, reverse, swap, dense)) for k, i in v["v"]]
        return dict(reversed(items) if reverse else items)
    if t in ("list", "tuple"):
        out = [build(i, reverse, swap, dense) for i in v["v"]]
        return out if (t == "list") != swap else tuple(out)
    return v["v"]


def plain(x):
    """A hashable description; equal exactly for equal values."""
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(plain(i) for i in x))
    if isinstance(x, dict):
        return ("map", frozenset((k, plain(i)) for k, i in x.items()))
    if isinstance(x, torch.Tensor):
        c = x.clone(memory_format=torch.contiguous_format)
        return ("tensor", str(x.dtype), tuple(x.shape), bytes(c.reshape(-1).view(torch.uint8).tolist()) if c.numel() else b"")
    if isinstance(x, float):
        return ("float", struct.pack("<d", x))
    return (type(x).__name__, x)


def state_case(draw):
    v = values(draw)
    return dict(value=v, other=draw(st.one_of(st.none(), st.just(True))) and values(draw), edits=draw(st.lists(st.tuples(
        st.sampled_from(["delete", "insert", "replace", "upper", "space", "swap"]), st.integers(0, 10 ** 6), st.integers(0, 255)), max_size=4)),
        bad=draw(st.sampled_from(["nan", "inf", "big", "reserved", "intkey", "grad", "complex", "set", "object"])))


def bad_value(kind, v):
    return {"nan": float("nan"), "inf": [float("-inf")], "big": (1 << 63,), "reserved": {"$f64": v}, "intkey": {1: v}, "set": {1, 2}, "object": object(),
            "grad": torch.zeros(2, requires_grad=True), "complex": torch.zeros(2, dtype=torch.complex64)}[kind]


def check_state(case, ctx):
    value = build(case["value"])
    blob = core.canonical_pipeline_state_bytes(value)
    require(isinstance(blob, bytes), "canonical form is %s", type(blob))
    require(plain(build(case["value"])) == plain(value), "encoding changed the value")
    back = core.decode_canonical_pipeline_state(blob)
    require(plain(back) == plain(value), lambda: f"decoded {back!r} from {value!r}")
    require(core.canonical_pipeline_state_bytes(back) == blob, "the decoded value has other canonical bytes")
    for kw in (dict(reverse=True), dict(swap=True), dict(dense=True)):
        require(core.canonical_pipeline_state_bytes(build(case["value"], **kw)) == blob, "equal value (%s) has other canonical bytes", list(kw)[0])
    if case["other"]:
        o = build(case["other"])
        require((core.canonical_pipeline_state_bytes(o) == blob) == (plain(o) == plain(value)), lambda: f"{o!r} and {value!r} share canonical bytes")
    mutated = bytearray(blob)
    for op, at, b in case["edits"]:
        i = at % (len(mutated) + 1)
        if op == "insert":
            mutated[i:i] = bytes([b])
        elif op == "space":
            mutated[i:i] = b" "
        elif i < len(mutated):
            if op == "delete":
                del mutated[i]
            elif op == "replace":
                mutated[i] = b
            elif op == "upper":
                mutated = mutated.upper()
            elif op == "swap" and i + 1 < len(mutated):
                mutated[i], mutated[i + 1] = mutated[i + 1], mutated[i]
    if bytes(mutated) != blob:
        try:
            other = core.decode_canonical_pipeline_state(bytes(mutated))
        except Exception:  # noqa: BLE001 - any refusal will do
            ctx.label("damaged bytes refused")
        else:
            require(core.canonical_pipeline_state_bytes(other) == bytes(mutated), "non-canonical bytes %r accepted", bytes(mutated))
            require(plain(other) != plain(value), "bytes %r and %r decode to equal values", bytes(mutated), blob)
            ctx.label("damaged bytes are another value")
    require(refuses(lambda: core.canonical_pipeline_state_bytes(bad_value(case["bad"], value)), ValueError, TypeError), "%s value accepted", case["bad"])
    ctx.nontrivial(case["value"]["t"] in ("list", "tuple", "dict", "tensor") and plain(value) not in (("seq", ()), ("map", frozenset())))


CAMPAIGNS = [
    Campaign("draw", lambda: st.composite(draw_case)(), check_draw, quick=1600, thorough=40000),
    Campaign("vector", lambda: st.composite(vector_case)(), check_vector, quick=1200, thorough=30000),
    Campaign("permutation", lambda: st.composite(permutation_case)(), check_permutation, quick=500, thorough=8000),
    Campaign("admission", lambda: st.composite(admission_case)(), check_admission, quick=600, thorough=8000),
    Campaign("datasets", lambda: st.composite(dataset_case)(), check_datasets, quick=400, thorough=6000, shards=8),
    Campaign("state", lambda: st.composite(state_case)(), check_state, quick=2500, thorough=60000),
]
