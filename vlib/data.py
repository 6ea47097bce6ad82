"""Writers of dataset files with planted record identities, and helpers to build and read the datasets."""
import io
import os
import struct

import lz4.frame
import numpy as np
from hypothesis import strategies as st

RULE_CODE = {"freestyle": 0, "standard": 1, "renju": 4}
RULE_INDEX = {"freestyle": 0, "standard": 1, "renju": 2}

# ---------------------------------------------------------------- binary encoders (independent of the repository)


def mv(x, y):
    return (x << 5) | y


def encode_simple(result, ply, bs, rule, move, position):
    """result 0 loss, 1 draw, 2 win of the side to move; move and position are (x, y)."""
    head = (result & 3) | (ply & 511) << 2 | (bs & 31) << 11
    head2 = (RULE_CODE[rule] & 7) | (mv(*move) & 8191) << 3
    return struct.pack("<HH", head, head2) + b"".join(struct.pack("<H", mv(*p)) for p in position)


def encode_packed(bs, rule, result, total_ply, init, groups, game_tag=0):
    """groups: list of lists of (move or None for pass, eval or None)."""
    flat = []
    for g in groups:
        for i, (move, ev) in enumerate(g):
            bits = (1 if i == 0 else 0) | (2 if i == len(g) - 1 else 0) | (4 if ev is None else 0)
            bits |= 8 if move is None else 0
            m = 0 if move is None else mv(*move)
            flat.append(struct.pack("<Hh", bits | (m & 1023) << 6, 0 if ev is None else ev))
    w0 = (bs & 31) | (RULE_CODE[rule] & 7) << 5 | (result & 15) << 8 | (total_ply & 1023) << 12 | (len(init) & 1023) << 22
    w1 = (game_tag & 0x3FFF) | (len(flat) & 0x3FFFF) << 14
    return struct.pack("<II", w0, w1) + b"".join(struct.pack("<H", mv(*p)) for p in init) + b"".join(flat)


def write_binary(path, blobs, frames=1):
    data = b"".join(blobs)
    if path.lower().endswith("lz4"):
        if frames > 1 and len(blobs) > 1:
            cut = max(1, len(data) // frames)
            out = b"".join(lz4.frame.compress(data[i:i + cut]) for i in range(0, len(data), cut))
        else:
            out = lz4.frame.compress(data)
    else:
        out = data
    with open(path, "wb") as f:
        f.write(out)


def cell_name(m):
    return "pass" if m is None else chr(ord("a") + m[0]) + str(m[1] + 1)


# ---------------------------------------------------------------- NPZ contents

def processed_arrays(rng, n, h, w, uid0, *, gf=1, pt="flat", channels=2, vt=3, gf_present=True, pt_present=True, tag=True):
    bf = rng.integers(0, 2, (n, channels, h, w)).astype(np.int8)
    arrays = {"bf": bf}
    if gf_present:
        arrays["gf"] = rng.choice([-1.0, 1.0], (n, gf)).astype(np.float32)
    v = rng.random((n, vt)).astype(np.float32)
    if tag:
        v[:, 2] = np.arange(uid0, uid0 + n)
    arrays["vt"] = v
    if pt_present:
        cells = h * w
        p = rng.integers(0, 50, (n, cells + 1)).astype(np.float32)
        arrays["pt"] = p if pt == "flat" else np.ascontiguousarray(p[:, :cells].reshape(n, h, w))
    return arrays


def pack_planes(planes):
    """(N, C, S, S) 0/1 -> (N, C, bytes) big-endian bits."""
    n, c = planes.shape[:2]
    return np.packbits(planes.reshape(n, c, -1).astype(np.uint8), axis=2, bitorder="big")


def raw_arrays(rng, n, phys, logical, uid0, *, gic=1, td_levels=1, channels=3, tag_level=0):
    """logical: list of n (h, w) not larger than phys."""
    planes = rng.integers(0, 2, (n, channels, phys, phys)).astype(np.uint8)
    planes[:, 0] = 0
    for i, (h, w) in enumerate(logical):
        planes[i, 0, :h, :w] = 1
    gi = rng.choice([-1.0, 1.0], (n, gic)).astype(np.float32)
    gt = rng.random((n, 4 * td_levels)).astype(np.float32)
    gt[:, 4 * tag_level + 2] = np.arange(uid0, uid0 + n)
    pol = rng.integers(0, 30, (n, 2, phys * phys + 1)).astype(np.int16)
    return {"binaryInputNCHWPacked": pack_planes(planes), "globalInputNC": gi, "globalTargetsNC": gt,
            "policyTargetsNCMove": pol}, planes


def sparse_arrays(rng, n, s, uid0):
    planes = rng.integers(0, 2, (n, 3, s, s)).astype(np.uint8)
    planes[:, 0] = 1
    gt = rng.random((n, 4)).astype(np.float32)
    gt[:, 2] = np.arange(uid0, uid0 + n)
    return {
        "binaryInputNCHWPacked": pack_planes(planes),
        "globalInputNC": rng.choice([-1.0, 1.0], (n, 1)).astype(np.float32),
        "globalTargetsNC": gt,
        "policyTargetsNCHW": rng.integers(0, 30, (n, 1, s * s)).astype(np.int16),
        "sparseInputNCHWU8": rng.integers(0, 256, (n, 10, s * s)).astype(np.uint8),
        "sparseInputNCHWU16": rng.integers(0, 60000, (n, 2, s * s)).astype(np.uint16),
        "sparseInputDim": rng.integers(1, 70000, (12,)).astype(np.uint32),
    }, planes


def save_npz(path, arrays, compressed=True):
    (np.savez_compressed if compressed else np.savez)(path, **arrays)


# ---------------------------------------------------------------- worlds: a set of files whose records carry identities

KIND_TYPES = {
    "P": ["iterative_processed_katago_numpy", "batched_processed_katago_numpy"],
    "R": ["iterative_katago_numpy"],
    "S": ["iterative_sparse_numpy"],
    "B": ["simple_binary"],
    "K": ["packed_binary"],
}
MAP_TYPES = {"P": "processed_katago_numpy", "R": "katago_numpy"}
SEQUENTIAL = ("B", "K")


class Rec:
    __slots__ = ("uid", "shape", "file", "key", "index")

    def __init__(self, uid, shape, file, key=None, index=0):
        self.uid, self.shape, self.file, self.key, self.index = uid, shape, file, key, index


def draw_world(draw, kinds="PRSBK", max_files=4, max_rows=14, mixed=True, uniform=False, foreign=True, min_files=1):
    """A world spec (JSON-able). Sizes 5..8; 'admit' lists the admitted board sizes."""
    kind = draw(st.sampled_from(list(kinds)))
    nfiles = draw(st.integers(min_files, max_files))
    rect = kind == "P"
    base = draw(st.integers(5, 7))
    sizes = [[base, base]]
    if mixed and not uniform:
        sizes += [[base + 1, base + 1]]
        if rect:
            sizes += [[base, base + 1]]
    files = []
    for i in range(nfiles):
        files.append(dict(bs=draw(st.sampled_from(sizes)), n=draw(st.integers(1, max_rows)), comp=draw(st.booleans())))
    admit = sizes
    if foreign and mixed and not uniform and draw(st.integers(0, 3)) == 0:
        admit = draw(st.lists(st.sampled_from(sizes), min_size=1, unique_by=tuple))
    if kind == "R" and any(f["bs"] not in admit for f in files):
        admit = sizes      # a streamed raw file without any admitted row is a separate question (C06)
    if not any(f["bs"] in admit for f in files):
        admit = sizes
    return dict(kind=kind, files=files, admit=admit, seed=draw(st.integers(0, 1 << 20)))


class World:
    """Writes the files of a spec and knows the admitted records in file order."""

    def __init__(self, spec, root):
        self.spec = spec
        self.kind = spec["kind"]
        self.dir = root
        os.makedirs(root, exist_ok=True)
        self.paths, self.records, self.by_key = [], [], {}
        self.offset = spec.get("uid0", 0)
        uid = self.offset
        admit = {tuple(a) for a in spec["admit"]}
        for i, f in enumerate(spec["files"]):
            rng = np.random.default_rng([spec["seed"], i])
            h, w = f["bs"]
            ok = (h, w) in admit
            ext = {"P": ".npz", "R": ".npz", "S": ".npz", "B": ".bin", "K": ".binpack"}[self.kind]
            if self.kind in "BK" and spec.get("lz4"):
                ext = ".lz4"
            path = os.path.join(root, "f%03d%s" % (i, ext))
            n = f["n"]
            if self.kind == "P":
                arrays = processed_arrays(rng, n, h, w, uid)
                if spec.get("unit"):    # policies that are probabilities
                    arrays["pt"] = arrays["pt"] / 64
                save_npz(path, arrays, f.get("comp", True))
            elif self.kind == "R":
                logical = [(h, w)] * n
                if spec.get("logical"):
                    logical = [tuple(spec["admit"][int(k)]) for k in rng.integers(0, len(spec["admit"]), n)]
                save_npz(path, raw_arrays(rng, n, h, logical, uid)[0], f.get("comp", True))
            elif self.kind == "S":
                arrays = sparse_arrays(rng, n, h, uid)[0]
                arrays["sparseInputDim"] = np.arange(100, 112).astype(np.uint32)
                if spec.get("unit"):
                    arrays["policyTargetsNCHW"] = arrays["policyTargetsNCHW"] // 29
                save_npz(path, arrays, f.get("comp", True))
            elif self.kind == "B":
                blobs = []
                for k in range(n):
                    pos, move = self._unique_position(rng, h, uid + k)
                    ply = len(pos)
                    blobs.append(encode_simple(int(rng.integers(0, 3)), ply, h,
                                               ["freestyle", "standard", "renju"][int(rng.integers(0, 3))], move, pos))
                    self.by_key[(h, "".join(map(cell_name, pos)))] = uid + k
                write_binary(path, blobs)
            else:
                blobs = []
                left = n
                k = uid
                while left > 0:
                    g = int(min(left, rng.integers(1, 5)))
                    pos, _ = self._unique_position(rng, h, k)
                    cells = [(x, y) for x in range(h) for y in range(h) if (x, y) not in pos]
                    rng.shuffle(cells)
                    cells = [tuple(int(v) for v in c) for c in cells]
                    groups = []
                    seq = list(pos)
                    for j in range(g):
                        best = cells[j]
                        group = [(best, int(rng.integers(-500, 500)))]
                        if rng.integers(0, 3) == 0:
                            group.append((cells[-1 - j], int(rng.integers(-500, 500))))
                        groups.append(group)
                        self.by_key[(h, "".join(map(cell_name, seq)))] = k + j
                        seq.append(best)
                    blobs.append(encode_packed(h, ["freestyle", "standard", "renju"][int(rng.integers(0, 3))],
                                               int(rng.integers(0, 3)), len(pos) + g, pos, groups))
                    left -= g
                    k += g
                write_binary(path, blobs)
            if ok:
                shapes = logical if self.kind == "R" else [(h, w)] * n
                self.records += [Rec(uid + k, shapes[k], i, index=k) for k in range(n)]
            self.paths.append(path)
            uid += n
        self.total = uid - self.offset

    @staticmethod
    def _unique_position(rng, bs, uid):
        """An even-length position whose first two moves encode uid (uid < 600 for bs 5)."""
        cells = bs * bs
        a = uid % cells
        b = (a + 1 + (uid // cells) % (cells - 1)) % cells
        rest = [c for c in range(cells) if c not in (a, b)]
        rng.shuffle(rest)
        extra = 2 * int(rng.integers(0, 2))
        pos = [a, b] + [int(c) for c in rest[:extra]]
        return [(c % bs, c // bs) for c in pos], (int(rest[extra]) % bs, int(rest[extra]) // bs)

    def options(self):
        return dict(boardsizes=[tuple(a) for a in self.spec["admit"]])

    def tags(self, data):
        """Identities of the rows of a delivered batch."""
        if self.kind in "PRS":
            return [int(v) for v in np.asarray(data["value_target"])[:, 2]]
        bs = np.asarray(data["board_size"])
        return [self.by_key[(int(b[0]), s)] for b, s in zip(bs, data["position_string"])]


def context(mode="train", seed=0, local=4, world=1, rank=0):
    from dataset.core import DatasetRuntimeContext

    return DatasetRuntimeContext(local * world, local, world, rank, seed, mode)


def np_batch(data):
    """Plain comparable copy of a batch."""
    out = {}
    for k, v in data.items():
        if isinstance(v, list):
            out[k] = [str(x) for x in v]
        else:
            out[k] = np.array(v)
    return out


def same_batch(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        if isinstance(a[k], list) != isinstance(b[k], list):
            return False
        if isinstance(a[k], list):
            if a[k] != b[k]:
                return False
        elif a[k].dtype != b[k].dtype or a[k].shape != b[k].shape or a[k].tobytes() != b[k].tobytes():
            return False
    return True


class Batch:
    """Copy of one delivered batch."""

    def __init__(self, env):
        self.data = np_batch(env.data)
        self.mask = np.array(env.is_real)
        self.keys = tuple(env.sample_keys)
        self.last = env.token.batch.is_last if hasattr(env.token, "batch") else env.token.is_last
        self.epoch = env.token.epoch

    def same(self, other):
        return (same_batch(self.data, other.data) and np.array_equal(self.mask, other.mask)
                and self.keys == other.keys and self.last == other.last and self.epoch == other.epoch)


class Reader:
    """A train/eval consumer of a planned dataset: delivers (batch, mask, keys) and commits as told."""

    def __init__(self, ds):
        self.ds = ds
        self.planner = None
        self.iterator = None

    @property
    def stream(self):
        if self.ds._partitioned_stream is None:
            self.ds._build_partitioned_stream()
        return self.ds._partitioned_stream

    def epoch(self, commit=True, limit=None):
        out = []
        for env in self.ds:
            out.append(Batch(env))
            if commit:
                self.stream.commit_batch(env.token)
            if limit is not None and len(out) >= limit:
                break
        return out


# ---------------------------------------------------------------- generic datasets (single or composite)

def draw_dataset(draw, kinds="PRSBK", composite=True, max_rows=16, max_files=4, min_files=1, lz4=False, sequential_children=True):
    """A dataset description: {'worlds': [...], 'types': [...], options...}."""
    many = composite and draw(st.integers(0, 3)) == 0
    d = dict(shuffle=draw(st.booleans()), window=draw(st.sampled_from([1, 2, 5, 16, 32768])),
             rate=draw(st.sampled_from([1.0, 1.0, 1.0, 0.6])), fixed=draw(st.sampled_from([None, None, None, 9])),
             fixed_side=draw(st.booleans()))
    if many:
        pool = [k for k in kinds if sequential_children or k not in SEQUENTIAL]
        kind = draw(st.sampled_from(pool))
        mix = [kind] if kind not in "PR" or "R" not in pool else [kind, "P", "R"]
        n = draw(st.integers(1, 3))
        d["worlds"] = [draw_world(draw, kinds=[draw(st.sampled_from(mix))], max_rows=max_rows, max_files=2, foreign=False)
                       for _ in range(n)]
        base = 0
        for w in d["worlds"]:
            w["uid0"] = base
            base += sum(f["n"] for f in w["files"])
        d["weights"] = [draw(st.sampled_from([1, 1, 2, 3, 0.5, 0.25])) for _ in range(n)]
        d["sync"] = draw(st.booleans())
    else:
        d["worlds"] = [draw_world(draw, kinds=kinds, max_rows=max_rows, max_files=max_files, min_files=min_files)]
    d["types"] = [draw(st.sampled_from(KIND_TYPES[w["kind"]])) for w in d["worlds"]]
    if any(w["kind"] in SEQUENTIAL for w in d["worlds"]):
        d["streams"], d["quantum"] = draw(st.integers(1, 3)), draw(st.sampled_from([1, 2, 256]))
        for w in d["worlds"]:
            w["lz4"] = lz4 and draw(st.booleans())
    else:
        # augmented binary records lose their identity; they are decided by C07 and C08
        square = all(f["bs"][0] == f["bs"][1] for w in d["worlds"] for f in w["files"])
        d["symmetry"] = draw(st.sampled_from([False, False, True, "default"] + (["rotate", "flip", "flip_diag_rotate180"] if square else [])))
        d["bytes"] = draw(st.sampled_from([None, None, 300, 4096]))
    if not many and d["types"][0].startswith("batched"):
        d["threads"], d["prefetch"] = draw(st.integers(0, 3)), draw(st.integers(1, 6))
    return d


class Built:
    """Files of a dataset description, and the datasets built over them."""

    def __init__(self, d, root):
        self.d = d
        self.worlds = [World(w, os.path.join(root, "w%d" % i)) for i, w in enumerate(d["worlds"])]
        self.composite = "weights" in d

    def options(self, i, **over):
        d = dict(self.d, **over)
        t = d["types"][i]
        o = dict(fixed_side_input=d["fixed_side"])
        if d.get("fixed"):
            o["fixed_board_size"] = (d["fixed"],) * 2
        if "streams" in d and t in ("simple_binary", "packed_binary"):
            o.update(sequential_active_streams=d["streams"], sequential_read_quantum=d["quantum"])
        if d.get("symmetry"):
            o["apply_symmetry"] = d["symmetry"]
        if t.startswith("batched") and not self.composite:
            o.update(prefetch_threads=d.get("threads", 0), prefetch_batches=d.get("prefetch", 4), pin_memory=False)
            if d.get("observability") is not None:
                o["observability"] = d["observability"]
            if d.get("autotune") is not None:
                o["autotune"] = d["autotune"]
        return o

    def build(self, ctx, **over):
        from dataset import build_dataset

        d = dict(self.d, **over)
        kind, paths, args = self.spec(**over)
        if d.get("pipelines"):
            args["pipeline_args"] = d["pipelines"]
        return build_dataset(kind, paths, runtime_context=ctx, shuffle=d["shuffle"], **args)

    def spec(self, **over):
        """(dataset type, paths, arguments): what a trainer is given to use this data."""
        d = dict(self.d, **over)
        common = dict(sample_rate=d["rate"], shuffle_window_size=d["window"])
        if d.get("bytes") is not None:
            common["shuffle_buffer_bytes"] = d["bytes"]
        if d.get("steps"):
            common["steps_per_epoch"] = d["steps"]
        if not self.composite:
            w = self.worlds[0]
            return d["types"][0], list(w.paths), dict(common, **w.options(), **self.options(0, **over))
        children, boards = {}, []
        for i, w in enumerate(self.worlds):
            o = self.options(i, **over)
            fb, side, sym = o.pop("fixed_board_size", None), o.pop("fixed_side_input"), o.pop("apply_symmetry", False)
            children["c%d" % i] = dict(dataset_type=d["types"][i], data_paths=list(w.paths), blend_ratio=d["weights"][i], **o)
            boards += w.options()["boardsizes"]
        extra = dict(fixed_side_input=side, apply_symmetry=sym)
        if fb:
            extra["fixed_board_size"] = fb
        return "iterative_multi", [], dict(common, dataset_dict=children, sync_length=d["sync"], boardsizes=sorted(set(boards)), **extra)

    def tags(self, data):
        if all(w.kind in "PRS" for w in self.worlds):
            return self.worlds[0].tags(data)
        bs = np.asarray(data["board_size"])
        out = []
        for b, s in zip(bs, data["position_string"]):
            out += [w.by_key[(int(b[0]), s)] for w in self.worlds if (int(b[0]), s) in w.by_key][:1]
        return out

    @property
    def resumable(self):
        return not any(w.get("lz4") for w in self.d["worlds"])


class Consumer:
    """Iterates a training dataset over epochs, keeping hold of tokens so that the caller decides what is committed."""

    def __init__(self, ds):
        self.ds = ds
        if ds._partitioned_stream is None:
            ds._build_partitioned_stream()
        self.stream = ds._partitioned_stream
        self.it = None

    def next(self):
        """The next batch (with .token), crossing into the next epoch when the current one has ended."""
        for _ in range(2):
            if self.it is None:
                self.it = iter(self.ds)
            try:
                env = next(self.it)
            except StopIteration:
                self.it = None
                continue
            b = Batch(env)
            b.token = env.token
            return b
        raise AssertionError("epoch without batches")

    def commit(self, batches):
        self.stream.commit_prepared(self.stream.prepare_commit([b.token for b in batches]))

    def abort(self):
        """Stop iterating in the middle: everything uncommitted is rolled back."""
        if self.it is not None:
            self.it.close()
            self.it = None
