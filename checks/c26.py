"""C26: data files are split and listed without loss."""
import contextlib
import io
import os
import random
import runpy
import shutil
import sys

import numpy as np
import torch
from hypothesis import strategies as st

from dataset.stream import collate_sample_dicts, reject_duplicate_physical_files
from utils.data_utils import Move
from utils.file_utils import make_file_list
from utils.training_utils import BatchByBoardSizeDataset
from vlib.api import Campaign, require

RULE = ("A case is an NPZ file with parallel arrays to split, a tree of files and links to list, a set of samples to collate or a stream to group "
        "by board size. Non-trivial: at least two parts, files, samples or groups.")
ASSUMPTIONS = ["the split tool runs in this process with its own argv, inside a scratch directory",
               "directory entries are offered in a generated order by a stand-in for os.scandir / os.listdir"]
BUDGET = {"quick": 40, "thorough": 500}
NEEDS_EXT = False
REPO = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["utils.file_utils"].__file__)))
DTYPES = ["int8", "uint8", "float32", "float16", "int64", "bool", "S3", "U2"]


# ---- splitting ---------------------------------------------------------------

def split_cases(draw):
    n = draw(st.integers(1, 30))
    keys = draw(st.lists(st.sampled_from(["binaryInputNCHWPacked", "a", "b", "policy", "x_y", "globalInputNC", "zz"]), min_size=1, max_size=5,
                         unique=True))
    arrays = [[k, draw(st.sampled_from(DTYPES)), draw(st.lists(st.integers(1, 3), max_size=2))] for k in keys]
    same = draw(st.sampled_from([True, True, True, False]))
    if not same:
        arrays[0].append(draw(st.integers(1, 8)))
    return dict(n=n, arrays=arrays, splits=draw(st.integers(1, n)), shuffle=draw(st.booleans()),
                exclude=draw(st.lists(st.sampled_from(keys + ["nosuch"]), max_size=2, unique=True)),
                out=draw(st.sampled_from(["dir", "nested", "default", "bare"])), name=draw(st.sampled_from(["d.npz", "my.data.npz", "d_0000.npz"])),
                seed=draw(st.integers(0, 2**31)), compressed=draw(st.booleans()))


def filled(rng, dtype, shape):
    if dtype in ("S3", "U2"):
        pool = np.array([b"ab", b"", b"xyz"] if dtype == "S3" else ["é1", "", "zz"], dtype)
        return pool[rng.integers(0, 3, shape)]
    if dtype == "bool":
        return rng.integers(0, 2, shape).astype(bool)
    if dtype.startswith("float"):
        return rng.standard_normal(shape).astype(dtype)
    return rng.integers(-100 if dtype[0] == "i" else 0, 100, shape).astype(dtype)


def run_split(argv, cwd):
    old = sys.argv, os.getcwd()
    out = io.StringIO()
    try:
        sys.argv = ["npzsplit.py"] + argv
        os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(os.path.join(REPO, "tools", "npzsplit.py"), run_name="__main__")
            except SystemExit as exc:
                return int(bool(exc.code)), out.getvalue()
            except AssertionError as exc:
                return 1, str(exc)
        return 0, out.getvalue()
    finally:
        sys.argv = old[0]
        os.chdir(old[1])


def check_split(c, ctx):
    rng = np.random.default_rng(c["seed"])
    data = {}
    for k, dtype, shape, *rows in c["arrays"]:
        n = c["n"] + (rows[0] if rows else 0)
        data[k] = filled(rng, dtype, [n, *shape])
    tag = np.arange(c["n"])
    data["uid"] = tag
    folder = os.path.join(ctx.tmp, "in put")
    os.makedirs(folder)
    source = os.path.join(folder, c["name"])
    (np.savez_compressed if c["compressed"] else np.savez)(source, **data)
    content = open(source, "rb").read()
    out = folder
    argv = [source, "-s", str(c["splits"])]
    cwd = ctx.tmp
    if c["out"] == "dir":
        out = os.path.join(ctx.tmp, "out")
        os.makedirs(out)
        argv += ["-o", out]
    elif c["out"] == "nested":
        out = os.path.join(ctx.tmp, "a", "b")
        argv += ["--outdir", out]
    elif c["out"] == "bare":
        argv[0] = c["name"]
        cwd = folder
    if c["shuffle"]:
        argv.append("--shuffle")
    if c["exclude"]:
        argv += ["--exclude_keys"] + c["exclude"]
    np.random.seed(c["seed"] % 1000)
    code, text = run_split(argv, cwd)
    kept = {k: v for k, v in data.items() if k not in c["exclude"]}
    mismatched = len({len(v) for v in kept.values()}) > 1
    if mismatched and c["shuffle"]:
        require(code != 0, "arrays of different lengths are shuffled together")
        require(sorted(os.listdir(folder)) == [c["name"]], "a refused split leaves files")
        ctx.label("refused")
        return
    require(code == 0, "the tool fails: %s", text[-300:])
    require(open(source, "rb").read() == content, "the input file changed")
    files = sorted(f for f in os.listdir(out) if os.path.join(out, f) != source)
    require(len(files) == c["splits"], "%d files for %d parts: %s", len(files), c["splits"], files)
    stem = os.path.splitext(c["name"])[0]
    require(all(f.startswith(stem + "_") and f.endswith(".npz") for f in files), "file names %s", files)
    parts = [dict(np.load(os.path.join(out, f))) for f in files]
    for k in kept:
        require(all(k in p for p in parts), "array %s is missing from a part", k)
    for p in parts:
        require(set(p) == set(kept), "a part has the arrays %s", sorted(p))
        for k, v in p.items():
            require(v.dtype == data[k].dtype and v.shape[1:] == data[k].shape[1:], "array %s changes type or shape", k)
    if "uid" in kept and not mismatched:
        uids = np.concatenate([p["uid"] for p in parts])
        require(sorted(uids.tolist()) == tag.tolist(), "rows %s come out of the split", sorted(uids.tolist()))
        sizes = [len(p["uid"]) for p in parts]
        require(max(sizes) - min(sizes) <= 1, "parts of %s rows", sizes)
        for p in parts:
            for k, v in p.items():
                require(v.tobytes() == data[k][p["uid"]].tobytes(), "array %s is no longer aligned with the others", k)
        if c["shuffle"] and c["n"] >= 25 and c["splits"] == 1:
            require(uids.tolist() != tag.tolist(), "--shuffle does not shuffle")
    else:
        for k, v in kept.items():
            got = np.concatenate([p[k] for p in parts])
            require(sorted(r.tobytes() for r in got) == sorted(r.tobytes() for r in v), "the rows of %s are not kept", k)
    ctx.nontrivial(c["splits"] >= 2)
    ctx.label("shuffled", c["shuffle"])
    ctx.label("excluded", len(kept) < len(data))


# ---- listing -----------------------------------------------------------------

NAMES = ["a.npz", "b.npz", "a10.npz", "a9.npz", "B.npz", "c.bin", "d.lz4", "noext", ".hidden.npz", "x.npz.tmp", "e.bin.lz4"]
DIRS = ["d1", "d2", "d10", "D", "sub.npz"]


def list_cases(draw):
    files = draw(st.lists(st.tuples(st.lists(st.sampled_from(DIRS), max_size=3), st.sampled_from(NAMES)), min_size=1, max_size=12, unique_by=str))
    roots = draw(st.lists(st.one_of(st.just(["top"]), st.tuples(st.just("sub"), st.sampled_from(DIRS)).map(list),
                                    st.tuples(st.just("file"), st.integers(0, 11)).map(list)), min_size=1, max_size=3, unique_by=str))
    return dict(files=[[list(d), f] for d, f in files], roots=roots, exts=draw(st.sampled_from([None, [".npz"], [".npz", ".bin"], [".lz4"]])),
                seeds=[draw(st.integers(0, 1000)), draw(st.integers(0, 1000))], missing=draw(st.sampled_from([False] * 6 + [True])))


@contextlib.contextmanager
def shuffled_directories(seed):
    rng = random.Random(seed)
    scandir, listdir = os.scandir, os.listdir

    class Entries:
        def __init__(self, path):
            with scandir(path) as it:
                self.items = list(it)
            self.items.sort(key=lambda e: e.name if isinstance(e.name, str) else os.fsdecode(e.name))
            rng.shuffle(self.items)
            self.iter = iter(self.items)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.iter)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass

        def close(self):
            pass

    def listing(path="."):
        out = sorted(listdir(path))
        rng.shuffle(out)
        return out
    os.scandir, os.listdir = lambda path=".": Entries(path), listing
    try:
        yield
    finally:
        os.scandir, os.listdir = scandir, listdir


def check_list(c, ctx):
    top = os.path.join(ctx.tmp, "top")
    os.makedirs(top)
    made = []
    for d, f in c["files"]:
        path = os.path.join(top, *d)
        if any(os.path.isfile(os.path.join(top, *d[:i + 1])) for i in range(len(d))):
            continue
        os.makedirs(path, exist_ok=True)
        full = os.path.join(path, f)
        if not os.path.exists(full):
            with open(full, "w") as out:
                out.write(full)
            made.append(full)
    roots = []
    for kind, *arg in c["roots"]:
        path = top if kind == "top" else os.path.join(top, arg[0]) if kind == "sub" else made[arg[0] % len(made)]
        if os.path.exists(path) and path not in roots:
            roots.append(path)
    if c["missing"]:
        roots.append(os.path.join(top, "nothing here"))
    if not roots:
        return
    results = []
    for seed in c["seeds"]:
        with shuffled_directories(seed):
            try:
                results.append(make_file_list(list(roots), c["exts"]))
            except (OSError, ValueError):
                results.append(None)
    require(results[0] == results[1], lambda: f"the order depends on the file system: {results}")
    if c["missing"]:
        require(results[0] is None, "a path that does not exist is ignored")
        return
    want = []
    for r in roots:
        if os.path.isfile(r):
            want.append(r)
        else:
            want += [f for f in made if f.startswith(r + os.sep) and (c["exts"] is None or os.path.splitext(f)[1] in c["exts"])]
    require(results[0] is not None, "listing fails")
    require(sorted(results[0]) == sorted(want), lambda: f"listing gives {sorted(results[0])}, the files are {sorted(want)}")
    pos = 0
    for r in roots:                                # roots are kept in the order given
        mine = [f for f in want if f == r or f.startswith(r + os.sep)]
        block = results[0][pos:pos + len(mine)] if len(roots) == 1 or not overlapping(roots) else None
        if block is not None:
            require(sorted(block) == sorted(mine), "paths are not listed in the order given")
            pos += len(mine)
    ctx.nontrivial(len(want) >= 2)
    try:
        norm = reject_duplicate_physical_files(results[0])
        require(len(set(want)) == len(want), "the same file twice is accepted")
        require([os.path.samefile(a, b) for a, b in zip(norm, results[0])] == [True] * len(want), "paths are reordered")
    except ValueError:
        require(len(set(want)) < len(want), "different files are taken for the same one")
        ctx.label("duplicates refused")


def overlapping(roots):
    return any(a != b and b.startswith(a + os.sep) for a in roots for b in roots)


def dup_cases(draw):
    return dict(n=draw(st.integers(1, 4)), refs=draw(st.lists(st.tuples(st.sampled_from(["plain", "symlink", "hardlink", "dotdot", "relative", "linkdir", "copy"]),
                                                                      st.integers(0, 3)).map(list), min_size=1, max_size=5)))


def check_dup(c, ctx):
    base = os.path.join(ctx.tmp, "data")
    os.makedirs(base)
    names = []
    for i in range(c["n"]):
        names.append(os.path.join(base, f"f{i}.npz"))
        with open(names[-1], "w") as out:
            out.write("same content")
    os.symlink(base, os.path.join(ctx.tmp, "alias"))
    paths, ids = [], []
    for j, (kind, i) in enumerate(c["refs"]):
        i %= c["n"]
        p, ident = names[i], i
        if kind in ("symlink", "hardlink"):
            p = os.path.join(ctx.tmp, f"link{j}.npz")
            (os.symlink if kind == "symlink" else os.link)(names[i], p)
        elif kind == "dotdot":
            p = os.path.join(base, "..", "data", f"f{i}.npz")
        elif kind == "relative":
            p = os.path.relpath(names[i])
        elif kind == "linkdir":
            p = os.path.join(ctx.tmp, "alias", f"f{i}.npz")
        elif kind == "copy":
            p, ident = os.path.join(ctx.tmp, f"copy{j}.npz"), ("copy", j)
            shutil.copy(names[i], p)
        paths.append(p)
        ids.append(ident)
    clash = len(set(ids)) < len(ids)
    try:
        out = reject_duplicate_physical_files(iter(paths))
    except ValueError:
        require(clash, "distinct files %s are refused", c["refs"])
        ctx.label("refused")
    else:
        require(not clash, "the same physical file is accepted twice: %s", c["refs"])
        require(len(out) == len(paths) and all(map(os.path.samefile, out, paths)), "the returned paths are other files")
        require(all(map(os.path.isabs, out)), "a returned path is relative")
    ctx.nontrivial(len(paths) >= 2)


# ---- collating -----------------------------------------------------------------

OPTIONAL = ["rule_index", "ply", "raw_eval", "sparse_feature_input", "sparse_feature_dim", "position", "position_string", "last_move", "forbidden_point",
            "line_encoding", "line_encoding_total_num"]


def collate_cases(draw):
    return dict(n=draw(st.integers(1, 6)), h=draw(st.integers(3, 6)), w=draw(st.integers(3, 6)), pad=draw(st.sampled_from([0, 0, 2])),
                fields=draw(st.lists(st.sampled_from(OPTIONAL), max_size=6, unique=True)), torch=draw(st.booleans()), valid=draw(st.booleans()),
                policy=draw(st.sampled_from(["plane", "flat", "flatpass"])), seed=draw(st.integers(0, 2**31)),
                fault=draw(st.sampled_from([None, None, None, "schema", "shared", "size", "empty", "missing", "unknown"])), at=draw(st.integers(0, 5)))


def make_samples(c):
    rng = np.random.default_rng(c["seed"])
    H, W = c["h"] + c["pad"], c["w"] + c["pad"]
    shared_dim, total = rng.integers(1, 9, 4), np.int64(rng.integers(5, 99))
    out = []
    for i in range(c["n"]):
        s = dict(board_size=np.array([c["h"], c["w"]], np.int8), board_input=rng.integers(0, 2, (2, H, W)).astype(np.int8),
                 stm_input=np.float32(rng.choice([-1, 1])), value_target=rng.random(3).astype(np.float32))
        s["policy_target"] = rng.random((H, W) if c["policy"] == "plane" else H * W + (c["policy"] == "flatpass")).astype(np.float32)
        extra = dict(rule_index=np.int32(i), ply=np.int64(i + 3), raw_eval=np.float32(i / 3), position=[Move(i, j) for j in range(i % 3)], position_string=f"p{i}é",
                     sparse_feature_input=rng.integers(0, 99, (4, H, W)).astype(np.int64), sparse_feature_dim=shared_dim.copy(),
                     last_move=rng.integers(0, 5, 2), forbidden_point=rng.integers(0, 2, (H, W)).astype(np.int8),
                     line_encoding=rng.integers(0, 9, (4, H, W)).astype(np.int64), line_encoding_total_num=total)
        s.update({k: extra[k] for k in c["fields"]})
        if c["torch"]:
            s = {k: torch.as_tensor(v) if isinstance(v, np.ndarray) else v for k, v in s.items()}
        if c["policy"] == "flat" and c["valid"]:
            s["policy_target"] = s["policy_target"].reshape(H, W)
        if c["seed"] % 2:                       # key order of later rows must not matter
            s = dict(sorted(s.items(), reverse=bool(i % 2)))
        out.append(s)
    return out


def check_collate(c, ctx):
    samples = make_samples(c)
    at = c["at"] % c["n"]
    fault = c["fault"]
    if fault == "schema":
        if c["n"] < 2:
            return
        samples[at].pop("value_target")
    elif fault == "shared":
        if c["n"] < 2 or "sparse_feature_dim" not in c["fields"]:
            return
        samples[at]["sparse_feature_dim"] = samples[at]["sparse_feature_dim"] + 1
    elif fault == "size":
        samples[at]["board_input"] = samples[at]["board_input"][:, : c["h"] - 1]
    elif fault == "empty":
        samples = []
    elif fault == "missing":
        for s in samples:
            s.pop("stm_input")
    elif fault == "unknown":
        for s in samples:
            s["surprise"] = np.float32(1)
    copies = [dict(s) for s in samples]
    lenient = fault in ("missing", "unknown") and not c["valid"]
    try:
        batch = collate_sample_dicts(samples, validate_core_fields=c["valid"])
    except (ValueError, TypeError) as exc:
        require(fault is not None and not lenient, "good samples are refused: %s", exc)
        ctx.label("refused")
        return
    require(fault is None or lenient, "a batch with a fault (%s) is accepted", fault)
    require(set(batch) == set(samples[0]), "fields %s come out", sorted(batch))
    for k, v in batch.items():
        require(len(v) == c["n"], "field %s has %d rows", k, len(v))
        for i, s in enumerate(copies):
            a, b = v[i], s[k]
            if k in ("position", "position_string"):
                require(a == b, "row %d of %s is %s", i, k, a)
            else:
                a, b = np.asarray(a), np.asarray(b)
                require(a.dtype == b.dtype and a.shape == (b.shape or a.shape) and a.size == b.size and a.tobytes() == b.tobytes(), "row %d of field %s differs", i, k)
    require(all(x.keys() == y.keys() and all(x[k] is y[k] for k in x) for x, y in zip(samples, copies)), "the samples were changed")
    ctx.nontrivial(c["n"] >= 2)


# ---- grouping by board size ---------------------------------------------------

def group_cases(draw):
    return dict(sizes=draw(st.lists(st.sampled_from([[5, 5], [6, 6], [5, 6], [6, 5]]), max_size=40)), batch=draw(st.integers(1, 6)),
                take=draw(st.one_of(st.none(), st.integers(0, 20))))


def check_group(c, ctx):
    data = [dict(board_size=np.array(s), uid=i) for i, s in enumerate(c["sizes"])]
    ds = BatchByBoardSizeDataset(data, c["batch"])
    want = {}
    for s in data:
        want.setdefault(tuple(s["board_size"]), []).append(s["uid"])
    for _ in range(2):
        it = iter(ds)
        out = []
        for x in it:
            out.append(x)
            if c["take"] is not None and len(out) >= c["take"]:
                it.close()
                break
        require(all(x is data[x["uid"]] for x in out), "a sample was changed")
        if c["take"] is None or len(out) < c["take"]:
            for size, ids in want.items():
                got = [x["uid"] for x in out if tuple(x["board_size"]) == size]
                full = ids[:len(ids) // c["batch"] * c["batch"]]
                require(sorted(got) == full, lambda: f"size {size}: rows {got}, expected {full} in batches of {c['batch']}")
        require(len({x["uid"] for x in out}) == len(out), "a sample comes twice")
        for i in range(0, len(out), c["batch"]):
            require(len({tuple(x["board_size"]) for x in out[i:i + c["batch"]]}) == 1, "a batch mixes board sizes")
    ctx.nontrivial(len(want) >= 2 and len(c["sizes"]) >= c["batch"])


CAMPAIGNS = [
    Campaign("split", lambda: st.composite(split_cases)(), check_split, 300, shards=3),
    Campaign("list", lambda: st.composite(list_cases)(), check_list, 400, shards=2),
    Campaign("physical files", lambda: st.composite(dup_cases)(), check_dup, 300, shards=1),
    Campaign("collate", lambda: st.composite(collate_cases)(), check_collate, 500, shards=2),
    Campaign("group", lambda: st.composite(group_cases)(), check_group, 300, shards=1),
]
