"""C16: exported weight files are well formed, and an export never harms the file it replaces."""
import io
import os
import random
import resource
import signal
import struct
import zlib

import lz4.frame
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import dist, runs, train
from vlib.api import Campaign, require

RULE = ("A case is a set of weights, rules, board sizes, a description and an export history with failing calls. Non-trivial: several rules or board sizes, "
        "a description outside ASCII, a fault that hit, a destination that existed before or a choice between several checkpoints.")
ASSUMPTIONS = ["the plumbing is driven with a small test model and serializer registered by the check; real serializers are exported in C17",
               "a failing disk is a failing call (open, replace, link, ...), an exception of the serializer after a generated number of bytes, or a file-size limit of the process",
               "a temporary file beside the destination may stay behind after a failure"]
BUDGET = {"quick": 40, "thorough": 600}
NEEDS_EXT = True
RULES = {"freestyle": 1, "standard": 2, "renju": 4}
TYPES = ["bin", "bin-noheader", "bin-lz4", "bin-lz4-noheader", "txt"]
MAGIC = 0xacd8cc6a


class Broken(Exception):
    pass


STOP = [None]       # the test serializer fails after so many bytes
HASH = [0]


def register():
    from model.serialization import SERIALIZERS, BaseSerializer

    train.register()
    if "verif_tiny" in SERIALIZERS:
        return

    @SERIALIZERS.register("verif_tiny")
    class TinySerializer(BaseSerializer):
        def __init__(self, rules, boardsizes, text_output=False, fold=1, **kw):
            super().__init__(rules, boardsizes, **kw)
            self.text, self.fold = text_output, fold

        @property
        def is_binary(self):
            return not self.text

        def arch_hash(self, model):
            return HASH[0]

        def serialize(self, out, model, device):
            data, done = payload(model, self.fold), 0
            step = max(1, len(data) // 7)
            while done < len(data):
                if STOP[0] is not None and done >= STOP[0]:
                    raise Broken("overflow (injected)")
                part = data[done:done + step]
                out.write(part.hex() + "\n" if self.text else part)
                done += len(part)


def payload(model, fold):
    return b"".join(p.detach().numpy().astype("<f4").tobytes() for p in model.parameters()) * fold


def checkpoint(path, args, seed):
    """Writes a checkpoint with generated weights; returns the model."""
    from model import build_model
    from utils.file_utils import save_torch_ckpt

    model = build_model("verif_tiny", **args)
    gen = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            p.copy_(torch.randn(p.shape, generator=gen))
    with train.quiet():
        save_torch_ckpt(path, model.state_dict(), {}, {"iteration": "1"})
    return model


def do_export(**kw):
    from export import export

    base = dict(checkpoint=None, output=None, rundir=None, export_args={}, model_type="verif_tiny", model_args={}, export_model_args={}, datas=None, train_datas=None,
                dataset_type=None, dataset_args={}, dataloader_args={}, use_cpu=True, config=None)
    with train.quiet():
        export(**dict(base, **kw))


def content(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def parse(data):
    """Independent reader of the documented header: (fields, payload)."""
    require(len(data) >= 20, "the file has only %d bytes", len(data), key="header")
    magic, arch, rules, sizes, n = struct.unpack("<5I", data[:20])
    require(len(data) >= 20 + n, "the description of %d bytes is cut off", n, key="header")
    return (magic, arch, rules, sizes, data[20:20 + n].decode("utf-8")), data[20 + n:]


# ---------------------------------------------------------------- well-formed files

@st.composite
def option_case(draw):
    rules = draw(st.lists(st.sampled_from(sorted(RULES)), min_size=1, max_size=3, unique=draw(st.booleans())))
    how = draw(st.sampled_from(["rule", "rule_list", "rules"]))
    sizes = draw(st.lists(st.one_of(st.integers(1, 32), st.sampled_from([1, 32, 31, 15, 20])), min_size=0, max_size=8))
    bhow = draw(st.sampled_from(["board_size", "board_size_list", "boardsizes", "range", "none"]))
    return dict(rules=rules[:1] if how == "rule" else rules, how=how, sizes=sizes[:1] or [15] if bhow == "board_size" else sizes, bhow=bhow,
                desc=draw(st.one_of(st.none(), st.text(max_size=40), st.sampled_from(["", "五子棋 v1", "a\0b", "x" * 5000]))), seed=draw(st.integers(0, 1 << 20)),
                dim=draw(st.sampled_from([2, 4])), hash=draw(st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(-2 ** 31, 2 ** 40))), fold=draw(st.sampled_from([1, 1, 50])),
                clip=draw(st.sampled_from([None, None, 0.5])), order=draw(st.permutations(TYPES)))


def options(case):
    """(export_args, rule mask, board size mask)"""
    args = {case["how"]: case["rules"][0] if case["how"] == "rule" else list(case["rules"])}
    sizes = case["sizes"]
    if case["bhow"] == "board_size":
        args["board_size"] = sizes[0]
    elif case["bhow"] == "range":
        lo, hi = (min(sizes), max(sizes)) if sizes else (9, 20)
        args.update(min_board_size=lo, max_board_size=hi)
        sizes = range(lo, hi + 1)
    elif case["bhow"] == "none":
        sizes = range(1, 33)
    else:
        args[case["bhow"]] = list(sizes)
    if case["desc"] is not None:
        args["description"] = case["desc"]
    return args, sum({RULES[r] for r in case["rules"]}), sum({1 << (s - 1) for s in sizes})


def option_check(case, ctx):
    register()
    STOP[0], HASH[0] = None, case["hash"]
    path = os.path.join(ctx.tmp, "ckpt_verif_tiny_%d_0000100.pt" % case["dim"])
    model = checkpoint(path, dict(dim=case["dim"]), case["seed"])
    want = payload(model, case["fold"])
    for kind in case["order"]:
        args, rules, sizes = options(case)
        out = os.path.join(ctx.tmp, kind + ".out")
        do_export(checkpoint=path, output=out, export_type=kind, export_args=dict(args, fold=case["fold"]), model_args=dict(dim=case["dim"]),
                  export_model_args={} if case["clip"] is None else {"clip": case["clip"]})
        data = content(out)
        require(data is not None, "%s writes nothing", kind, key="missing")
        if "lz4" in kind:
            data = lz4.frame.decompress(data)
        if kind == "txt":
            require(bytes.fromhex(data.decode().replace("\n", "")) == want, "the text export has other weights", key="payload")
            continue
        if "noheader" not in kind:
            (magic, arch, rule_mask, size_mask, desc), data = parse(data)
            require(magic == MAGIC == zlib.crc32(b"gomoku network weight version 1"), "the magic is %#x", magic, key="header")
            require(arch == case["hash"] & 0xFFFFFFFF, "the architecture hash is %#x, not %#x", arch, case["hash"], key="header")
            require(rule_mask == rules, "the rule mask of %r is %d", case["rules"], rule_mask, key="header")
            require(size_mask == sizes, "the board-size mask of %r is %#x, not %#x", args, size_mask, sizes, key="header")
            require(desc.startswith("model=verif_tiny_%d; %s" % (case["dim"], case["desc"] or "")), "the description is %r", desc, key="header")
        require(data == want, "the payload of %s differs from the weights (%d and %d bytes)", kind, len(data), len(want), key="payload")
    ctx.nontrivial(len(set(case["rules"])) > 1 or bin(sizes).count("1") > 1 or bool(case["desc"] and not case["desc"].isascii()))
    ctx.label(case["bhow"])


# ---------------------------------------------------------------- refused requests

BAD = [{}, {"rule": "gomoku"}, {"rules": []}, {"rules": ["freestyle", "free"]}, {"rule_list": "freestyle"}, {"rule": "Renju"}]
BAD_SIZES = [{"board_size": 0}, {"board_size": 33}, {"boardsizes": [15, -1]}, {"board_size": "15"}, {"board_size_list": 15}, {"min_board_size": 0, "max_board_size": 5},
             {"min_board_size": 20, "max_board_size": 40}, {"boardsizes": [15.5]}]


@st.composite
def refuse_case(draw):
    which = draw(st.sampled_from(["rule", "rule", "size", "size", "type", "model", "checkpoint", "rundir", "option", "none"]))
    kinds = TYPES + ["onnx"] if which in ("rule", "size") else TYPES
    return dict(which=which, bad=draw(st.integers(0, 7)), kind=draw(st.sampled_from(kinds)), old=draw(st.booleans()), seed=draw(st.integers(0, 999)))


def refuse_check(case, ctx):
    register()
    STOP[0], HASH[0] = None, 1
    path = os.path.join(ctx.tmp, "ckpts", "ckpt_verif_tiny_4_0000100.pt")
    checkpoint(path, {}, case["seed"])
    out = os.path.join(ctx.tmp, "weights.bin")
    if case["old"]:
        with open(out, "wb") as f:
            f.write(b"old weights")
    before = content(out)
    which = case["which"]
    args = {"rule": "renju", "board_size": 15}
    kw = dict(checkpoint=path, output=out, export_type=case["kind"])
    if which == "rule":
        args = dict(BAD[case["bad"] % len(BAD)], board_size=15)
    elif which == "size":
        args = dict(BAD_SIZES[case["bad"]], rule="renju")
    elif which == "type":
        kw["export_type"] = ["", "binary", "zip", "BIN"][case["bad"] % 4]
    elif which == "model":
        kw["model_type"] = ["resnet9", "resnet"][case["bad"] % 2]
    elif which == "checkpoint":
        kw["checkpoint"] = path + "x" if case["bad"] % 2 else os.path.dirname(path)
    elif which == "rundir":
        kw.update(checkpoint=None, rundir=os.path.join(ctx.tmp, "other") if case["bad"] % 2 else None)
    elif which == "option":
        args["scale"] = 3
    else:
        kw["model_args"] = dict(dim=6)      # does not fit the checkpoint
    files = {f: content(os.path.join(ctx.tmp, f)) for f in os.listdir(ctx.tmp) if not os.path.isdir(os.path.join(ctx.tmp, f))}
    try:
        do_export(export_args=args, **kw)
        raised = None
    except (Exception, SystemExit) as e:
        raised = e
    require(raised is not None, "the request %r with %r is accepted", kw, args, key="accepted")
    require(content(out) == before, "the refused request %r with %r changed the destination", kw, args, key="destination")
    now = {f: content(os.path.join(ctx.tmp, f)) for f in os.listdir(ctx.tmp) if not os.path.isdir(os.path.join(ctx.tmp, f))}
    require(now == files, "the refused request %r with %r wrote %r", kw, args, sorted(set(now) - set(files)), key="written")
    ctx.nontrivial(case["old"])
    ctx.label(which)


# ---------------------------------------------------------------- failing exports

@st.composite
def fault_case(draw):
    return dict(kind=draw(st.sampled_from(TYPES)), seed=draw(st.integers(0, 1 << 20)), old=draw(st.booleans()), fold=draw(st.sampled_from([1, 40, 400])),
                limits=draw(st.lists(st.integers(0, 1000), min_size=2, max_size=4)), stops=draw(st.lists(st.integers(0, 1000), min_size=1, max_size=3)))


def attempt(kw, root, fault):
    """Body of a forked process: one export with a fault."""
    STOP[0] = None
    faults = runs.Faults(root, *(fault[1:] if fault and fault[0] == "call" else ()), files=True)
    if fault and fault[0] == "limit":
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], resource.RLIM_INFINITY))
    elif fault and fault[0] == "stop":
        STOP[0] = fault[1]
    faults.install()
    try:
        do_export(**kw)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    return len(faults.log)


def fault_check(case, ctx):
    import export  # noqa: F401 - forks inherit the import

    register()
    HASH[0] = case["seed"]
    path = os.path.join(ctx.tmp, "ckpt_verif_tiny_4_0000100.pt")
    old = checkpoint(path, {}, case["seed"] + 1)
    out = os.path.join(ctx.tmp, "out", "weights")
    os.makedirs(os.path.dirname(out))

    def kw():
        return dict(checkpoint=path, output=out, export_type=case["kind"], export_args={"rule": "renju", "boardsizes": [15], "fold": case["fold"]})

    def weights(data):
        """The weights in a complete file; anything else fails to parse."""
        if "lz4" in case["kind"]:
            data = lz4.frame.decompress(data)
        if case["kind"] == "txt":
            return bytes.fromhex(data.decode().replace("\n", ""))
        return data if "noheader" in case["kind"] else parse(data)[1]
    held = None
    if case["old"]:
        require(dist.run([(attempt, (kw(), out, None))], ctx.tmp)[0].value is not None, "the export fails", key="run")
        held = payload(old, case["fold"])
    new = payload(checkpoint(path, {}, case["seed"]), case["fold"])
    size = len(new) * (2 if case["kind"] == "txt" else 1)
    faults = [("call", k, m) for k in range(3) for m in ("kill-before", "kill-after", "raise-before", "raise-after")]
    faults += [("limit", size * f // 1000) for f in case["limits"]] + [("stop", len(new) * f // 1000) for f in case["stops"]] + [None]
    for fault in faults:
        res = dist.run([(attempt, (kw(), os.path.dirname(out), fault))], ctx.tmp)[0]
        what = "an export (%s)" % (fault,)
        require(fault or res.value is not None, lambda: "an export without fault fails: %s" % (res.error or res.died), key="run")
        now = content(out)
        ctx.label("%s %s" % (fault[0], "hit" if res.value is None else "missed") if fault else "no fault")
        ctx.nontrivial(res.value is None)
        if now is None:
            require(res.value is None and held is None, "%s %s", what, "lost the destination" if held else "reports success without a file", key="destination")
            continue
        try:
            have = weights(now)
        except Exception as e:
            require(False, "%s leaves an incomplete file: %r", what, e, key="destination")
        require(have == new or (have == held and res.value is None), "%s leaves a file that is neither complete nor the previous one (%d of %d bytes)",
                what, len(have), len(new), key="destination")
        held = have


# ---------------------------------------------------------------- which checkpoint, which destination

@st.composite
def latest_case(draw):
    ops = draw(st.lists(st.one_of(st.tuples(st.just("save"), st.sampled_from(["ckpts", "ckpts", "."]), st.integers(1, 30)),
                                  st.tuples(st.just("export"), st.sampled_from(TYPES + ["torch-jit", "torch-jit"]), st.booleans())), min_size=2, max_size=6))
    return dict(ops=[["save", "ckpts", 3]] * draw(st.integers(0, 1)) + [list(o) for o in ops], seed=draw(st.integers(0, 1 << 20)))


def sample_data(root):
    from vlib.data import Built

    spec = dict(shuffle=False, window=1, rate=1.0, fixed=None, fixed_side=False, symmetry=False, bytes=None, types=["iterative_processed_katago_numpy"],
                worlds=[dict(kind="P", files=[dict(bs=[5, 5], n=2, comp=False)], admit=[[5, 5]], seed=0, uid0=0)])
    kind, paths, args = Built(spec, root).spec()
    return dict(datas=paths, dataset_type=kind, dataset_args={k: v for k, v in args.items() if k != "shuffle"})


def latest_check(case, ctx):
    register()
    STOP[0], HASH[0] = None, 7
    data = sample_data(os.path.join(ctx.tmp, "data"))
    rundir = os.path.join(ctx.tmp, "run")
    os.makedirs(os.path.join(rundir, "ckpts"))
    saved = {}
    for k, op in enumerate(case["ops"]):
        if op[0] == "save":
            name = os.path.join(rundir, op[1], "ckpt_verif_tiny_4_%07d.pt" % op[2])
            saved[(op[1], op[2])] = (os.path.normpath(name), checkpoint(name, {}, case["seed"] + k))
            continue
        new = [key for key in saved if key[0] == "ckpts"] or list(saved)
        out = None if op[2] else os.path.join(ctx.tmp, "out.%d" % k)
        try:
            do_export(rundir=rundir, output=out, export_type=op[1], export_args={} if op[1] == "torch-jit" else {"rule": "renju", "board_size": 15}, **data)
        except RuntimeError as e:
            require(not new, "export %d (%r) of the latest checkpoint fails: %s", k, op, str(e)[:300], key="latest")
            continue
        except Exception as e:
            require(False, "export %d (%r) of the latest checkpoint fails: %r", k, op, e, key="latest")
        require(new, "an empty run folder is exported", key="latest")
        name, model = saved[max(new, key=lambda key: key[1])]
        path = out or "%s_export.%s" % (os.path.splitext(name)[0], {"txt": "txt", "torch-jit": "pt"}.get(op[1], "bin.lz4" if "lz4" in op[1] else "bin"))
        require(os.path.exists(path), "%r of %s does not write %s", op, name, path, key="destination")
        if op[1] == "torch-jit":
            model.eval()
            board, stm = torch.randint(0, 2, (3, 2, 6, 5)).to(torch.int8), torch.zeros(3, 1)
            with torch.no_grad():
                got, want = torch.jit.load(path)(board, stm), model({"board_input": board, "stm_input": stm})
            require(torch.allclose(got[0], want["value"], atol=1e-5) and torch.allclose(got[1], want["policy"], atol=1e-5), "the exported graph computes something else", key="payload")
        else:
            have = content(path)
            have = lz4.frame.decompress(have) if "lz4" in op[1] else have
            have = bytes.fromhex(have.decode().replace("\n", "")) if op[1] == "txt" else have if "noheader" in op[1] else parse(have)[1]
            require(have == payload(model, 1), "export %d (%r) has not the weights of %s", k, op, name, key="latest")
        ctx.nontrivial(len(new) > 1 or k > 1)
        ctx.label(op[1])


# ---------------------------------------------------------------- metadata of ONNX files

@st.composite
def version_case(draw):
    return dict(io=draw(st.one_of(st.integers(1, 0x7FFF), st.sampled_from([1, 0x7FFF]))), rules=draw(st.lists(st.sampled_from(sorted(RULES)), unique=True)),
                sizes=draw(st.lists(st.integers(1, 32), unique=True)))


def version_check(case, ctx):
    from export import make_onnx_model_version, parse_onnx_model_version

    v = make_onnx_model_version(case["io"], case["rules"], case["sizes"])
    want = (case["io"] << 48) + (sum(RULES[r] for r in case["rules"]) << 32) + sum(1 << (s - 1) for s in case["sizes"])
    require(v == want and v < 2 ** 63, "the version of %r is %#x", case, v, key="onnx")
    io_, rules, sizes = parse_onnx_model_version(v)
    require((io_, sorted(rules), sorted(sizes)) == (case["io"], sorted(case["rules"]), sorted(case["sizes"])), "%#x is read as %r", v, (io_, rules, sizes), key="onnx")
    ctx.nontrivial(len(case["rules"]) > 1)


CAMPAIGNS = [
    Campaign("options", option_case, option_check, 160, 3000, shards=2, case_timeout=60),
    Campaign("refused", refuse_case, refuse_check, 160, 2000, shards=1, case_timeout=60),
    Campaign("faults", fault_case, fault_check, 48, 600, shards=4, case_timeout=100),
    Campaign("latest", latest_case, latest_check, 60, 800, shards=2, case_timeout=100),
    Campaign("version", version_case, version_check, 300, 5000, shards=1),
]
