"""C21: interrupted and resumed training equals training that was never interrupted."""
import glob
import hashlib
import os
import re
import shutil

import torch
from hypothesis import strategies as st

from vlib import keops, runs, train
from vlib.data import MAP_TYPES, Built
from vlib.api import Campaign, Reject, require

RULE = ("A case is a training configuration over generated files and one to three interruptions (a forward pass, or a file-system call of the run, at which the "
        "process is killed or an exception is raised). Non-trivial: an interruption happened and training continued from a saved state later than the start.")
ASSUMPTIONS = ["one thread per process; results are compared bit for bit",
               "a configuration on which the uninterrupted reference run finds no batch at all is rejected",
               "a kill is the end of the process at the chosen call (what the call wrote before stays; no lost page cache)"]
BUDGET = {"quick": 75, "thorough": 780}
NEEDS_EXT = True
EMPTY = ("produced no global batch", "no batch is available", "produced no admitted records", "non-finite loss, metric")


def stops(draw, max_stops, world):
    out = []
    for _ in range(draw(st.integers(1, max_stops))):
        at = draw(st.integers(0, 999))
        if draw(st.integers(0, 2)):
            out.append(["call", at, draw(st.sampled_from(["kill", "kill", "raise", "interrupt"])) + "-" + draw(st.sampled_from(["before", "after", "torn"]))])
        else:
            out.append(["step", at, draw(st.sampled_from(["kill", "raise", "raise", "interrupt"])), draw(st.sampled_from(runs.POINTS)),
                        draw(st.integers(0, world - 1)) if world > 1 and draw(st.booleans()) else None])
    return out


@st.composite
def case(draw, world=1):
    job = runs.draw_job(draw, world=world)
    return dict(job=job, world=world, stops=stops(draw, 3 if world == 1 else 2, world))


@st.composite
def pair(draw):
    return draw(case(2))


def saved(rundir):
    its = [int(m.group(1)) for p in glob.glob(os.path.join(rundir, "ckpts", "state_*.pt")) for m in [re.fullmatch(r"state_(\d+)\.pt", os.path.basename(p))] if m]
    return max(its, default=0)


def lines(rundir, kind):
    """{iteration: [logged values]} of the train or validation lines."""
    out = {}
    path = os.path.join(rundir, "training_log.jsonl")
    for line in train.log_lines(rundir) if os.path.exists(path) else []:
        if kind in line:
            keep = {k: line[k] for k in ("train_loss", "train_aux", "val_loss", "val_aux", "num_val_entries", "epoch") if k in line}
            if "running_stat" in line:
                keep["at"] = {k: line["running_stat"].get(k) for k in ("epoch", "row", "rows", "lr")}
            out.setdefault(line["it"], []).append(keep)
    return out


def check(case, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job, world = case["job"], case["world"]
    kw = runs.settings(job, ctx.tmp)
    first, second = os.path.join(ctx.tmp, "a"), os.path.join(ctx.tmp, "b")
    out = runs.run(kw, first, ctx.tmp, None, world)
    if any(o.error and any(e in o.error for e in EMPTY) for o in out):
        raise Reject("no batch")
    require(all(o.value for o in out), lambda: "the uninterrupted run fails: %s" % [o.error or o.died for o in out], key="reference")
    ref = out[0].value
    require(ref["iteration"] == job["iterations"], "the run ends at iteration %d", ref["iteration"])
    fired = resumed = 0
    for kind, at, mode, *where in case["stops"]:
        total = len(ref["calls"]) if kind == "call" else ref["points"][where[0]]
        if where and where[0] == "backward" and where[1] is not None and mode != "kill":
            mode = "kill"      # nothing promises that the other ranks learn of it
        out = runs.run(kw, second, ctx.tmp, (kind, at * total // 1000, mode, *where), world)
        if all(o.value for o in out):
            break
        for o in out:
            injected = o.died == runs.KILLED or o.error and ("injected" in o.error or "KeyboardInterrupt" in o.error)
            require(injected or world > 1, lambda: "the interrupted run ends otherwise: %s" % (o.error or o.died), key="run")
        fired += 1
        ctx.label("%s %s" % (where[0] if where else kind, mode))
        resumed += saved(second) > 0
    latest = saved(second)
    out = runs.run(kw, second, ctx.tmp, None, world)
    require(all(o.value for o in out), lambda: "the resumed run fails: %s" % [o.error or o.died for o in out], key="resume")
    require(out[0].value["start"] == latest, "training continues from iteration %d although a state of iteration %d was saved", out[0].value["start"], latest)
    compare(first, second, job, ref, out[0].value)
    ctx.label("never interrupted", not fired)
    ctx.nontrivial(fired and resumed)


def compare(first, second, job, ref, got):
    n = job["iterations"]
    for name in ("iteration", "epoch", "rows"):
        require(ref[name] == got[name], "%s is %r at the end, not %r", name, got[name], ref[name])
    for kind in ("train_loss", "val_loss"):
        x, y = lines(first, kind), lines(second, kind)
        every = range(1, n + 1) if kind == "train_loss" else [i for i in range(1, n + 1) if job["val"] and i % job["val"] == 0]
        require(sorted(x) == sorted(every), "%s logged at %r", kind, sorted(x))
        require(sorted(y) == sorted(every), "%s logged at %r when interrupted", kind, sorted(y))
        for i in every:
            for value in y[i]:
                d = train.tree_equal(x[i][0], value, "it %d" % i)
                require(d is None, "%s differs from uninterrupted training: %s", kind, d, key="log")
    a, b = runs.final_files(first, n), runs.final_files(second, n)
    require(a[1] is not None and len(a[0]) == 1, "no final state or model was saved", key="reference")
    diff = train.tree_equal(a[0], b[0], "model") or train.tree_equal(a[1], b[1], "state")
    require(diff is None, "the final checkpoint differs from uninterrupted training: %s", diff, key="final")
    other = {os.path.basename(p) for p in glob.glob(os.path.join(second, "ckpts", "ckpt_*"))}
    for p in glob.glob(os.path.join(first, "ckpts", "ckpt_*")):
        name = os.path.basename(p)
        it = int(re.search(r"_(\d{7})\.pt$", name).group(1))
        require(name in other or it % job["save"], "snapshot %s of the uninterrupted run is missing", name, key="snapshot")
        if name in other:
            x, y = torch.load(p, weights_only=True), torch.load(os.path.join(second, "ckpts", name), weights_only=True)
            require(train.tree_equal(x, y) is None, "snapshot %s differs", name, key="snapshot")


CHANGES = ["lr", "optimizer", "weight_decay", "schedule", "iterations", "batch", "accumulate", "seed", "shuffle", "fixed_side", "rate", "files", "content",
           "steps", "model file", "state file", "sidecar", "optimizer args", "window", "tamper", "tamper", "metadata", "directory", "model", "symmetry", "weights",
           "pipelines", "streams", "loader", "workers", "unsupported"]
KEPT = ["intervals", "keep", "val", "nothing", "folder"]
SPREAD = ["world", "tamper", "reorder", "same rank", "older rank", "nothing"]      # on two ranks


@st.composite
def changed(draw):
    change = draw(st.sampled_from(CHANGES + KEPT))
    mapped = change in ("loader", "workers", "unsupported") or change in ("shuffle", "directory", "files", "content") and draw(st.booleans())
    job = runs.draw_job(draw, kinds="PR" if mapped else "BK" if change == "streams" else "PRSBK", mapped=True if mapped else None,
                        composite=not mapped and change not in ("streams", "directory", "files"))
    job.update(temp=draw(st.sampled_from([1, 2])), iterations=draw(st.integers(5, 10)))
    return dict(job=job, change=change, value=draw(st.integers(0, 5)), pick=draw(st.integers(0, 1 << 30)))


@st.composite
def spread(draw):
    job = runs.draw_job(draw, world=2)
    job.update(temp=draw(st.sampled_from([1, 2])), iterations=draw(st.integers(5, 8)), keep=-1)
    return dict(job=job, change=draw(st.sampled_from(SPREAD)), value=draw(st.integers(0, 5)), pick=draw(st.integers(0, 1 << 30)), worlds=draw(st.sampled_from([[1, 2], [2, 1]])))


def leaves(tree, path=()):
    if isinstance(tree, dict) and tree:
        for k in sorted(tree, key=str):
            yield from leaves(tree[k], path + (k,))
    elif isinstance(tree, (list, tuple)) and tree:
        for k, v in enumerate(tree):
            yield from leaves(v, path + (k,))
    else:
        yield path


def tampered(value, pick):
    if isinstance(value, bool):
        return not value
    if isinstance(value, (int, float)):
        return value + [1, -1, 3][pick % 3]
    if isinstance(value, str):
        return value[:-1] + ("0" if value[-1:] != "0" else "1") if value and pick % 2 else value + "0"
    if isinstance(value, bytes):
        return value[:-1] + bytes([(value[-1] + 1) % 256]) if value else b"0"
    if isinstance(value, torch.Tensor) and value.numel():
        value = value.clone()
        at = pick % value.numel()
        value.view(-1)[at] = ~value.view(-1)[at] if value.dtype == torch.bool else value.view(-1)[at] + 1
        return value
    return 1 if value is None else "other"


def altered_leaf(tree, at, pick):
    if not at:
        return tampered(tree, pick)
    if isinstance(tree, dict):
        if len(at) == 1 and pick % 7 == 0:
            return {k: v for k, v in tree.items() if k != at[0]}
        return {k: altered_leaf(v, at[1:], pick) if k == at[0] else v for k, v in tree.items()}
    return type(tree)(altered_leaf(v, at[1:], pick) if k == at[0] else v for k, v in enumerate(tree))


def tamper(rundir, pick):
    """Changes one value of the newest saved continuation; where."""
    path = os.path.join(rundir, "ckpts", "state_%07d.pt" % saved(rundir))
    state = torch.load(path, weights_only=True)
    where = [p for p in leaves(state["resume"]) if p != ("version",)]
    at = where[pick % len(where)]
    state["resume"] = altered_leaf(state["resume"], at, pick)
    torch.save(state, path)
    return at


def snapshot(rundir):
    out = {}
    for p in sorted(glob.glob(os.path.join(rundir, "ckpts", "*"))):
        with open(p, "rb") as f:
            out[os.path.basename(p)] = hashlib.sha256(f.read()).hexdigest()
    return out


def altered(case, kw, rundir):
    """The arguments of the second session (None: the change does not apply to this job)."""
    job, change, value = case["job"], case["change"], case["value"]
    kw = dict(kw)
    mapped = kw["dataset_type"] in MAP_TYPES.values()
    args = kw["dataset_args"] = dict(kw["dataset_args"])
    if change == "lr":
        kw["learning_rate"] *= (1 + 10 ** -value)
    elif change == "optimizer":
        kw["optim_type"], kw["optim_args"] = runs.OPTIMIZERS[(job["optimizer"] + 1 + value % 4) % 5]
    elif change == "optimizer args":
        if not kw["optim_type"].startswith("adam"):
            return None
        kw["optim_args"] = dict(kw["optim_args"], **[dict(betas=(0.8, 0.999)), dict(eps=1e-7)][value % 2])
    elif change == "weight_decay":
        kw["weight_decay"] = 0.02 + value
    elif change == "schedule":
        i = ["constant", "cosine", "step"].index(kw["lr_scheduler_type"])
        kw["lr_scheduler_type"], kw["lr_scheduler_args"] = ["constant", "cosine", "step"][(i + 1 + value % 2) % 3], {}
    elif change == "iterations":
        kw["iterations"] += value - 6 if value % 2 and job["iterations"] > 9 else 1 + value
    elif change == "batch":
        kw["batch_size"] += 1
    elif change == "accumulate":
        kw["gradient_accumulation_steps"] += 1
    elif change == "seed":
        kw["random_seed"] += 1 + value
    elif change == "shuffle":
        kw["no_shuffle"] = not kw["no_shuffle"]
    elif change == "steps":
        if mapped:
            return None
        args["steps_per_epoch"] = (args.get("steps_per_epoch") or 0) + 1 + value
    elif change == "fixed_side":
        args["fixed_side_input"] = not args.get("fixed_side_input", False)
    elif change == "rate":
        if mapped:
            return None
        args["sample_rate"] = 0.97
    elif change == "window":
        if mapped:
            return None
        args["shuffle_window_size"] = args.get("shuffle_window_size", 32768) + 1
    elif change == "files":
        if not kw["train_datas"]:
            return None
        other = os.path.join(os.path.dirname(kw["train_datas"][0]), "zz_" + os.path.basename(kw["train_datas"][0]))
        shutil.copy(kw["train_datas"][0], other)
        kw["train_datas"] = kw["train_datas"] + [other]
    elif change == "content":
        d = dict(job["data"], worlds=[dict(w, seed=w["seed"] + 1) for w in job["data"]["worlds"]])
        base = os.path.dirname(rundir)
        fresh = os.path.join(base, "fresh")
        Built(d, fresh)
        for folder, _, names in os.walk(fresh):
            for name in names:
                p = os.path.join(folder, name)
                os.replace(p, os.path.join(base, "data", os.path.relpath(p, fresh)))
    elif change in ("model file", "state file", "sidecar"):
        newest = saved(rundir)
        names = {"model file": "ckpt_*_%07d.pt" % newest, "state file": "state_%07d.pt" % newest, "sidecar": "runtime_%07d_*" % newest}
        p = glob.glob(os.path.join(rundir, "ckpts", names[change]))
        require(p, "there is no %s of the newest iteration", change)
        with open(p[0], "rb") as f:
            data = f.read()
        if value == 0 and change != "state file":
            os.remove(p[0])
        elif value < 4:
            with open(p[0], "wb") as f:
                f.write(data[:len(data) * value // 4])
        else:
            return None
    elif change == "tamper":
        case["where"] = tamper(rundir, case["pick"])
    elif change == "metadata":
        path = os.path.join(rundir, "ckpts", "state_%07d.pt" % saved(rundir))
        if value % 2:
            os.replace(path, os.path.join(rundir, "ckpts", "state_%07d.pt" % (saved(rundir) + 1)))
            for p in glob.glob(os.path.join(rundir, "ckpts", "ckpt_*_%07d.pt" % (saved(rundir) - 1))):
                shutil.copy(p, p.replace("%07d.pt" % (saved(rundir) - 1), "%07d.pt" % saved(rundir)))
        else:
            state = torch.load(path, weights_only=True)
            state["metadata"]["iteration"] = str(int(state["metadata"]["iteration"]) - 1 + value)
            torch.save(state, path)
    elif change in ("directory", "folder"):
        folder = kw["train_datas"][-1]
        sub = os.path.join(folder, "sub")
        name = os.listdir(sub)[0]
        if change == "directory" and value % 2:
            fresh = os.path.join(os.path.dirname(rundir), "fresh")
            Built(dict(job["data"], worlds=[dict(w, seed=w["seed"] + 1) for w in job["data"]["worlds"]]), fresh)
            os.replace(next(os.path.join(f, name) for f, _, names in os.walk(fresh) if name in names), os.path.join(sub, name))
        elif change == "directory":
            os.makedirs(os.path.join(sub, "zz"))
            shutil.copytree(os.path.join(sub, name), os.path.join(sub, "zz", name)) if os.path.isdir(os.path.join(sub, name)) else \
                shutil.copy(os.path.join(sub, name), os.path.join(sub, "zz", name))
        else:
            with open(os.path.join(folder, "zz.text"), "w") as f:     # not a data file
                f.write("!")
    elif change == "model":
        kw["model_args"] = dict(kw["model_args"], dim=4 + 1 + value)
    elif change == "symmetry":
        if mapped:
            return None
        args["apply_symmetry"] = not args.get("apply_symmetry", False)
    elif change == "weights":
        if "dataset_dict" not in args:
            return None
        names = sorted(args["dataset_dict"])
        args["dataset_dict"] = {k: dict(v) for k, v in args["dataset_dict"].items()}
        if value % 2:
            args["sync_length"] = not args["sync_length"]
        elif len(names) > 1:
            args["dataset_dict"][names[value % len(names)]]["blend_ratio"] += 0.25
        else:
            return None
    elif change == "pipelines":
        kw["data_pipelines"] = {"line_encoding": {}}
        kw["model_args"] = dict(kw["model_args"])
    elif change == "streams":
        if kw["dataset_type"] not in ("simple_binary", "packed_binary"):
            return None
        name = ["sequential_active_streams", "sequential_read_quantum"][value % 2]
        args[name] = args.get(name, [8, 4][value % 2]) + 1 + value // 2
    elif change == "loader":
        if not mapped:
            return None
        kw["dataloader_args"] = dict(kw["dataloader_args"], drop_last=False)
    elif change == "workers":
        if not mapped:
            return None
        kw["num_worker"] = 1
    elif change == "intervals":
        kw.update(save_interval=1 + value, temp_save_interval=4, log_interval=1 + value % 2, show_interval=2)
    elif change == "keep":
        kw["num_keep_states"] = [1, 2, 3, -1, 4, 5][value]
    elif change == "val":
        kw["val_interval"] = 1 + value
    return kw


def check_change(case, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job, kept = case["job"], case["change"] in KEPT
    kw = runs.settings(job, ctx.tmp)
    if case["change"] in ("directory", "folder"):
        if not kw["train_datas"] or case["change"] == "folder" and kw["dataset_type"] in MAP_TYPES.values():
            raise Reject("not applicable")
        folder = os.path.dirname(kw["train_datas"][0])
        kw["train_datas"] = [folder]
        if kw.get("val_datas"):
            kw["val_datas"] = [folder]
        os.makedirs(os.path.join(folder, "sub"))
        last = sorted(n for n in os.listdir(folder) if n != "sub")[-1]
        os.rename(os.path.join(folder, last), os.path.join(folder, "sub", last))
    elif case["change"] == "unsupported":
        if kw["dataset_type"] not in MAP_TYPES.values():
            raise Reject("not applicable")
        kw["num_worker"] = 1
    first, second = os.path.join(ctx.tmp, "a"), os.path.join(ctx.tmp, "b")
    last = None
    for i, (rundir, fault) in enumerate([(first, None), (second, "last")]):
        if i and fault:
            fault = ("step", last["forwards"] * (5 + case["value"]) // 11, "kill")
        out = runs.run(kw, rundir, ctx.tmp, fault)
        if out[0].error and any(e in out[0].error for e in EMPTY):
            raise Reject("no batch")
        require(out[0].value or fault and out[0].died, lambda: "the run fails: %s" % (out[0].error or out[0].died), key="reference")
        last = out[0].value
    if not saved(second):
        raise Reject("nothing saved")
    kw = altered(case, kw, second)
    if kw is None:
        raise Reject("not applicable")
    before = snapshot(second)
    out = runs.run(kw, second, ctx.tmp)[0]
    ctx.label(case["change"])
    ctx.nontrivial()
    if kept:
        require(out.value, lambda: "resuming with other %s fails: %s" % (case["change"], out.error or out.died), key="accept")
        a, b = runs.final_files(first, job["iterations"]), runs.final_files(second, job["iterations"])
        diff = train.tree_equal(a[0], b[0], "model") or train.tree_equal(a[1], b[1], "state")
        require(diff is None, "with other %s the result differs: %s", case["change"], diff, key="accept")
        return
    require(out.error and out.value is None, "a resume with a changed %s %s is accepted", case["change"], case.get("where", ""), key="refuse " + case["change"])
    require(snapshot(second) == before, lambda: "a refused resume changed the checkpoints: %r" % [
        k for k in set(before) | set(snapshot(second)) if before.get(k) != snapshot(second).get(k)], key="refused")


def check_spread(case, ctx):
    """Saved on some ranks; the saved states of the ranks are exchanged, altered or read by another number of ranks."""
    keops.serialise()
    runs.warm(ctx._scratch)
    job, change = case["job"], case["change"]
    kw = runs.settings(job, ctx.tmp)
    first, second = os.path.join(ctx.tmp, "a"), os.path.join(ctx.tmp, "b")
    world = case["worlds"][0] if change == "world" else 2
    out = runs.run(kw, first, ctx.tmp, None, world)
    if any(o.error and any(e in o.error for e in EMPTY) for o in out):
        raise Reject("no batch")
    require(all(o.value for o in out), lambda: "the run fails: %s" % [o.error or o.died for o in out], key="reference")
    fault = ("step", out[0].value["points"]["update"] * (6 + case["value"]) // 12, "kill", "update")
    runs.run(kw, second, ctx.tmp, fault, world)
    if not saved(second):
        raise Reject("nothing saved")
    files = sorted(glob.glob(os.path.join(second, "ckpts", "state_*.pt")))
    state = torch.load(files[-1], weights_only=True)
    ranks = state["resume"]["ranks"]
    where = None
    if change == "reorder":
        ranks.reverse()
    elif change == "same rank":
        ranks[case["value"] % 2] = ranks[1 - case["value"] % 2]
    elif change == "older rank":
        if len(files) < 2:
            raise Reject("one state only")
        ranks[case["value"] % 2] = torch.load(files[-2], weights_only=True)["resume"]["ranks"][case["value"] % 2]
    if change == "tamper":
        where = tamper(second, case["pick"])
    elif change not in ("world", "nothing"):
        torch.save(state, files[-1])
    before = snapshot(second)
    out = runs.run(kw, second, ctx.tmp, None, case["worlds"][1] if change == "world" else 2)
    ctx.label(change)
    ctx.nontrivial()
    if change in ("reorder", "nothing"):
        require(all(o.value for o in out), lambda: "resuming fails after %s: %s" % (change, [o.error or o.died for o in out]), key="accept")
        a, b = runs.final_files(first, job["iterations"]), runs.final_files(second, job["iterations"])
        a[1]["resume"]["ranks"].sort(key=lambda r: r["slot"])
        b[1]["resume"]["ranks"].sort(key=lambda r: r["slot"])
        diff = train.tree_equal(a[0], b[0], "model") or train.tree_equal(a[1], b[1], "state")
        require(diff is None, "after %s the result differs: %s", change, diff, key="accept")
        return
    require(all(o.error and o.value is None for o in out), lambda: "a resume after '%s' (%s) is accepted: %s" % (
        change, where, [(o.value and "accepted") or o.error or o.died for o in out]), key="refuse " + change)
    require(snapshot(second) == before, "a refused resume changed the checkpoints", key="refused")


CAMPAIGNS = [Campaign("resume", case, check, 48, 700, shards=6, case_timeout=200),
             Campaign("change", changed, check_change, 84, 900, shards=6, case_timeout=200),
             Campaign("spread", spread, check_spread, 12, 150, shards=3, case_timeout=300),
             Campaign("ranks", pair, check, 6, 90, shards=2, case_timeout=300)]
