"""C27: training performs exactly the configured optimisation, on any number of ranks."""
import glob
import os
import re

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import dist, keops, runs, train
from vlib.api import Campaign, Reject, require
from vlib.data import MAP_TYPES, SEQUENTIAL, Built, Consumer, context

RULE = ("A case is a training configuration over generated files (data, batch size, accumulation, ranks, loss, teacher, pretrained weights, optimizer, schedule, "
        "clipping) run by the trainer and by a plain training loop. Non-trivial: at least three optimizer steps changed the parameters; for the 'nonfinite' "
        "campaign, training was stopped by a generated non-finite value after a checkpoint had been written.")
ASSUMPTIONS = ["losses, optimizers, schedules and the data plan are those decided by C13, C18, C19, C02 and C05; this property is about putting them together",
               "float32; parameters are compared to 1e-5 in one process and 2e-3 over ranks, parameters without influence on the loss are left out",
               "a batch of one rank counts as much as one of another rank (ranks have equal batch sizes)"]
BUDGET = {"quick": 50, "thorough": 780}
NEEDS_EXT = True
EMPTY = ("produced no global batch", "no batch is available", "produced no admitted records")
LOSSES = ["CE+CE", "KL+KL", "MSE+CE", "CE+MSE", "KL+NONE", "MSE+MSE"]


def draw_training(draw, world):
    job = runs.draw_job(draw, world=world)
    job.update(noise=False, dropout=0.0, vq=0, norm=job["norm"] and world == 1)
    return dict(job=job, world=world, loss=draw(st.sampled_from(LOSSES)),
                loss_args=draw(st.sampled_from([{}, {}, {"policy_reg_lambda": 0.1}, {"value_policy_ratio": 2.0}])),
                teacher=draw(st.sampled_from([None, None, [1.0, 1.0, False], [2.0, 0.5, False], [1.0, 0.3, True], [3.0, 0.0, False]])), teacher_norm=draw(st.booleans()),
                pretrained=draw(st.sampled_from([None, None, "all", "part"])), log=draw(st.sampled_from([1, 1, 2, 3])),
                clip_value=draw(st.sampled_from([None, None, 0.05])), decay=draw(st.sampled_from([0.0, 0.01, 0.3])), show=draw(st.sampled_from([0, 0, 1, 2, 3])),
                mult=draw(st.sampled_from([1, 1, 3, 20])))


@st.composite
def case(draw):
    return draw_training(draw, 1)


@st.composite
def codebook(draw):
    """Vector quantisation: one codebook, fitted to the batches of all ranks together."""
    c = draw_training(draw, draw(st.sampled_from([1, 2, 2, 3])))
    c["job"].update(vq=draw(st.integers(2, 5)), norm=False, kmeans=False)
    return c


@st.composite
def pair(draw):
    return draw_training(draw, draw(st.sampled_from([2, 2, 3])))


@st.composite
def nonfinite(draw):
    world = draw(st.sampled_from([1, 1, 1, 2]))
    c = draw_training(draw, world)
    c["job"].update(temp=draw(st.sampled_from([1, 1, 2])), iterations=draw(st.integers(4, 9)))
    return dict(c, at=draw(st.integers(0, 999)), rank=draw(st.integers(0, world - 1)), value=draw(st.sampled_from(["nan", "inf", "-inf"])),
                where=draw(st.sampled_from(["value", "policy", "gradient"])))


def teacher_args(c):
    return dict(dim=3, norm=bool(c.get("teacher_norm", c["teacher"][2])), seed=c["job"]["seed"] + 7)


def build(args):
    from model import build_model

    train.register()
    return build_model("verif_tiny", **args)


def show_of(c):
    return c["log"] if c["show"] is True else int(c["show"]) or 10 ** 6


def settings(c, root):
    """Trainer arguments; writes the data, the teacher and the pretrained weights."""
    job = c["job"]
    kw = runs.settings(job, root)
    kw.update(loss_type=c["loss"], loss_args=dict(c["loss_args"]), weight_decay=c["decay"], clip_grad_value=c["clip_value"], log_interval=c["log"])
    kw["show_interval"] = show_of(c)
    kw["eval_bs_multipler"] = c.get("mult", 1)
    if job["vq"]:
        kw["model_args"]["vq_args"] = [["threshold_ema_dead_code", 0]]
    if c["teacher"]:
        path = os.path.join(root, "teacher.pt")
        t = build(teacher_args(c))
        torch.save(dict(model=t.state_dict(), metadata={}), path)
        kw.update(kd_model_type="verif_tiny", kd_model_args=teacher_args(c), kd_checkpoint=path, kd_T=c["teacher"][0], kd_alpha=c["teacher"][1],
                  kd_use_train_mode=c["teacher"][2])
    if c["pretrained"]:
        path = os.path.join(root, "pretrained.pt")
        state = build(dict(kw["model_args"], seed=job["seed"] + 3)).state_dict()
        if c["pretrained"] == "part":
            del state["policy.bias"]
            state["value.weight"] = torch.zeros(7, 2)       # of another size: ignored
            state["extra.weight"] = torch.zeros(2)
        torch.save(dict(model=state, metadata={}), path)
        kw["load_from"] = path
    return kw


def observed(kw, rundir, poison):
    """Body of a rank: train and return what every forward pass was given."""
    torch.set_num_threads(1)
    train.register()
    t = train.trainer(rundir=rundir, **kw)
    seen = []
    rank = t.accelerator.process_index

    def before(model, data):
        if model.training:
            seen.append({k: np.array(data[k]) for k in ("board_input", "value_target", "policy_target")})

    def after(model, data, results):
        if poison and model.training and poison[0] == rank and len(seen) - 1 == poison[1]:
            bad = float(poison[3])
            if poison[2] == "gradient":     # the losses stay finite, the gradients do not
                results["value"].register_hook(lambda g: g * bad)
            else:
                results[poison[2]] = results[poison[2]] * bad
    t.unwrapped_model.seen, t.unwrapped_model.after = before, after
    error = None
    try:
        with train.quiet():
            t.run()
    except RuntimeError as e:
        error = str(e)
        if not poison and "non-finite" not in error:
            raise
    return dict(seen=seen, error=error, iteration=t.state.iteration, epoch=t.state.epoch, rows=t.state.rows)


def plain(c, kw, batches, limit):
    """The same optimisation as a loop: {iteration: state}, [losses], [aux], [lr] from the rank batches [iteration][micro][rank]."""
    from trainer.loss.supervised import compute_supervised_losses
    from utils.training_utils import build_lr_scheduler, build_optimizer

    torch.set_num_threads(1)
    world, acc = c["world"], c["job"]["accumulate"]
    args = kw["model_args"]
    model = build(args).train()
    if c["pretrained"]:
        state = torch.load(kw["load_from"], weights_only=True)["model"]
        own = model.state_dict()
        own.update({k: v for k, v in state.items() if k in own and v.shape == own[k].shape})
        model.load_state_dict(own)
    teacher, extra = None, dict(c["loss_args"])
    if c["teacher"]:
        teacher = build(teacher_args(c))
        teacher.load_state_dict(torch.load(kw["kd_checkpoint"], weights_only=True)["model"])
        teacher.train(c["teacher"][2])
        extra.update(kd_T=c["teacher"][0], kd_alpha=c["teacher"][1])
    opt = build_optimizer(kw["optim_type"], model, lr=kw["learning_rate"], weight_decay=c["decay"], **kw["optim_args"])
    sched = build_lr_scheduler(opt, kw["lr_scheduler_type"], kw["iterations"], **kw["lr_scheduler_args"])
    clip = args["clip"]
    out, logs, margins = {}, [], [1.0]
    for it in range(1, limit + 1):
        if clip is not None:
            with torch.no_grad():
                for p in (model.conv.weight, model.value.weight):
                    p.clamp_(-clip, clip / 2)
        params = [p for p in model.parameters() if p.requires_grad]
        sums = [torch.zeros_like(p) for p in params]
        used = [False] * len(params)
        log = {}
        for micro in range(acc):
            whole = together(model, batches[it - 1][micro], margins) if c["job"]["vq"] else None
            for rank in range(world):
                data = {k: torch.from_numpy(np.array(v)) for k, v in batches[it - 1][micro][rank].items()}
                kd = None
                if teacher is not None:
                    with torch.no_grad():
                        kd = teacher(data)
                buffers = {k: v.clone() for k, v in model.named_buffers()}
                results = whole[rank] if whole else model(data)
                loss, losses, aux = compute_supervised_losses(c["loss"], data, results, kd_results=kd, **extra)
                if rank:        # statistics are those of the first rank
                    for k, v in model.named_buffers():
                        v.copy_(buffers[k])
                grads = torch.autograd.grad(loss / acc, params, allow_unused=True, retain_graph=True)
                for i, g in enumerate(grads):
                    if g is not None:
                        sums[i] += g / world
                        used[i] = True
                for d in (losses, aux):
                    for k, v in d.items():
                        log[k] = log.get(k, 0.0) + float(v) / acc / world
        for p, s, u in zip(params, sums, used):
            p.grad = s if u else None
        norm = torch.sqrt(sum((s.double() ** 2).sum() for s in sums)).item()
        if kw["clip_grad_norm"] is not None:
            log["grad_norm"] = norm
            if norm > kw["clip_grad_norm"]:
                for s in sums:
                    s *= kw["clip_grad_norm"] / (norm + 1e-6)
        if c["clip_value"] is not None:
            for s in sums:
                s.clamp_(-c["clip_value"], c["clip_value"])
        opt.step()
        sched.step()
        log["lr"] = opt.param_groups[0]["lr"]
        logs.append(log)
        out[it] = {k: v.clone() for k, v in model.state_dict().items()}
    return out, logs, min(margins)


def together(model, parts, margins):
    """The model's results for the batches of all ranks, quantised as one batch."""
    sizes = [len(p["value_target"]) for p in parts]
    book = model.vq.codebook.detach().double().clone()
    maps = [torch.relu(model.conv(torch.from_numpy(np.array(p["board_input"])).float()[:, :2])) for p in parts]
    pooled, aux = model.quantise(torch.cat([m.mean((2, 3)) for m in maps]), {})
    values = model.value(pooled).split(sizes)
    with torch.no_grad():
        d = torch.cdist(model.pooled.double(), book).sort(1).values
        margins.append(((d[:, 1] - d[:, 0]) / (d[:, 1] + 1e-9)).min().item())
    return [dict(aux, value=values[r], policy=model.policy(maps[r])[:, 0]) for r in range(len(parts))]


def planned(c, kw, steps, tmp):
    """The global batches one process gets from the data set, or None where another property decides the order."""
    job = c["job"]
    if kw["dataset_type"] in MAP_TYPES.values() or c["world"] > 1 and any(w["kind"] in SEQUENTIAL for w in job["data"]["worlds"]):
        return None
    from dataset import build_dataset

    args = dict(kw["dataset_args"])
    if args.get("steps_per_epoch"):
        args["steps_per_epoch"] *= job["accumulate"]
    ds = build_dataset(kw["dataset_type"], kw["train_datas"], runtime_context=context("train", job["seed"], job["batch"]), shuffle=not job["no_shuffle"], **args)
    reader = Consumer(ds)
    out, epochs = [], []
    for _ in range(steps):
        group = [reader.next() for _ in range(job["accumulate"])]
        reader.commit(group)
        out.append(group)
        epochs.append(reader.stream.committed_epoch)
    return out, epochs


def weightless(c, kw):
    """Parameters that do not influence the loss (their gradients are rounding noise)."""
    out = {"frozen", "policy.bias"}     # all policy losses are those of a softmax
    if c["job"]["norm"]:
        out |= {"conv.bias", "norm.running_mean"}
    return out


def run_it(c, kw, rundir, tmp, poison=None):
    out = dist.ranks(c["world"], observed, (kw, rundir, poison), tmp, 150)
    if any(o.error and any(e in o.error for e in EMPTY) for o in out) or any(o.value and o.value["error"] and any(e in o.value["error"] for e in EMPTY) for o in out):
        raise Reject("no batch")
    require(all(o.value for o in out), lambda: "training fails: %s" % [o.error or o.died for o in out], key="run")
    out = [o.value for o in out]
    if not poison and any(o["error"] for o in out):
        steps = min(len(o["seen"]) for o in out) // c["job"]["accumulate"]
        losses = [log["total_loss"] for log in reference(c, kw, out, steps, tmp)[1]]
        require(not max(map(abs, losses)) < 1e8, "training stops with %s, the losses of the plain loop are %r", out[0]["error"], losses, key="run")
        raise Reject("training diverges")
    return out


def reference(c, kw, got, limit, tmp):
    acc = c["job"]["accumulate"]
    batches = [[[g["seen"][it * acc + m] for g in got] for m in range(acc)] for it in range(limit)]
    out = dist.ranks(1, plain, (c, kw, batches, limit), tmp, 100)[0]
    if out.value is None:
        raise AssertionError("the reference loop fails: %s" % (out.error or out.died))
    return out.value


def match(c, kw, it, have, want, what):
    require(set(have) == set(want), "%s holds %r", what, sorted(set(have) ^ set(want)), key="checkpoint")
    tol = 1e-5 if c["world"] == 1 else 2e-3
    for k, v in want.items():
        if k in weightless(c, kw):
            continue
        diff = (have[k].double() - v.double()).abs().max().item() if v.numel() else 0
        require(diff <= tol * max(1, v.double().abs().max().item()), "%s: %s differs by %.3g from the plain training loop", what, k, diff, key="parameters")


def snapshots(rundir):
    found = {}
    for p in glob.glob(os.path.join(rundir, "ckpts", "ckpt_*.pt")):
        found[int(re.search(r"_(\d{7})\.pt$", p).group(1))] = torch.load(p, weights_only=True)["model"]
    return found


def check(c, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job, world = c["job"], c["world"]
    n, acc = job["iterations"], job["accumulate"]
    kw = settings(c, ctx.tmp)
    rundir = os.path.join(ctx.tmp, "run")
    got = run_it(c, kw, rundir, ctx.tmp)
    for r, g in enumerate(got):
        require(g["iteration"] == n and g["rows"] == n * acc * job["batch"], "rank %d ends at iteration %d, row %d", r, g["iteration"], g["rows"], key="counters")
        require(len(g["seen"]) == n * acc, "rank %d trained on %d batches in %d iterations of %d", r, len(g["seen"]), n, acc, key="batches")
        for d in g["seen"]:
            require(len(d["value_target"]) == job["batch"] // world, "rank %d trained on a batch of %d rows", r, len(d["value_target"]), key="batches")
    plan = planned(c, kw, n, ctx.tmp)
    if plan is not None:
        for it in range(n):
            for m in range(acc):
                want = plan[0][it][m].data
                for k in ("board_input", "value_target", "policy_target"):
                    have = np.concatenate([g["seen"][it * acc + m][k] for g in got])
                    require(np.array_equal(have.reshape(-1), np.asarray(want[k]).reshape(-1)), "iteration %d, micro-batch %d: the %s trained on is not that of "
                            "the data plan", it + 1, m, k, key="batches")
        require(got[0]["epoch"] == plan[1][-1], "training ends in epoch %d, the data in %d", got[0]["epoch"], plan[1][-1], key="counters")
    states, logs, margin = reference(c, kw, got, n, ctx.tmp)
    if margin < 3e-3:
        raise Reject("two codes are almost equally near")
    if not max(abs(log["total_loss"]) for log in logs) < 1e6:
        raise Reject("training diverges")
    found = snapshots(rundir)
    expected = {i for i in range(1, n + 1) if i % job["save"] == 0} | {n}
    require(expected <= set(found), "no snapshot at %r", sorted(expected - set(found)), key="checkpoint")
    for it, have in sorted(found.items()):
        match(c, kw, it, have, states[it], "the snapshot of iteration %d" % it)
    lines = {line["it"]: line for line in train.log_lines(rundir) if "train_loss" in line}
    require(sorted(lines) == list(range(c["log"], n + 1, c["log"])), "training was logged at %r", sorted(lines), key="log")
    for it, line in lines.items():
        done = max([i for i in range(it) if i % c["log"] == 0 or i % show_of(c) == 0])      # reported before
        window = logs[done:it]
        want = {k: sum(w[k] for w in window) / len(window) for k in window[0] if k != "lr"}
        have = dict(line["train_loss"], **line["train_aux"])
        require(set(have) == set(want), "iteration %d logs %r", it, sorted(set(have) ^ set(want)), key="log")
        for k, v in want.items():
            require(abs(have[k] - v) <= (1e-4 if world == 1 else 1e-2) * max(1, abs(v)), "iteration %d logs %s = %.7g, the plain loop has %.7g", it, k, have[k], v, key="log")
        stat = line["running_stat"]
        require(abs(stat["lr"] - window[-1]["lr"]) <= 1e-9 and stat["rows"] == it * acc * job["batch"], "iteration %d logs lr %r and row %r", it, stat["lr"], stat["rows"],
                key="log")
        speed = stat["it/s"] * acc * job["batch"]
        require(abs(stat["entry/s"] - speed) <= 1e-6 * speed, "iteration %d logs %r entries/s at %r iterations/s", it, stat["entry/s"], stat["it/s"], key="log")
        if plan is not None:
            require(stat["epoch"] == plan[1][it - 1], "iteration %d logs epoch %r instead of %r", it, stat["epoch"], plan[1][it - 1], key="log")
    ctx.label("ranks %d" % world)
    for k in ("teacher", "pretrained", "clip_value"):
        ctx.label(k, c[k] is not None)
    ctx.label("accumulate", acc > 1)
    ctx.nontrivial(n >= 3)


def check_nonfinite(c, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job, world = c["job"], c["world"]
    n, acc = job["iterations"], job["accumulate"]
    kw = settings(c, ctx.tmp)
    rundir = os.path.join(ctx.tmp, "run")
    at = c["at"] * n * acc // 1000
    got = run_it(c, kw, rundir, ctx.tmp, (c["rank"], at, c["where"], c["value"]))
    if c["where"] == "policy" and c["loss"].endswith("NONE"):
        raise Reject("the policy has no loss")
    for r, g in enumerate(got):
        require(g["error"] is not None, "rank %d trains on after a %s in the %s of iteration %d", r, c["value"], c["where"], at // acc + 1, key="stop")
        require("non-finite" in g["error"] or "nan" in g["error"].lower() or "failed collectively" in g["error"], "rank %d stops with %s", r, g["error"][:300], key="stop")
    good = at // acc
    states = reference(c, kw, got, good, ctx.tmp)[0]
    found = snapshots(rundir)
    for it, have in sorted(found.items()):
        require(it <= good, "a snapshot of iteration %d was written after the non-finite step %d", it, good + 1, key="checkpoint")
        match(c, kw, it, have, states[it], "the snapshot of iteration %d" % it)
    due = {i for i in range(1, good + 1) if i % job["save"] == 0}
    require(due <= set(found), "the snapshots %r of finished iterations are missing", sorted(due - set(found)), key="checkpoint")
    for p in glob.glob(os.path.join(rundir, "ckpts", "state_*.pt")):
        it = int(re.search(r"_(\d{7})\.pt$", p).group(1))
        require(it <= good, "a state of iteration %d was written after the non-finite step %d", it, good + 1, key="checkpoint")
    ctx.label(c["where"])
    ctx.nontrivial(bool(found))


CAMPAIGNS = [Campaign("loop", case, check, 200, 1200, shards=4, case_timeout=200),
             Campaign("ranks", pair, check, 40, 240, shards=3, case_timeout=300),
             Campaign("codebook", codebook, check, 36, 400, shards=3, case_timeout=300),
             Campaign("nonfinite", nonfinite, check_nonfinite, 120, 600, shards=3, case_timeout=200)]
