"""Training runs in forked processes, with faults at chosen steps or file-system calls."""
import builtins
import glob
import os

import torch
from hypothesis import strategies as st
from torch.optim.optimizer import register_optimizer_step_post_hook, register_optimizer_step_pre_hook

from vlib import dist, train
from vlib.data import KIND_TYPES, MAP_TYPES, SEQUENTIAL, Built, draw_dataset

OPTIMIZERS = [("adamw", {}), ("adamw", {"amsgrad": True}), ("sgd-nesterov", {}), ("muon-adamw", {}), ("sgd", {})]
KILLED = 9 << 8
POINTS = ("before", "forward", "backward", "update", "updated", "after")     # of a training step
_warm = []


class Faults:
    """Counts the file-system calls below a folder and fails the chosen one. mode: kill/raise, before/after/torn."""

    def __init__(self, root, at=None, mode=None, files=False):
        self.root, self.at, self.mode, self.log, self.fds = os.path.abspath(root), at, mode, [], set()
        self.files = files      # also count opening files for writing

    def mine(self, target):
        if isinstance(target, int):
            return target in self.fds
        try:
            path = os.fspath(target)
        except TypeError:
            return False
        return isinstance(path, str) and (os.path.abspath(path).startswith(self.root) or not os.path.isabs(path))

    def fail(self):
        if self.mode.startswith("kill"):
            os._exit(9)
        if self.mode.startswith("interrupt"):
            raise KeyboardInterrupt
        raise OSError(28, "No space left on device (injected)")

    def call(self, name, fn, args, kw, torn=None):
        self.log.append(name)
        if self.at is None or len(self.log) - 1 != self.at:
            return fn(*args, **kw)
        if self.mode.endswith("torn") and torn is not None:
            torn()
            self.fail()
        if self.mode.endswith("after"):
            fn(*args, **kw)
            self.fail()
        self.fail()

    def install(self):
        plain = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "link", "fsync", "open", "write", "close")}
        save = torch.save

        def wrap(name, target=lambda a: a[0]):
            fn = plain[name]

            def wrapped(*a, **kw):
                return self.call(name, fn, a, kw) if self.mine(target(a)) else fn(*a, **kw)
            setattr(os, name, wrapped)

        for name in ("replace", "rename", "remove", "unlink", "link", "fsync"):
            wrap(name)

        def open_(path, flags, *a, **kw):
            if not self.mine(path):
                return plain["open"](path, flags, *a, **kw)
            fd = self.call("open", plain["open"], (path, flags) + a, kw) if flags & (os.O_WRONLY | os.O_RDWR) else plain["open"](path, flags, *a, **kw)
            self.fds.add(fd)
            return fd

        def close(fd):
            self.fds.discard(fd)
            return plain["close"](fd)

        def save_(obj, target, *a, **kw):
            named = isinstance(target, (str, os.PathLike))
            if named and not self.mine(target):
                return save(obj, target, *a, **kw)

            def torn():
                import io

                buffer = io.BytesIO()
                save(obj, buffer, *a, **kw)
                half = buffer.getvalue()[:len(buffer.getvalue()) // 2]
                if named:
                    with builtins.open(target, "wb") as f:
                        f.write(half)
                else:
                    target.write(half)
                    target.flush()
            return self.call("save", save, (obj, target) + a, kw, torn)

        plain_open = builtins.open

        def builtin_open(file, mode="r", *a, **kw):
            if not set(mode) & set("wax+") or isinstance(file, int) or not self.mine(file) or not self.files:
                return plain_open(file, mode, *a, **kw)
            return self.call("open file", plain_open, (file, mode) + a, kw)

        os.open, os.close, torch.save, builtins.open = open_, close, save_, builtin_open


def draw_job(draw, world=1, kinds="PRSBK", max_iterations=12, mapped=None, composite=True):
    """A training configuration over generated data (JSON-able)."""
    d = draw_dataset(draw, kinds=kinds, max_rows=12, max_files=3, min_files=world, sequential_children=False, composite=composite)
    d.update(rate=1.0)
    d["worlds"][0]["files"][0]["n"] = max(8, d["worlds"][0]["files"][0]["n"])
    kind = d["worlds"][0]["kind"]
    if mapped is None:
        mapped = draw(st.integers(0, 4)) == 0
    if mapped and "weights" not in d and kind in MAP_TYPES:
        d["types"] = [MAP_TYPES[kind]]
        for f in d["worlds"][0]["files"]:
            f["bs"] = d["worlds"][0]["admit"][0]
    n = draw(st.integers(3, max_iterations))
    tune = None
    if not mapped and "weights" not in d and kind == "P" and draw(st.booleans()):
        d.update(types=["batched_processed_katago_numpy"], threads=draw(st.integers(1, 3)), prefetch=draw(st.integers(1, 6)))
        tune = dict(observability=draw(st.sampled_from([None, True, {"enabled": False}])), autotune=draw(st.sampled_from([None, True])))
        if tune["autotune"]:
            tune["autotune"] = dict(warmup_iterations=draw(st.integers(0, 2)), verify_iterations=draw(st.integers(0, 1)), decision_interval=draw(st.integers(1, 2)),
                                    freeze_after=draw(st.sampled_from([2, 5, 1000])), max_prefetch_threads=draw(st.integers(3, 4)),
                                    max_prefetch_batches=draw(st.integers(6, 12)), respect_explicit=draw(st.booleans()),
                                    reuse=draw(st.sampled_from(["off", "exact", "compatible"])))
    alone = world > 1 and set(w["kind"] for w in d["worlds"]) & set(SEQUENTIAL)     # needs an epoch length, cannot be validated on
    steps = 3 if alone else draw(st.sampled_from([None, None, 3]))
    vq = draw(st.sampled_from([0, 0, 0, 3]))
    opt = draw(st.integers(0, len(OPTIMIZERS) - 1))
    return dict(data=d, batch=world * draw(st.sampled_from([1, 2, 3] if world == 1 else [1, 2])), accumulate=draw(st.sampled_from([1, 1, 2, 3, 4])), iterations=n,
                optimizer=opt, schedule=draw(st.integers(0, 3)), save=draw(st.sampled_from([2, 3, 5, 7])), temp=draw(st.sampled_from([1, 2, 3, 4])),
                state=draw(st.sampled_from([None, None, 2, 3])), keep=draw(st.sampled_from([1, 1, 2, 3, -1])), noise=draw(st.booleans()),
                norm=draw(st.booleans()) and not vq, dropout=draw(st.sampled_from([0.0, 0.3])), clip=draw(st.sampled_from([None, 0.3])), vq=vq,
                kmeans=draw(st.booleans()), no_shuffle=draw(st.booleans()), grad_norm=draw(st.sampled_from([None, 0.5])),
                tune=tune, steps=steps, val=0 if alone else draw(st.sampled_from([0, 0, 2, 3])), seed=draw(st.integers(0, 1 << 20)))


def settings(job, root):
    """Trainer arguments of a job; writes its data under root on first use."""
    built = Built(job["data"], os.path.join(root, "data"))
    kind, paths, args = built.spec()
    mapped = kind in MAP_TYPES.values()
    if mapped:
        args = {k: v for k, v in args.items() if k in ("boardsizes", "fixed_side_input")}
    if job["steps"] and not mapped:
        args["steps_per_epoch"] = job["steps"]
    if job.get("tune"):
        args.update({k: v for k, v in job["tune"].items() if v is not None})
        if "autotune" in args:
            args["autotune"] = dict(args["autotune"], cache_dir=os.path.join(root, "profiles"))
    schedule = [("constant", {}), ("cosine", {}), ("step", {"step_size": 3, "step_gamma": 0.5}),
                ("cosine", {"eta_min": 0.001})][job["schedule"]]
    opt = OPTIMIZERS[job["optimizer"]]
    kw = dict(iterations=job["iterations"], batch_size=job["batch"], gradient_accumulation_steps=job["accumulate"], random_seed=job["seed"],
              dataset_type=kind, train_datas=paths, dataset_args=args, dataloader_args={} if mapped else dict(batch_by_boardsize=True),
              no_shuffle=job["no_shuffle"], model_type="verif_tiny", loss_type="CE+CE",
              model_args=dict(dim=4, dropout=job["dropout"], norm=job["norm"], clip=job["clip"], noise=job["noise"], seed=job["seed"], vq=job["vq"],
                              kmeans=job["kmeans"]),
              optim_type=opt[0], optim_args=dict(opt[1]), learning_rate=0.002 if opt[0].startswith("sgd") else 0.02, lr_scheduler_type=schedule[0], lr_scheduler_args=dict(schedule[1]),
              save_interval=job["save"], temp_save_interval=job["temp"], state_save_interval=job["state"], num_keep_states=job["keep"],
              clip_grad_norm=job["grad_norm"], find_unused_parameters=True)
    if job["val"]:
        kw.update(val_interval=job["val"], val_datas=paths)
        if not paths:
            kw.update(val_dataset_type=kind, val_dataset_args={k: v for k, v in args.items() if k != "steps_per_epoch"})
    return kw


def one_run(kw, rundir, fault, install=True):
    """Body of a forked process: build the trainer, run it, describe what happened."""
    torch.set_num_threads(1)
    train.register()
    faults = Faults(rundir, *(fault[1:] if fault and fault[0] == "call" else ()))
    t = train.trainer(rundir=rundir, **kw)
    start = t.state.iteration
    count = dict.fromkeys(POINTS, 0)
    step = tuple(fault[1:]) + ("forward", None)[len(fault) - 3:] if fault and fault[0] == "step" else None
    if step and step[3] not in (None, int(os.environ.get("RANK", 0))):
        step = None

    def reach(point):
        if step and step[2] == point and count[point] == step[0]:
            if step[1] == "kill":
                os._exit(9)
            raise (KeyboardInterrupt if step[1] == "interrupt" else ValueError)("injected")
        count[point] += 1
    before, after = t.on_before_step, t.on_after_step

    def on_before_step(data):
        reach("before")
        return before(data)

    def on_after_step(data):
        after(data)
        reach("after")
    t.on_before_step, t.on_after_step = on_before_step, on_after_step
    t.unwrapped_model.seen = lambda model, data: reach("forward")
    next(p for p in t.unwrapped_model.parameters() if p.requires_grad).register_hook(lambda grad: reach("backward"))
    hooks = [register_optimizer_step_pre_hook(lambda *_: reach("update")),
             register_optimizer_step_post_hook(lambda *_: reach("updated"))]
    if install:
        faults.install()
    try:
        with train.quiet():
            t.run()
    finally:
        for hook in hooks:
            hook.remove()
    return dict(start=start, calls=faults.log, points=count, forwards=count["forward"], iteration=t.state.iteration, epoch=t.state.epoch, rows=t.state.rows)


def warm(tmp):
    """One small run in this process, so that forked runs find everything imported and set up."""
    if not _warm:
        _warm.append(1)
        world = dict(kind="P", files=[dict(bs=[5, 5], n=8, comp=False)], admit=[[5, 5]], seed=0, uid0=0)
        job = dict(data=dict(shuffle=True, window=4, rate=1.0, fixed=None, fixed_side=False, worlds=[world], types=["iterative_processed_katago_numpy"],
                             symmetry=False, bytes=None),
                   batch=2, accumulate=1, iterations=2, optimizer=0, schedule=0, save=2, temp=1, state=None, keep=1, noise=False, norm=False,
                   dropout=0.0, clip=None, vq=0, kmeans=False, no_shuffle=False, grad_norm=None, steps=None, val=0, seed=0)
        one_run(settings(job, os.path.join(tmp, "warm")), os.path.join(tmp, "warm", "run"), None, install=False)


def run(kw, rundir, tmp, fault=None, world=1, timeout=100, body=one_run):
    return dist.ranks(world, body, (kw, rundir, fault), tmp, timeout)


def final_files(rundir, iteration):
    """(models, state) saved for an iteration, without what names the attempt that saved it."""
    base = os.path.join(rundir, "ckpts")
    models = {os.path.basename(p): torch.load(p, weights_only=True) for p in glob.glob(os.path.join(base, "ckpt_*_%07d.pt" % iteration))}
    path = os.path.join(base, "state_%07d.pt" % iteration)
    state = torch.load(path, weights_only=True) if os.path.exists(path) else None
    if state:
        for r in state["resume"]["ranks"]:
            for k in ("vq_runtime", "global_digest", "local_digest", "pipeline_tuning"):
                r.pop(k, None)
    return models, state
