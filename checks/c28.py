"""C28: runs are configured, recorded, evaluated and logged as written."""
import contextlib
import copy
import glob
import io
import json
import math
import os
import runpy
import sys

import numpy as np
import torch
import yaml
from hypothesis import strategies as st

from checks import c14
from vlib import dist, keops, runs, train
from vlib.api import Campaign, Reject, require
from vlib.data import MAP_TYPES, Built, draw_dataset

RULE = ("A case is a set of options (typed and nested YAML values) spread over config file and command line and read by train.py; or a small run started by "
        "train.py and evaluated by test.py from its recorded configuration; or a training run (or sequence of scalars) whose event files are read back. "
        "Non-trivial: the options hold a nested value or one given twice; the evaluation read data; the log holds several iterations.")
ASSUMPTIONS = ["option names are not abbreviated, no list element and no plain string starts with a dash", "text is what YAML can hold",
               "scalars of event files are float32"]
BUDGET = {"quick": 50, "thorough": 600}
NEEDS_EXT = True
REPO = os.environ["VERIF_REPO"]

INTS = ["iterations", "batch_size", "gradient_accumulation_steps", "eval_bs_multipler", "log_interval", "show_interval", "save_interval", "val_interval",
        "temp_save_interval", "state_save_interval", "num_keep_states", "num_worker", "cuda_prefetch_batches", "random_seed", "performance_level"]
FLOATS = ["learning_rate", "weight_decay", "clip_grad_norm", "clip_grad_value", "kd_T", "kd_alpha", "max_memory_fraction"]
TEXTS = ["val_dataset_type", "load_from", "optim_type", "lr_scheduler_type", "loss_type", "kd_model_type", "kd_checkpoint", "dataset_type", "model_type"]
FLAGS = ["no_shuffle", "kd_use_train_mode", "kd_disable_amp", "find_unused_parameters"]
MAPS = ["dataset_args", "val_dataset_args", "dataloader_args", "data_pipelines", "model_args", "optim_args", "lr_scheduler_args", "loss_args", "kd_model_args",
        "profiler_args"]
LISTS = ["train_datas", "val_datas"]
KIND = dict([(k, "int") for k in INTS] + [(k, "float") for k in FLOATS] + [(k, "text") for k in TEXTS] + [(k, "flag") for k in FLAGS]
            + [(k, "map") for k in MAPS] + [(k, "list") for k in LISTS])

letters = st.characters(exclude_categories=("Cs", "Cc", "Cn", "Co"), exclude_characters="\ufeff")
TRICKY = ["", "null", "None", "true", "yes", "1e-3", "1.5", "a: b", "{x: 1}", "[1, 2]", "it's", '"q"', "#c", " s ", "a\nb", "\\n", "%d", "ü", "!x", "@", "~"]
text = st.one_of(st.sampled_from(TRICKY), st.text(letters, max_size=8))
numbers = st.one_of(st.sampled_from([1e-5, 1e-8, 1e20, 0.1, -2.5e-7, 3.0, 1e16, 0.0]), st.floats(allow_nan=False, allow_infinity=False))
scalars = st.one_of(st.none(), st.booleans(), st.integers(-5, 1 << 40), numbers, text)
nested = st.recursive(scalars, lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(text, s, max_size=3)), max_leaves=5)
words = st.one_of(st.sampled_from(["KL+KL", "null", "1e-3", "a b", "x'y", "{a}", "true", "#1", "ü"]), st.text(letters, min_size=1, max_size=8)).filter(
    lambda s: not s.startswith("-") and s.strip() == s)
VALUES = dict(int=st.one_of(st.sampled_from([-1, 0, 1]), st.integers(-1, 10 ** 7)), float=st.one_of(st.integers(0, 9), numbers.filter(lambda x: x >= 0)), text=words, flag=st.booleans(),
              map=st.dictionaries(text, nested, max_size=4), list=st.lists(words, min_size=1, max_size=3))


@st.composite
def options(draw):
    keys = draw(st.lists(st.sampled_from(sorted(KIND)), max_size=10, unique=True))
    keys = list(dict.fromkeys(keys + ["dataset_type", "model_type"]))
    opts = {k: draw(VALUES[KIND[k]]) for k in keys}
    where = {k: draw(st.sampled_from(["file", "file", "cli", "both"])) for k in keys}
    other = {k: draw(VALUES[KIND[k]]) for k in keys if where[k] == "both"}
    again = draw(st.lists(st.sampled_from([k for k in sorted(KIND) if KIND[k] != "flag"]), max_size=3, unique=True))
    return dict(options=opts, where=where, other=other, null=draw(st.lists(st.sampled_from([k for k in sorted(KIND) if k not in keys]), max_size=2)),
                again={k: draw(VALUES[KIND[k]]) for k in again}, dashes=draw(st.booleans()), profile=draw(st.integers(0, 5)) == 0,
                unknown=draw(st.sampled_from([None] * 6 + ["learning_rte", "batchsize", "optim_argz", "kd", "verif"])), flow=draw(st.booleans()))


def words_of(key, value):
    """Command-line words that give an option."""
    kind = KIND[key]
    if kind == "flag":
        return ["--" + key] if value else []
    if kind == "list":
        return ["--" + key] + value
    if kind == "map":
        value = yaml.safe_dump(value, default_flow_style=True, width=1 << 20, allow_unicode=True).strip()
    return ["--%s=%s" % (key, repr(value) if kind == "float" else value)]


def expected(key, value):
    return {"float": float}.get(KIND[key], lambda v: v)(value)


def main(script, argv):
    """Runs a script of the repository as a program: (exit code, printed text)."""
    out, old = io.StringIO(), sys.argv
    sys.argv = [script] + argv
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(os.path.join(REPO, script), run_name="__main__")
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        sys.argv = old
    return code, out.getvalue()


made = []


class Recorder:
    def __init__(self, **kw):
        self.kw, self.calls = copy.deepcopy(kw), []
        made.append(self)

    def run(self):
        self.calls.append("run")

    def profile(self, **kw):
        self.calls.append(("profile", kw))


def launch(argv):
    """The recorder built by train.py, or the printed error."""
    import trainer

    trainer.TRAINERS["verif_recorder"] = Recorder
    del made[:]
    try:
        code, out = main("train.py", argv)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    if code:
        require(not made, "train.py ends with %r after it built a trainer", code, key="settings")
        return out[-400:]
    require(len(made) == 1 and len(made[0].calls) == 1, "train.py built %d trainers", len(made), key="settings")
    return made[0]


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, b))


def unordered(v):
    return {k: unordered(v[k]) for k in sorted(v, key=repr)} if isinstance(v, dict) else [unordered(x) for x in v] if isinstance(v, list) else v


def equal(have, want, base, what):
    require(set(have) == set(base), "%s: the trainer gets the settings %r", what, sorted(set(have) ^ set(base)), key="settings")
    for k, v in base.items():
        v = want.get(k, v)
        require(same(unordered(have[k]), unordered(v)), "%s: %s is %r instead of %r", what, k, have[k], v, key="settings")


def check_settings(c, ctx):
    rundir = os.path.join(ctx.tmp, "run")
    fixed = ["--trainer_type", "verif_recorder", "--use_cpu"]
    base = launch(fixed + ["-r", os.path.join(ctx.tmp, "base"), "--dataset_type", "x", "--model_type", "y"])
    require(isinstance(base, Recorder) and base.calls == ["run"], "train.py fails on minimal options: %s", base, key="settings")
    base = dict(base.kw, rundir=rundir)
    file, argv, want = {"rundir": rundir}, [], {}
    for k, v in c["options"].items():
        if c["where"][k] != "cli":
            file[k] = c["other"].get(k, v)
        if c["where"][k] != "file":
            argv += words_of(k, v)
        want[k] = expected(k, v)
        if KIND[k] == "flag":       # a flag cannot be taken back
            want[k] = bool(v or file.get(k))
    for k in c["null"]:
        file.setdefault(k, None)
    if c["profile"]:
        file.update(profile=True, profile_memory=True, profile_active_iters=7)
    if c["unknown"]:
        file[c["unknown"]] = 1
    if c["dashes"]:
        file = {"--" + k: v for k, v in file.items()}
    path = os.path.join(ctx.tmp, "config.yaml")
    with open(path, "w", encoding="utf-8") as f:
        yaml.safe_dump(file, f, sort_keys=False, allow_unicode=c["flow"], default_flow_style=c["flow"] or None)
    got = launch(["-c", path] + fixed + argv)
    if c["unknown"]:
        require(not isinstance(got, Recorder), "the unknown key %s is accepted", c["unknown"], key="unknown")
        return
    require(isinstance(got, Recorder), "train.py refuses %r %r: %s", file, argv, got, key="settings")
    equal(got.kw, want, base, "train.py")
    calls = [("profile", dict(warmup=10, active=7, memory=True))] if c["profile"] else ["run"]
    have = [(k[0], dict(warmup=k[1]["warmup"], active=k[1]["active"], memory=k[1]["profile_memory"])) if isinstance(k, tuple) else k for k in got.calls]
    require(have == calls, "train.py calls %r", got.calls, key="settings")
    record = os.path.join(rundir, "run_config.yaml")
    require(os.path.exists(record), "no record of the settings", key="record")
    with open(record, encoding="utf-8") as f:
        content = f.read()
    provenance = yaml.safe_load(content).get("_provenance")
    require(isinstance(provenance, dict) and set(provenance) == {"git_commit", "torch_version", "cuda_version", "accelerate_version"}
            and provenance["torch_version"] == str(torch.__version__), "the record names %r", provenance, key="record")
    again = launch(["-c", record])
    require(isinstance(again, Recorder), "train.py refuses its own record: %s", again, key="record")
    equal(again.kw, want, base, "from the record")
    with open(record, encoding="utf-8") as f:
        require(f.read() == content, "starting from the record rewrites it", key="record")
    argv = [w for k, v in c["again"].items() for w in words_of(k, v)]
    third = launch(["-c", record] + argv)
    require(isinstance(third, Recorder), "train.py refuses its own record with %r: %s", argv, third, key="record")
    equal(third.kw, dict(want, **{k: expected(k, v) for k, v in c["again"].items()}), base, "from the record and the command line")
    ctx.label("given twice", "both" in c["where"].values())
    ctx.nontrivial("both" in c["where"].values() or any(c["options"].get(k) for k in MAPS))


# ---------------------------------------------------------------- train, then evaluate from the record

@st.composite
def overriding(draw, base):
    """A mapping that shares keys with another on several levels."""
    out = {}
    for k, v in base.items():
        how = draw(st.integers(0, 3))
        if how and isinstance(v, dict):
            out[k] = draw(overriding(v))
        elif how == 1:
            out[k] = draw(scalars)
    out.update(draw(st.dictionaries(text, nested, max_size=1)) if draw(st.booleans()) else {})
    return out


@st.composite
def evaluation(draw):
    c = c14.draw_eval(draw)
    if "weights" in c["data"]:      # test.py asks for data files
        d = draw_dataset(draw, max_rows=9, max_files=3, composite=False)
        d.update(shuffle=False, rate=1.0, symmetry=None)
        c["data"] = d
    payload = draw(st.dictionaries(text, st.one_of(nested, st.dictionaries(text, st.one_of(scalars, st.dictionaries(text, scalars, max_size=2)), max_size=3)), max_size=3))
    c.update(vq=0, payload=payload, over=draw(overriding(payload)), iterations=draw(st.integers(1, 2)), max_batches=draw(st.sampled_from([None, None, 1, 2])), size=draw(st.sampled_from([None, 1, 3])),
             pipeline=draw(st.sampled_from([None, None, "line_encoding", "forbidden_point"])), datas=draw(st.booleans()), other=draw(st.sampled_from([False, False, True])),
             train_batch=draw(st.sampled_from([1, 2])), unknown=draw(st.integers(0, 5)) == 0)
    return c


def echo_model():
    from model import MODELS

    train.register()
    if "verif_echo" not in MODELS:
        base = MODELS["verif_tiny"]

        @MODELS.register("verif_echo")
        class Echo(base):
            built, fields = [], {True: set(), False: set()}

            def __init__(self, payload=None, **kw):
                Echo.built.append(payload)
                super().__init__(**kw)

            def forward(self, data):
                Echo.fields[self.training] |= set(data)
                return super().forward(data)
    return MODELS["verif_echo"]


def session(c, root):
    """Body of a process: train.py, test.py from its record, and the evaluation the record asks for."""
    from trainer.supervised import SupervisedTrainer

    torch.set_num_threads(1)
    Echo = echo_model()
    built = Built(c["data"], os.path.join(root, "data"))
    kind, paths, args = c14.data_args(built)
    size = args.get("fixed_board_size")
    if isinstance(size, (list, tuple)):     # a file can only name a square
        args["fixed_board_size"] = max(size)
    rundir = os.path.join(root, "run")
    margs = dict(c14.model_args(c), payload=c["payload"])
    pipes = {None: None, "line_encoding": {"line_encoding": {"line_length": 9}}, "forbidden_point": {"forbidden_point": {"fixed_side_input": bool(c["data"]["fixed_side"])}}}[c["pipeline"]]
    loader = c14.loader_args(c, kind)
    file = dict(rundir=rundir, dataset_type=kind, dataset_args=args, dataloader_args=loader, train_datas=paths, model_type="verif_echo", model_args=margs,
                batch_size=c["train_batch"], iterations=c["iterations"], random_seed=c["seed"], use_cpu=True, loss_type=c["loss"], performance_level=0,
                find_unused_parameters=True, save_interval=1, data_pipelines=pipes)
    config = os.path.join(root, "config.yaml")
    with open(config, "w") as f:
        yaml.safe_dump(file, f)
    code, out = main("train.py", ["-c", config])
    if code:
        return dict(error=out[-500:])
    ckpt, = glob.glob(os.path.join(rundir, "ckpts", "ckpt_*_%07d.pt" % c["iterations"]))
    argv = ["-c", os.path.join(rundir, "run_config.yaml"), "-p", ckpt]
    if c["unknown"]:
        with open(os.path.join(rundir, "run_config.yaml"), "a") as f:
            f.write("learning_rte: 1\n")
    over = {"payload": c["over"], "mask": c["mask"]}
    argv += ["--test_model_args", yaml.safe_dump(over, default_flow_style=True, width=1 << 20)]
    if c["datas"] and paths:
        argv += ["-d"] + paths
    if c["other"]:
        argv += ["--test_dataset_type", kind, "--test_dataset_args", yaml.safe_dump(args, default_flow_style=True, width=1 << 20)]
        argv += ["--dataset_args", "{verif: 1}"]
    for name, v in (("max_batches", c["max_batches"]), ("batch_size", c["size"]), ("eval_bs_multipler", c["mult"])):
        argv += ["--%s=%d" % (name, v)] if v else []
    argv += ["--do_cross_eval"] if c["cross"] else []
    trained = set(Echo.fields[True])
    Echo.fields[False].clear()
    del Echo.built[:]
    try:
        code, out = main("test.py", argv)
    except Exception as e:
        code, out = 1, "%s: %s" % (type(e).__name__, e)
    result = os.path.splitext(ckpt)[0] + "_test_result.json"
    have = json.load(open(result)) if os.path.exists(result) else None
    fields, models = set(Echo.fields[False]), list(Echo.built)
    merged = copy.deepcopy(margs)
    merge(merged, over)
    with train.quiet():
        t = SupervisedTrainer.init_for_evaluation(checkpoint=ckpt, model_type="verif_echo", model_args=copy.deepcopy(merged), test_datas=paths, dataset_type=kind,
                                                  dataset_args=dict(args, **({"pipeline_args": pipes} if pipes else {})), dataloader_args=loader,
                                                  batch_size=c["size"] or c["train_batch"], eval_bs_multipler=c["mult"], num_worker=0, use_cpu=True, random_seed=c["seed"])
        want = t.test(max_batches=c["max_batches"], do_cross_eval=c["cross"])
    return dict(code=code, out=out[-500:], have=have, want=want, trained=trained, fields=fields, models=models, payload=merged["payload"], ckpt=ckpt, kind=kind, args=args,
                paths=paths)


def merge(base, new):
    """The documented deep merge: mappings present on both sides are merged, everything else is replaced."""
    for k, v in new.items():
        if isinstance(v, dict) and k in base:
            if not isinstance(base[k], dict):
                raise Reject("a mapping cannot override a value")
            merge(base[k], v)
        else:
            base[k] = v


def check_evaluation(c, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    merge(copy.deepcopy(c["payload"]), c["over"])
    out = dist.ranks(1, session, (c, ctx.tmp), ctx.tmp, 100)[0]
    if out.error and any(e in out.error for e in ("produced no global batch", "no batch is available", "produced no admitted records", "pattern", "no real rows")):
        raise Reject("no data")
    require(out.value is not None, lambda: "the session fails: %s" % (out.error or out.died), key="evaluation")
    r = out.value
    require("error" not in r, "train.py fails: %s", r.get("error"), key="evaluation")
    if c["unknown"]:
        require(r["code"] and r["have"] is None, "test.py accepts an unknown configuration key", key="unknown")
        return
    require(not r["code"] and r["have"] is not None, "test.py ends with %r: %s", r["code"], r["out"], key="evaluation")
    require(len(r["models"]) == 1 and same(unordered(r["models"][0]), unordered(r["payload"])), "test.py builds the model with %r instead of %r", r["models"], r["payload"],
            key="evaluation")
    have = r["have"]
    require(set(have["metrics"]) == set(r["want"]), "test.py reports %r", sorted(have["metrics"]), key="evaluation")
    for k, v in r["want"].items():
        require(have["metrics"][k] == v or v != v, "test.py reports %s = %r, the evaluation gives %r", k, have["metrics"][k], v, key="evaluation")
    require(have["checkpoint"] == r["ckpt"] and have["dataset_type"] == r["kind"] and have["test_datas"] == r["paths"] and have["do_cross_eval"] == c["cross"],
            "the result names %r", {k: v for k, v in have.items() if k != "metrics"}, key="evaluation")
    require(not r["trained"] - r["fields"], "the evaluated samples lack %r", sorted(r["trained"] - r["fields"]), key="evaluation")
    ctx.label("pipeline %s" % c["pipeline"])
    ctx.nontrivial(have["num_entries"] > 0)


# ---------------------------------------------------------------- event files

def scalars_of(folder):
    """[(tag, step, value)] of all event files below a folder."""
    from tensorboard.backend.event_processing.event_file_loader import EventFileLoader

    out = []
    for path in sorted(glob.glob(os.path.join(folder, "**", "events.out.*"), recursive=True)):
        for event in EventFileLoader(path).Load():
            for v in event.summary.value:
                out.append((v.tag, event.step, float(v.tensor.float_val[0]) if v.HasField("tensor") else v.simple_value))
    return out


@st.composite
def logged(draw):
    job = runs.draw_job(draw, max_iterations=8)
    job.update(noise=False)
    return dict(job=job, log=draw(st.sampled_from([1, 2, 3])), show=draw(st.sampled_from([0, 1, 2, 3])), sessions=draw(st.sampled_from([1, 1, 2])), observe=draw(st.booleans()))


def logging_run(kw, rundir):
    torch.set_num_threads(1)
    train.register()
    t = train.trainer(rundir=rundir, **kw)
    with train.quiet():
        t.run()


def averages(c, kw, starts, lines, single):
    """Every line averages what was trained since the last report and describes its own iteration."""
    from utils.training_utils import build_lr_scheduler

    job = c["job"]
    single = {line["it"]: line for line in single if "train_loss" in line}
    lines = [line for line in lines if "train_loss" in line]
    require([line["it"] for line in lines] == list(range(c["log"], job["iterations"] + 1, c["log"])), "lines at %r", [line["it"] for line in lines], key="lines")
    rates = []
    for start, end in zip(starts, starts[1:]):
        if not start:
            opt = torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=kw["learning_rate"])
            sched = build_lr_scheduler(opt, kw["lr_scheduler_type"], end, **kw["lr_scheduler_args"])
            for _ in range(end):
                opt.step()
                sched.step()
                rates.append(sched.get_last_lr()[0])
    for line in lines:
        it = line["it"]
        done = max([i for i in range(it) if i % c["log"] == 0 or i % kw["show_interval"] == 0 or i in starts])
        for group in ("train_loss", "train_aux"):
            parts = [single[i][group] for i in range(done + 1, it + 1)]
            for k, v in line[group].items():
                mean = sum(p.get(k, math.nan) for p in parts) / len(parts)
                require(abs(v - mean) <= 1e-4 * max(1, abs(mean)) or mean != mean, "iteration %d logs %s = %.7g, the iterations since %d average %.7g", it, k, v, done, mean,
                        key="lines")
            for k in parts[-1]:
                require(k in line[group] or any(k not in p for p in parts), "iteration %d does not log %s", it, k, key="lines")
        stat, speed = line["running_stat"], line["running_stat"]["it/s"] * job["batch"] * job["accumulate"]
        require(stat["rows"] == it * job["batch"] * job["accumulate"], "iteration %d logs row %r", it, stat["rows"], key="lines")
        require(abs(stat["entry/s"] - speed) <= 1e-6 * speed, "iteration %d logs %r entries/s at %r iterations/s", it, stat["entry/s"], stat["it/s"], key="lines")
        if it <= len(rates):
            require(abs(stat["lr"] - rates[it - 1]) <= 1e-9, "iteration %d logs the learning rate %r instead of %r", it, stat["lr"], rates[it - 1], key="lines")


def check_logs(c, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job = c["job"]
    kw = dict(runs.settings(job, ctx.tmp), log_interval=c["log"], show_interval=c.get("show") or 10 ** 6)
    if c["observe"] and kw["dataset_type"] not in MAP_TYPES.values() and "weights" not in job["data"] and kw["dataset_type"].startswith("batched"):
        kw["dataset_args"] = dict(kw["dataset_args"], observability=True)
    rundir, each = os.path.join(ctx.tmp, "run"), os.path.join(ctx.tmp, "each")
    ends = [job["iterations"]] if c["sessions"] == 1 else [job["iterations"] // 2, job["iterations"]]
    for end in ends:
        out = dist.ranks(1, logging_run, (dict(kw, iterations=end), rundir), ctx.tmp, 100)[0]
        if out.error is None and out.died is None:
            out = dist.ranks(1, logging_run, (dict(kw, iterations=end, log_interval=1, show_interval=10 ** 6), each), ctx.tmp, 100)[0]
        if out.error and any(e in out.error for e in ("produced no global batch", "no batch is available", "produced no admitted records", "resume")):
            raise Reject("no batch")
        require(out.error is None and out.died is None, lambda: "training fails: %s" % (out.error or out.died), key="logs")
    averages(c, kw, [0] + ends, train.log_lines(rundir), train.log_lines(each))
    want = {}
    for line in train.log_lines(rundir):
        groups = {"train": line.get("train_loss"), "train_aux": line.get("train_aux"), "running_stat": line.get("running_stat"), "validation": line.get("val_loss"),
                  "validation_aux": line.get("val_aux"), "data_pipeline": line.get("data_pipeline")}
        rows = line["it"] * job["batch"] * job["accumulate"]
        for group, values in groups.items():
            for k, v in (values or {}).items():
                want.setdefault(("%s/%s" % (group, k), line["it"]), []).append(float(np.float32(v)))
                want.setdefault(("%s_rows/%s" % (group, k), rows), []).append(float(np.float32(v)))
    have = {}
    for tag, step, value in scalars_of(rundir):
        have.setdefault((tag, step), []).append(value)
    ignore = ("data_pipeline",)
    for key in sorted(set(have) | set(want)):
        if key[0].startswith(ignore):
            continue
        a, b = sorted(have.get(key, [])), sorted(want.get(key, []))
        require(len(a) == len(b) and all(x == y or x != x and y != y for x, y in zip(a, b)), "event files hold %s at %d as %r, the log as %r", key[0], key[1], a, b, key="logs")
    ctx.label("sessions %d" % c["sessions"])
    ctx.nontrivial(len({k[1] for k in want}) > 2)


@st.composite
def stream(draw):
    return dict(capacity=draw(st.sampled_from([1, 100, 1000, 5000, 1 << 18])), default=draw(st.booleans()),
                ops=draw(st.lists(st.one_of(st.tuples(st.just("add"), st.integers(1, 60)), st.tuples(st.just("flush"), st.just(0))), min_size=1, max_size=12)))


def check_stream(c, ctx):
    from torch.utils.tensorboard import SummaryWriter
    from utils.tb_writer import buffer_tensorboard_writer, create_summary_writer

    w = create_summary_writer(ctx.tmp) if c["default"] else buffer_tensorboard_writer(SummaryWriter(ctx.tmp), c["capacity"])
    want, step = [], 0
    flushes = 0
    for op, n in c["ops"]:
        if op == "flush":
            w.flush()
            require(scalars_of(ctx.tmp) == want, "after a flush the event file holds %d of %d scalars", len(scalars_of(ctx.tmp)), len(want), key="stream")
            flushes += 1
        for _ in range(n):
            step += 1
            w.add_scalar("t/%d" % (step % 7), step * 0.5, step)
            want.append(("t/%d" % (step % 7), step, step * 0.5))
    w.close()
    require(scalars_of(ctx.tmp) == want, "the closed event file holds %d of %d scalars", len(scalars_of(ctx.tmp)), len(want), key="stream")
    ctx.nontrivial(len(want) > 20 and flushes > 0)


CAMPAIGNS = [Campaign("settings", options, check_settings, 900, 20000, shards=3, case_timeout=60),
             Campaign("evaluation", evaluation, check_evaluation, 160, 1500, shards=3, case_timeout=150),
             Campaign("logs", logged, check_logs, 60, 1000, shards=2, case_timeout=150),
             Campaign("stream", stream, check_stream, 80, 1500, shards=1)]
