"""C20: checkpoint files are atomic, discoverable and complete."""
import contextlib
import glob
import os
import random
import re
import resource
import signal
import threading

import torch
from hypothesis import strategies as st

from vlib import dist, keops, runs, train
from vlib.api import Campaign, Reject, require

RULE = ("A case is a history of saves with failing or dying file-system calls, a folder listing, a history of background saves interleaved with changes of the saved tensors, "
        "or a training run whose k-th file-system call fails. Non-trivial: a file was overwritten or a fault hit, a listing has several candidates, "
        "a saved tensor changed while its save was pending or a finalizer failed.")
ASSUMPTIONS = ["a kill is the end of the process at the chosen call (what the call wrote before stays; no lost page cache)",
               "there is no CUDA device: streams are simulated, with copies and changes of device tensors executed as late or as early as the recorded dependencies allow",
               "checkpoint names follow <prefix>_<iteration>.<ext>; foreign names do not start with the prefix and end with the extension of a checkpoint"]
BUDGET = {"quick": 45, "thorough": 700}
NEEDS_EXT = True
DTYPES = [torch.float32, torch.bfloat16, torch.float64, torch.int64, torch.int8, torch.bool]
MODES = [how + when for how in ("kill", "raise") for when in ("-before", "-after", "-torn")]
LIMITS = [0, 300, 1000, 1500, 3000, 10000]


# ---------------------------------------------------------------- saved files

@st.composite
def tree(draw):
    return [draw(st.integers(0, 1 << 20)), draw(st.integers(0, 4)), draw(st.integers(0, 2)), draw(st.integers(0, 2))]


def content(spec):
    """(model, extras, metadata) of a generated checkpoint."""
    seed, tensors, extras, meta = spec
    rng = random.Random(seed)
    gen = torch.Generator().manual_seed(seed)

    def tensor():
        t = (torch.randn([rng.choice([0, 1, 2, 5, 40]) for _ in range(rng.randrange(4))], generator=gen) * 50)
        if t.dim() == 2 and rng.random() < 0.5:
            t = t.t()
        return t.to(rng.choice(DTYPES))

    def nested(depth):
        kind = rng.randrange(6 if depth else 4)
        if kind == 0:
            return tensor()
        if kind == 1:
            return rng.randrange(-10 ** 6, 10 ** 6)
        if kind == 2:
            return rng.random()
        if kind == 3:
            return rng.choice(["text", None, True, ()])
        if kind == 4:
            return [nested(depth - 1) for _ in range(rng.randrange(3))]
        return {str(i): nested(depth - 1) for i in range(rng.randrange(3))}
    model = {"layer%d.weight" % i: tensor() for i in range(tensors)}
    if tensors > 2:
        model["shared"] = model["layer0.weight"]
    return (model, {("optimizer", "scaler")[i]: {"state": nested(2), str(i): nested(1)} for i in range(extras)},
            {("iteration", "epoch")[i]: str(rng.randrange(10 ** 7)) for i in range(meta)})


@st.composite
def files_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append(dict(path=draw(st.integers(0, 4)), tree=draw(tree()), atomic=draw(st.booleans()), fault=draw(st.integers(0, 3)) == 0 and draw(
            st.sampled_from(MODES)), at=draw(st.integers(0, 5))))
    return dict(ops=ops, ext=draw(st.sampled_from([".pt", ".pt", ".pth", ""])), its=draw(st.lists(st.integers(0, 12_000_000), min_size=5, max_size=5, unique=True)))


def save(path, op, root, fault):
    """Body of a forked process: one save with a fault."""
    import trainer.base
    from utils.file_utils import save_torch_ckpt

    limit = fault and fault[1] == "limit"
    faults = runs.Faults(root, *(fault if fault and not limit else ()), files=True)
    if limit:       # the disk is full after some bytes
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fault[0], resource.RLIM_INFINITY))
    faults.install()
    model, extras, meta = content(op["tree"])
    try:
        with train.quiet():
            whole = getattr(trainer.base, "_atomic_torch_save", None)
            if op["atomic"] and whole:
                whole(dict({"model": model}, **extras, **meta), path)
            else:
                save_torch_ckpt(path, model, extras, meta or None)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    return faults.log


def read(path):
    from utils.file_utils import load_torch_ckpt

    model, extras, meta = load_torch_ckpt(path)
    return model, extras, meta


def files_check(case, ctx):
    import trainer.base  # noqa: F401 - forks inherit the import

    from utils.file_utils import find_latest_ckpt

    root = os.path.join(ctx.tmp, "a", "ckpts.d")
    held = {}
    for op in case["ops"]:
        name = os.path.join(root, "state_%07d%s" % (case["its"][op["path"]], case["ext"]))
        path = name if case["ext"] else name + ".pt"
        if op["atomic"]:
            os.makedirs(root, exist_ok=True)
            name = path
        new = content(op["tree"])
        attempts = [(op["at"], op["fault"])] if op["fault"] else [None]
        if op is case["ops"][-1]:       # every call of the last save fails in every way
            attempts = [(k, m) for k in range(4) for m in MODES] + [(n, "limit") for n in LIMITS] + [None]
        for fault in attempts:
            out = dist.run([(save, (name, op, root, fault))], ctx.tmp)[0]
            what = "%s of %s" % ("a save" if not fault else "a save whose call %d ends with %s" % fault, os.path.basename(path))
            hit = fault and not out.value
            require(out.value or fault and (
                out.died == runs.KILLED or out.error and ("injected" in out.error or fault[1] == "limit")), lambda: "%s fails: %s" % (what, out.error or out.died), key="save")
            now = None
            if os.path.exists(path):
                try:
                    now = read(path)
                except Exception as e:
                    require(False, "%s leaves an unreadable file: %r", what, e, key="torn")
            diff = train.tree_equal(now, new) if now else "missing"
            if out.value:
                require(diff is None, "%s reads back differently: %s", what, diff, key="content")
            elif diff is not None:
                old = held.get(path)
                require((now is None) == (old is None), "%s %s", what, "loses the previous file" if old else "leaves an incomplete file", key="torn")
                require(now is None or train.tree_equal(now, old) is None, "%s leaves neither the previous nor the new content", what, key="torn")
            if now:
                held[path] = now
            ctx.nontrivial(bool(hit) or len(held) < case["ops"].index(op) + 1)
            ctx.label("fault hit", bool(hit))
            for other in held:
                if other != path:
                    require(train.tree_equal(read(other), held[other]) is None, "%s changed another file", what, key="other")
            latest = find_latest_ckpt(root, "state_")
            want = max(held, key=lambda p: int(re.search(r"_(\d+)", os.path.basename(p)).group(1)), default=None)
            require(latest == want, "the latest checkpoint after %s is %s, not %s", what, latest, want, key="latest")


# ---------------------------------------------------------------- discovery

FOREIGN = ["notes.txt", "other_9999999.pt", "xstate_9999999.pt", "{}9999999.pt.tmp", "{}9999998.txt", ".{}9999999.pt", "{}9999999.pt.bak", "runtime_9999999_0.pt", "{}9999999",
           "{}9999999.json"]


@st.composite
def discover_case(draw):
    exts = draw(st.sampled_from([None, None, [".pt"], [".sft", ".safetensors"]]))
    return dict(prefix=draw(st.sampled_from(["state_", "ckpt_net", "ckpt_net_4_64", "a"])), exts=exts, pad=draw(st.sampled_from([0, 7])),
                its=draw(st.lists(st.one_of(st.integers(0, 20), st.integers(0, 10 ** 5), st.sampled_from([9999999, 10000000, 99999, 100000, 10 ** 12])), max_size=8)),
                with_ext=draw(st.lists(st.sampled_from([".pt", ".pt", ".pth", ".sft", ".safetensors"]), min_size=8, max_size=8)),
                plain=draw(st.booleans()), foreign=draw(st.lists(st.sampled_from(FOREIGN), max_size=5, unique=True)),
                derived=draw(st.lists(st.integers(0, 7), max_size=3)), folders=draw(st.lists(st.integers(10 ** 7, 10 ** 8), max_size=2)), missing=draw(st.integers(0, 15)) == 0)


def discover_check(case, ctx):
    from utils.file_utils import find_latest_ckpt, get_iteration_from_ckpt_filename

    root = os.path.join(ctx.tmp, "d")
    args = (root, case["prefix"]) + (() if case["exts"] is None else (case["exts"],))
    if case["missing"]:
        require(find_latest_ckpt(*args) is None, "a missing folder has a checkpoint", key="latest")
        return
    os.makedirs(root)
    base = case["prefix"].rstrip("_")
    files = {}
    for it, ext in zip(case["its"], case["with_ext"]):
        name = "%s_%s%s" % (base, str(it).zfill(case["pad"]), ext)
        if case["exts"] is None or ext in case["exts"]:
            files[name] = it
        require(get_iteration_from_ckpt_filename(os.path.join("x_7", name)) == it, "the iteration of %s is read as %r", name, get_iteration_from_ckpt_filename(name), key="iteration")
        open(os.path.join(root, name), "w").close()
    plain = None
    if case["plain"] and not re.search(r"\d", base):
        plain = base + "_best" + (case["exts"] or [".pt"])[0]
        open(os.path.join(root, plain), "w").close()
    for i in case["derived"]:       # exported from a checkpoint
        if i < len(case["its"]):
            name = "%s_%s_export%s" % (base, str(case["its"][i]).zfill(case["pad"]), ".pt")
            require(get_iteration_from_ckpt_filename(name) == case["its"][i], "the iteration of %s is wrong", name, key="iteration")
            if base + "_" + str(case["its"][i]).zfill(case["pad"]) + case["with_ext"][i] in files:
                open(os.path.join(root, name), "w").close()
    for name in case["foreign"]:
        name = name.format(base + "_")
        if not (name.startswith(case["prefix"]) and name.endswith((".pt", ".pth", ".sft", ".safetensors"))):
            open(os.path.join(root, name), "w").close()
    for it in case["folders"]:
        if not os.path.exists(os.path.join(root, "%s_%d.pt" % (base, it))):
            os.makedirs(os.path.join(root, "%s_%d.pt" % (base, it)))
    got = find_latest_ckpt(*args)
    if not files:
        require(got == (plain and os.path.join(root, plain)), "found %r among %r", got, sorted(os.listdir(root)), key="latest")
    else:
        require(got is not None and os.path.dirname(got) == root and files.get(os.path.basename(got)) == max(files.values()),
                "found %r among %r", got, sorted(os.listdir(root)), key="latest")
    ctx.nontrivial(len(set(files.values())) > 1 or bool(files and case["foreign"]))


# ---------------------------------------------------------------- background writer

class Device:
    """Streams, events and tensors of a simulated device. Work runs when something waits for it, or at once on the eager streams."""

    def __init__(self, eager):
        self.lock, self.local, self.eager = threading.RLock(), threading.local(), eager
        self.gate = self.next_gate = None
        self.compute = Stream(self, "compute")

    def current(self):
        return getattr(self.local, "stream", None) or self.compute

    def hold(self):
        """The background gets to work only when the gate of its save is open."""
        if self.gate and threading.current_thread() is not threading.main_thread():
            self.gate.wait(20)

    def advance(self):
        for s in self.streams:
            if s.name in self.eager:
                s.run(len(s.work), force=False)

    @property
    def streams(self):
        return [s for s in (self.compute, getattr(self, "copy", None)) if s is not None]


class Stream:
    def __init__(self, device, name):
        self.device_, self.name, self.work, self.done = device, name, [], 0

    def put(self, fn, after=None):
        with self.device_.lock:
            self.work.append((fn, after))
            self.device_.advance()

    def run(self, upto, force=True):
        with self.device_.lock:
            while self.done < upto:
                fn, after = self.work[self.done]
                if after is not None and after[0].done < after[1]:
                    if not force:
                        return
                    after[0].run(after[1])
                self.done += 1
                if fn:
                    fn()

    def wait_stream(self, other):
        with self.device_.lock:
            self.put(None, (other, len(other.work)))

    def wait_event(self, event):
        self.put(None, event.at)

    def synchronize(self):
        upto = len(self.work)
        self.device_.hold()
        self.run(upto)

    def record_event(self, event=None):
        event = event or Event(self.device_)
        event.record(self)
        return event


class Event:
    def __init__(self, device):
        self.device_, self.at = device, None

    def record(self, stream=None):
        stream = stream or self.device_.current()
        self.at = (stream, len(stream.work))

    def wait(self, stream=None):
        (stream or self.device_.current()).wait_event(self)

    def synchronize(self):
        if self.at:
            self.device_.hold()
            self.at[0].run(self.at[1])


class Fake(torch.Tensor):
    """A tensor whose copies and changes are queued on streams of a simulated device."""

    sim = None
    no_memory = None       # number of clones until the device is out of memory

    @staticmethod
    def make(data):
        t = torch.Tensor._make_subclass(Fake, data)
        t.data_ = data
        return t

    device = property(lambda self: torch.device("cuda", 0))
    is_cuda = property(lambda self: True)
    is_cpu = property(lambda self: False)

    @classmethod
    def empty(cls, like):
        cls.sim.gate = cls.sim.next_gate
        if cls.no_memory is not None:
            cls.no_memory -= 1
            if cls.no_memory < 0:
                cls.no_memory = None
                raise torch.cuda.OutOfMemoryError("simulated")
        return cls.make(torch.full_like(like.data_, -77))

    def copy_(self, src, non_blocking=False):
        self.sim.current().put(lambda: self.data_.copy_(src.data_ if isinstance(src, Fake) else src))
        return self

    def clone(self, *, memory_format=None):
        return Fake.empty(self).copy_(self)

    def detach(self):
        return self

    def change(self, value):
        self.sim.compute.put(lambda: self.data_.add_(value))

    def cpu(self):
        self.sim.current().synchronize()
        return self.data_.clone()

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        if name == "empty_like":
            return cls.empty(args[0])
        if name in ("clone", "detach", "copy_", "cpu"):
            return getattr(cls, name)(*args)
        if name == "to":
            return args[0].cpu() if "cpu" in map(str, args[1:]) else args[0]
        return super().__torch_function__(func, types, args, kwargs or {})


@contextlib.contextmanager
def simulated(eager):
    sim = Device(eager)
    Fake.sim, Fake.no_memory = sim, None

    def new_stream(*a, **kw):
        sim.copy = Stream(sim, "copy")
        return sim.copy

    @contextlib.contextmanager
    def use(stream):
        before, sim.local.stream = getattr(sim.local, "stream", None), stream
        try:
            yield
        finally:
            sim.local.stream = before
    new = dict(Stream=new_stream, Event=lambda *a, **kw: Event(sim), current_stream=lambda *a: sim.current(), stream=use)
    old = {k: getattr(torch.cuda, k) for k in new}
    for k, v in new.items():
        setattr(torch.cuda, k, v)
    try:
        yield sim
    finally:
        for k, v in old.items():
            setattr(torch.cuda, k, v)


@st.composite
def writer_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        kind = draw(st.sampled_from(["submit", "submit", "change", "change", "change", "flush", "release"]))
        if kind == "submit":
            n = draw(st.integers(0, 4))
            ops.append(["submit", draw(st.lists(st.lists(st.integers(0, 6), max_size=4), min_size=n, max_size=n)), draw(st.sampled_from([None, None, None, 0, 1, 2, 3, "hook"])),
                        draw(st.sampled_from([True, True, False])), draw(st.sampled_from(["list", "list", "tuple", "generator"])), draw(st.booleans()),
                        draw(st.sampled_from([None] * 8 + [0, 1, 3]))])
        elif kind == "change":
            ops.append(["change", draw(st.integers(0, 6)), draw(st.integers(1, 9))])
        else:
            ops.append([kind])
    return dict(ops=ops, device=draw(st.sampled_from(["cuda", "cuda", "cuda", "cpu"])), sync=draw(st.integers(0, 7)) == 0,
                eager=draw(st.sampled_from([[], ["compute"], ["copy"], ["compute", "copy"]])))


class Failure(Exception):
    pass


def plain(obj):
    """What a file written from obj would hold."""
    if isinstance(obj, Fake):
        return obj.cpu()
    if isinstance(obj, torch.Tensor):
        return obj.clone()
    if isinstance(obj, dict):
        return {k: plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return type(obj)(plain(v) for v in obj)
    return obj


def writer_check(case, ctx):
    before = os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
    if case["sync"]:
        os.environ["NNUE_SYNC_CHECKPOINT"] = "1"
    try:
        with simulated(case["eager"]) as sim:
            Run(case, ctx, sim).run()
    finally:
        os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
        if before is not None:
            os.environ["NNUE_SYNC_CHECKPOINT"] = before


class Run:
    """One writer, its simulated device and the model of what it has to have written."""

    def __init__(self, case, ctx, sim):
        from utils.async_checkpoint import AsyncCheckpointWriter

        self.case, self.ctx, self.sim = case, ctx, sim
        self.cuda = case["device"] == "cuda"
        self.background = self.cuda and not case["sync"]
        self.writer = AsyncCheckpointWriter(torch.device(case["device"]))
        values = [torch.arange(3.0) + 10 * i for i in range(7)]
        self.model = [v.clone() for v in values]
        self.live = [Fake.make(v) if self.cuda and i < 5 else v for i, v in enumerate(values)]      # the last two stay on the host
        self.written, self.expected, self.gate, self.busy, self.hit = [], [], None, 0, False

    def obj(self, indices, tag, live):
        items = [live[i] for i in indices]
        return {"tag": tag, "tensors": items, "nested": {"t": (items[0], 1, None) if items else (), "same": list(items)}}

    def called(self, gate, tag, what, fail):
        require(self.busy == 0, "two finalizers run at the same time", key="order")
        self.busy += 1
        try:
            if threading.current_thread() is not threading.main_thread():
                gate.wait(20)
            if fail:
                raise Failure("failure of " + tag)
            self.written.append((tag, what()))
        finally:
            self.busy -= 1

    def submit(self, op, k):
        _, payloads, fail, hook, how, fresh, oom = op
        gate = threading.Event()
        if self.gate:
            self.gate.set()     # submit has to wait for the save before
        self.gate = self.sim.next_gate = gate
        again = lambda v: Fake.make(v.data_) if isinstance(v, Fake) else v.view(-1)

        def items():
            for j, indices in enumerate(payloads):
                tag = "%d.%d" % (k, j)
                obj = self.obj(indices, tag, [again(v) for v in self.live] if fresh else self.live)
                yield obj, lambda staged, tag=tag, j=j: self.called(gate, tag, lambda: plain(staged), fail == j)
        made = items() if how == "generator" else (list if how == "list" else tuple)(items())
        post = (lambda: self.called(gate, "%d" % k, lambda: "hook", fail == "hook")) if hook else None
        Fake.no_memory = armed = oom if self.cuda else None
        try:
            self.writer.submit(made, post_hook=post)
        finally:
            self.hit = armed is not None and Fake.no_memory is None
            Fake.no_memory = None

    def wants(self, op, k):
        """What the save writes, and the failure it ends with."""
        _, payloads, fail, hook = op[:4]
        out = []
        for j, indices in enumerate(payloads):
            tag = "%d.%d" % (k, j)
            if fail == j:
                return out, "failure of " + tag
            out.append((tag, plain(self.obj(indices, tag, self.model))))
        if hook and fail == "hook":
            return out, "failure of %d" % k
        return out + [("%d" % k, "hook")] * bool(hook), None

    def settle(self):
        diff = train.tree_equal(self.written, self.expected)
        require(diff is None, lambda: "%s: written %r, expected %r" % (diff, self.written, self.expected), key="content")

    def run(self):
        pending = None
        for k, op in enumerate(self.case["ops"] + [["flush"]]):
            if op[0] == "change":
                live = self.live[op[1]]
                self.model[op[1]] += op[2]
                (live.change if isinstance(live, Fake) else live.add_)(op[2])
                self.ctx.nontrivial(self.gate is not None and not self.gate.is_set() and self.background)
                continue
            if op[0] == "release":
                if self.gate:
                    self.gate.set()
                continue
            raised = None
            try:
                if op[0] == "submit":
                    self.submit(op, k)
                else:
                    if self.gate:
                        self.gate.set()
                    self.writer.flush()
            except (Failure, RuntimeError) as e:
                raised = e
            if pending:         # reported by the next call, which does nothing else
                require(isinstance(raised, RuntimeError) and pending in str(raised), "the %s in the background is reported as %r", pending, raised, key="error")
                pending = None
                self.settle()
                continue
            if op[0] == "flush":
                require(raised is None, "flush raises %r although nothing failed", raised, key="error")
                self.settle()
                continue
            self.background &= not self.hit
            new, failure = self.wants(op, k)
            self.expected += new
            self.ctx.nontrivial(failure is not None)
            self.ctx.label(("background" if self.background else "out of memory" if self.hit else "synchronous") + (" failing" if failure else ""))
            if self.background:
                require(raised is None, "starting a background save raises %r", raised, key="error")
                pending = failure
            else:
                require((raised is None) == (failure is None), "a synchronous save with the failure %r raises %r", failure, raised, key="error")
                self.settle()


# ---------------------------------------------------------------- training runs

@st.composite
def trainer_case(draw):
    job = runs.draw_job(draw, max_iterations=6, kinds="P")
    job.update(val=0, temp=draw(st.sampled_from([1, 2])), state=draw(st.sampled_from([None, None, 2])), keep=draw(st.sampled_from([1, 2])))
    return dict(job=job, faults=draw(st.lists(st.tuples(st.integers(0, 999), st.sampled_from(MODES)), min_size=6, max_size=6)))


def trainer_check(case, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job = case["job"]
    kw = runs.settings(job, ctx.tmp)
    full = os.path.join(ctx.tmp, "full")
    out = runs.run(dict(kw, save_interval=1, state_save_interval=None, num_keep_states=-1), full, ctx.tmp)[0]
    if out.error and any(e in out.error for e in ("produced no global batch", "no batch is available")):
        raise Reject("no batch")
    require(out.value, lambda: "training fails: %s" % (out.error or out.died), key="run")
    reference = {it: runs.final_files(full, it) for it in range(1, job["iterations"] + 1)}
    out = runs.run(kw, os.path.join(ctx.tmp, "plain"), ctx.tmp)[0]
    require(out.value, lambda: "training fails: %s" % (out.error or out.died), key="run")
    calls = out.value["calls"]
    for i, (at, mode) in enumerate(case["faults"]):
        rundir = os.path.join(ctx.tmp, "run%d" % i)
        k = at * len(calls) // 1000
        out = runs.run(kw, rundir, ctx.tmp, ("call", k, mode))[0]
        what = "call %d (%s) of %d ending with %s" % (k, calls[k], len(calls), mode)
        require(out.value or out.died == runs.KILLED or out.error and "injected" in out.error, lambda: "%s: %s" % (what, out.error or out.died), key="run")
        base = os.path.join(rundir, "ckpts")
        for path in sorted(glob.glob(os.path.join(base, "*"))):
            name = os.path.basename(path)
            m = re.fullmatch(r"(ckpt_.*|state)_(\d+)\.pt", name)
            if not m:
                continue
            try:
                models, state = runs.final_files(rundir, int(m.group(2)))
            except Exception as e:
                require(False, "%s leaves the incomplete file %s: %r", what, name, e, key="torn")
            wmodels, wstate = reference[int(m.group(2))]
            if m.group(1) == "state":
                diff = train.tree_equal(state, wstate)
                require(diff is None, "%s leaves %s with other content: %s", what, name, diff, key="torn")
                require(sorted(models) == sorted(wmodels), "%s leaves %s without its models: %r", what, name, sorted(models), key="complete")
                for rank in torch.load(path, weights_only=True)["resume"]["ranks"]:
                    for side in sidecars(rank):
                        ctx.label("sidecar")
                        require(os.path.exists(os.path.join(base, side)), "%s leaves %s without %s", what, name, side, key="complete")
            diff = train.tree_equal(models, {k: wmodels[k] for k in models})
            require(diff is None, "%s leaves models of iteration %s with other content: %s", what, m.group(2), diff, key="torn")
        ctx.nontrivial(not out.value)
        ctx.label("%s %s" % (calls[k], mode))


def sidecars(node):
    """The names of runtime files mentioned in a rank's entry."""
    if isinstance(node, dict):
        node = list(node.values())
    if isinstance(node, (list, tuple)):
        return [s for v in node for s in sidecars(v)]
    return [node] if isinstance(node, str) and re.fullmatch(r"runtime_.*\.pt", node) else []


CAMPAIGNS = [
    Campaign("files", files_case, files_check, 40, 500, shards=3, case_timeout=100),
    Campaign("discover", discover_case, discover_check, 600, 12000, shards=1),
    Campaign("writer", writer_case, writer_check, 800, 20000, shards=2, case_timeout=60),
    Campaign("trainer", trainer_case, trainer_check, 18, 240, shards=4, case_timeout=200),
]
