"""Runs a function in forked processes: one that may die, or several that form a gloo process group over loopback."""
import os
import pickle
import signal
import socket
import tempfile
import time
import traceback


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class Outcome:
    """What a forked rank did: value (pickled return value), error (text), or neither when it died."""

    def __init__(self, value=None, error=None, died=None):
        self.value, self.error, self.died = value, error, died


def _child(fn, args, path, env):
    os.setpgid(0, 0)
    os.environ.update(env)
    try:
        out = ("ok", fn(*args))
    except BaseException as e:      # noqa: B902 - everything is reported to the parent
        out = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
    try:
        with open(path + ".tmp", "wb") as f:
            pickle.dump(out, f)
        os.replace(path + ".tmp", path)
    finally:
        os._exit(0)


def run(fns, tmp, timeout=100, env=lambda rank: {}):
    """Forks one process per (fn, args) and returns their Outcomes; all are killed when the time is up."""
    base = tempfile.mkdtemp(dir=tmp)
    pids = []
    for i, (fn, args) in enumerate(fns):
        pid = os.fork()
        if pid == 0:
            _child(fn, args, os.path.join(base, "r%d" % i), env(i))
        pids.append(pid)
    end = time.time() + timeout
    status = {}
    try:
        while len(status) < len(pids):
            for i, pid in enumerate(pids):
                if i not in status:
                    done, st = os.waitpid(pid, os.WNOHANG)
                    if done:
                        status[i] = st
                        gone = not os.path.exists(os.path.join(base, "r%d" % i))
                        end = min(end, time.time() + (8 if gone else 30))
            if time.time() > end:
                break
            time.sleep(0.005)
    finally:
        for i, pid in enumerate(pids):
            if i not in status:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
    out = []
    for i in range(len(pids)):
        path = os.path.join(base, "r%d" % i)
        if os.path.exists(path):
            with open(path, "rb") as f:
                kind, value = pickle.load(f)
            out.append(Outcome(value=value) if kind == "ok" else Outcome(error=value))
        else:
            out.append(Outcome(died=status.get(i, "time out")))
    return out


def _reset():
    """Forget the parent's single-process accelerate state."""
    from accelerate.state import AcceleratorState, GradientState, PartialState

    AcceleratorState._reset_state(reset_partial_state=True)
    GradientState._reset_state()
    PartialState._reset_state()


def _rank(fn, args):
    import torch

    torch.set_num_threads(1)
    _reset()
    return fn(*args)


def ranks(world, fn, args, tmp, timeout=100):
    """fn(*args) in `world` ranks of one gloo group. Returns their Outcomes."""
    port = free_port()
    host = dict(MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), WORLD_SIZE=str(world), LOCAL_WORLD_SIZE=str(world), ACCELERATE_USE_CPU="true",
                OMP_NUM_THREADS="1", GLOO_SOCKET_IFNAME="lo")
    if world == 1:
        return run([(_rank, (fn, args))], tmp, timeout)
    return run([(_rank, (fn, args))] * world, tmp, timeout, lambda r: dict(host, RANK=str(r), LOCAL_RANK=str(r)))
