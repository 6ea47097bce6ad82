"""C22: what a run directory holds after any history of sessions."""
import glob
import os
import re
import shutil

from hypothesis import strategies as st

from vlib import keops, runs
from vlib.api import Campaign, Reject, require

RULE = ("A case is a training job and a history of sessions, each with its own save intervals and number of kept states, ended by completion, by a failing or killed "
        "training step or by a failing file-system call, with foreign files added in between. Non-trivial: cleanup had something to delete or a session was resumed.")
ASSUMPTIONS = ["num_keep_states is -1 or at least 1",
               "foreign files are files whose names do not follow the trainer's naming scheme ckpt_<model>_<iteration>, state_<iteration>, runtime_*",
               "snapshots left over by earlier sessions may stay (cleanup only prunes temporary snapshots of its own session)",
               "iterations repeated after an interruption follow the save interval of the session that repeats them"]
BUDGET = {"quick": 45, "thorough": 700}
NEEDS_EXT = True
EMPTY = ("produced no global batch", "no batch is available")
FOREIGN = ["notes.txt", "ckpt_best.pt", "state_old.pt", "old/state_0000001.pt", "ckpt_extra/ckpt_verif_tiny_4_0000002.pt", "weights.bin"] + [
    "%s_%07d.%s" % (name, it, ext) for it in (1, 2, 3, 4, 5, 7) for name, ext in (("best", "pt"), ("export", "pth"), ("my_ckpt", "pt"), ("old_state", "pt"))]


@st.composite
def case(draw):
    job = runs.draw_job(draw)
    job.update(val=0, iterations=draw(st.integers(4, 16)))
    sessions = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["step", "call"]))
        sessions.append(dict(save=draw(st.integers(1, 6)), temp=draw(st.integers(1, 5)), state=draw(st.sampled_from([None, None, 1, 2, 3, 5])),
                             keep=draw(st.sampled_from([1, 1, 2, 3, 4, -1])), foreign=draw(st.lists(st.sampled_from(FOREIGN), max_size=3)),
                             stop=[kind, draw(st.integers(0, 999)), draw(st.sampled_from(["kill", "raise"])) + ("" if kind == "step" else draw(
                                 st.sampled_from(["-before", "-after", "-torn"])))]))
    sessions[-1]["stop"] = None
    return dict(job=job, sessions=sessions)


def listing(rundir):
    """({iteration: model file}, {iteration: state file}, {other names})"""
    models, states, others = {}, {}, set()
    base = os.path.join(rundir, "ckpts")
    for folder, _, names in os.walk(base):
        for name in names:
            rel = os.path.relpath(os.path.join(folder, name), base)
            m = re.fullmatch(r"(ckpt_verif_tiny_4|state)_(\d{7})\.pt", rel)
            if m:
                (states if m.group(1) == "state" else models)[int(m.group(2))] = rel
            else:
                others.add(rel)
    return models, states, others


def simulate(models, states, s, start, end, final):
    """(models, upper bound of models, states) after a session that completed the iterations start+1..end."""
    must, states = set(models), set(states)
    saved = []
    for it in range(start + 1, end + 1):
        last = final and it == end
        state_due = s["state"] is not None and it % s["state"] == 0
        model_due = it % s["save"] == 0 or it % s["temp"] == 0
        if not (model_due or state_due or last):
            continue
        saved.append(it)
        if state_due or last or s["state"] is None:
            states.add(it)
            if s["keep"] > 0:
                states = set(sorted(states)[-s["keep"]:])
    must -= {i for i in saved if i % s["save"]}
    must |= {i for i in saved if i % s["save"] == 0} | {i for i in states if i in saved}
    may = must | set(models) | set(saved[-1:])
    if saved:
        must |= {saved[-1]} if saved[-1] >= max(models, default=0) else set()
    return must, may, states


def check(case, ctx):
    keops.serialise()
    runs.warm(ctx._scratch)
    job, n = case["job"], case["job"]["iterations"]
    base = runs.settings(job, ctx.tmp)
    rundir = os.path.join(ctx.tmp, "run")
    foreign, calls, exact, work, permanent = {}, 25, True, False, set()
    for i, s in enumerate(case["sessions"]):
        for name in s["foreign"]:
            path = os.path.join(rundir, "ckpts", name)
            if name == "state_old.pt" and not listing(rundir)[1]:    # refused with an error when it is the only state
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            foreign[path] = b"foreign %d" % i
            with open(path, "wb") as f:
                f.write(foreign[path])
        kw = dict(base, save_interval=s["save"], temp_save_interval=s["temp"], state_save_interval=s["state"], num_keep_states=s["keep"])
        models, states, _ = listing(rundir)
        start = max(states, default=0)
        stop = s["stop"] and list(s["stop"])
        if stop:
            total = calls if stop[0] == "call" else (n - start) * job["accumulate"]
            stop[1] = stop[1] * max(1, total) // 1000
        out = runs.run(kw, rundir, ctx.tmp, stop)[0]
        if out.error and "non-finite loss, metric" in out.error:
            raise Reject("training diverges")
        if (i == 0 or job["data"]["rate"] < 1) and out.error and any(e in out.error for e in EMPTY):
            raise Reject("no batch")
        if out.value:
            require(out.value["start"] == start, "session %d starts at %d although a state of iteration %d exists", i, out.value["start"], start, key="resume")
            calls = len(out.value["calls"])
            end, stop = n, None
        elif stop and stop[0] == "step":
            end = start + stop[1] // job["accumulate"]
        require(out.value or stop and (out.died == runs.KILLED or "injected" in out.error), lambda: "session %d fails: %s" % (i, out.error or out.died), key="run")
        now = listing(rundir)
        if stop and stop[0] == "call":
            exact = False
            require(not states or max(now[1]) >= start, "a failing save lost the latest state", key="state")
            done = range(start + 1, max(now[1], default=0) + 1)
        else:
            must, may, kept = simulate(models, states, s, start, end, not stop)
            what = "session %d (%r) from %d to %d with models %r and states %r before" % (i, s, start, end, sorted(models), sorted(states))
            if exact or not stop:
                require(set(now[1]) == kept, "%s keeps the states %r, not %r", what, sorted(now[1]), sorted(kept), key="state")
            require(must <= set(now[0]), lambda: "%s lost the snapshots %r" % (what, sorted(must - set(now[0]))), key="model")
            require(set(now[0]) <= may, lambda: "%s keeps the temporary snapshots %r" % (what, sorted(set(now[0]) - may)), key="temporary")
            done = range(start + 1, end + 1)
        permanent -= set(range(start + 1, n + 1))          # redone under the settings of this session
        permanent |= {it for it in done if it % s["save"] == 0}
        require(permanent <= set(now[0]), lambda: "the snapshots %r on the save interval are gone" % sorted(permanent - set(now[0])), key="model")
        if s["keep"] > 0 and out.value and start < n:      # a session with nothing left to do cleans nothing
            require(len(now[1]) <= s["keep"], "%d states are kept, not %d", len(now[1]), s["keep"], key="state")
        for path, data in foreign.items():
            require(os.path.exists(path), "cleanup deleted the foreign file %s", os.path.basename(path), key="foreign")
            with open(path, "rb") as f:
                require(f.read() == data, "the foreign file %s was changed", os.path.basename(path), key="foreign")
        work |= bool(start) or len(now[0]) < n
        ctx.label("session ended by " + ("completion" if out.value else "%s %s" % (stop[0], stop[2])))
    usable(case, ctx, base, rundir)
    ctx.nontrivial(work)


def usable(case, ctx, base, rundir):
    """Every kept state can be continued from."""
    s, n = case["sessions"][-1], case["job"]["iterations"]
    states = sorted(listing(rundir)[1])
    require(states and states[-1] == n, "the final state is missing: %r", states, key="state")
    older = states[:-1]
    for it in older[:1] + older[1:][-1:]:
        other = os.path.join(ctx.tmp, "copy%d" % it)
        shutil.copytree(rundir, other)
        for later in states:
            if later > it:
                os.remove(glob.glob(os.path.join(other, "ckpts", "state_%07d.pt" % later))[0])
        out = runs.run(dict(base, save_interval=s["save"], temp_save_interval=s["temp"], state_save_interval=s["state"], num_keep_states=s["keep"]), other, ctx.tmp)[0]
        require(out.value, lambda: "the kept state %d cannot be continued: %s" % (it, out.error or out.died), key="usable")
        require(out.value["start"] == it and out.value["iteration"] == n, "continuing from state %d starts at %d", it, out.value["start"], key="usable")
        ctx.label("older state continued")


CAMPAIGNS = [Campaign("history", case, check, 80, 1100, shards=8, case_timeout=200)]
