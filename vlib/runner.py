"""Runs the campaigns of one property: sharded generated-input search, confirmation, replay, evidence."""
import argparse
import atexit
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import build
from .api import Ctx, Reject, Violation, canonical, case_hash, derive_seed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _add_hypothesis(scratch):
    d = os.path.join(scratch, "hyp")
    os.makedirs(d)
    for n in os.listdir(HYP):
        if n in ("hypothesis", "sortedcontainers", "attr", "attrs") or (
                n.startswith("_hypothesis") and n.endswith(".py")):
            os.symlink(os.path.join(HYP, n), os.path.join(d, n))
    sys.path.append(d)


class StopRun(KeyboardInterrupt):
    pass


def from_repo(tb):
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def classify(exc):
    """'violation' | 'harness' for an exception raised by a case."""
    if isinstance(exc, AssertionError):
        return "violation"
    # The code under test raised on an input the property covers (a check that expects a
    # rejection catches it itself).
    e = exc
    while e is not None:
        if from_repo(e.__traceback__):
            return "violation"
        e = e.__cause__ or e.__context__
    return "harness"


def describe(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]


def run_case(campaign, case, scratch, stats=None):
    ctx = Ctx(stats, scratch)
    try:
        campaign.check(case, ctx)
    finally:
        ctx.close()
    return ctx


class Shard:
    def __init__(self, campaign, index, count, seed, budget, known, of=1):
        self.of = of
        self.campaign, self.index, self.count, self.seed = campaign, index, count, seed
        self.budget, self.known = budget, known
        self.name = f"{campaign.name}#{index}"


def shard_body(shard, scratch, out_path, progress_path):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = dict(evaluations=0, rejected=0, labels={}, distinct=[], samples=[], known={}, failure=None, error=None,
               stopped=False, trivial_samples=[])
    distinct = set()
    t0 = time.monotonic()
    state = dict(fail_at=None, best=None)
    campaign = shard.campaign

    def one(case):
        now = time.monotonic()
        if state["fail_at"] is None:
            if now - t0 > shard.budget:
                res["stopped"] = True
                raise StopRun()
        elif now - state["fail_at"] > min(45, shard.budget):
            raise StopRun()
        text = canonical(case)
        with open(progress_path, "w") as f:
            f.write(text)
        try:
            ctx = run_case(campaign, case, scratch)
        except Reject:
            res["rejected"] += 1
            return
        except Exception as exc:  # noqa: BLE001
            if type(exc).__module__.startswith("hypothesis"):
                raise
            kind = classify(exc)
            key = getattr(exc, "key", None)
            if kind == "violation" and key is not None and key in shard.known:
                res["known"][key] = res["known"].get(key, 0) + 1
                res["evaluations"] += 1
                return
            if state["fail_at"] is None:
                state["fail_at"] = time.monotonic()
            rank = (0 if kind == "violation" else 1, len(text), text)
            if state["best"] is None or rank < state["best"][0]:
                state["best"] = (rank, case, kind, describe(exc))
            raise
        if state["fail_at"] is None:
            res["evaluations"] += 1
            for l in ctx.labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if ctx._nontrivial:
                distinct.add(case_hash(case))
                if len(res["samples"]) < 2 and len(text) < 4000:
                    res["samples"].append(case)

    # Hypothesis entropy is pinned by the seed; its database and deadlines are off.
    @hypothesis.seed(shard.seed)
    @settings(max_examples=shard.count, deadline=None, database=None, derandomize=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink], print_blob=False)
    @given((campaign.strategy or hypothesis.strategies.nothing)())
    def prop(case):
        one(case)

    try:
        if campaign.exhaustive is not None:
            for case in campaign.exhaustive()[shard.index::shard.of]:
                one(case)
        if shard.count and campaign.strategy is not None:
            prop()
    except StopRun:
        pass
    except BaseException as exc:  # noqa: BLE001
        if state["best"] is None:
            res["error"] = describe(exc)
    if state["best"] is not None:
        _, case, kind, text = state["best"]
        res["failure"] = dict(case=case, kind=kind, message=text)
    res["distinct"] = sorted(distinct)
    res["wall"] = time.monotonic() - t0
    with open(out_path + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out_path + ".tmp", out_path)


def spawn(fn, *args, log):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        os.setpgid(0, 0)
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        fn(*args)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 70
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def kill_group(pid):
    for target in (-pid, pid):
        try:
            os.kill(target, signal.SIGKILL) if target > 0 else os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def replay_body(campaign, case, scratch, out_path):
    res = dict(kind="pass", message="")
    try:
        run_case(campaign, case, scratch)
    except Reject:
        res = dict(kind="reject", message="")
    except Exception as exc:  # noqa: BLE001
        res = dict(kind=classify(exc), message=describe(exc), key=getattr(exc, "key", None))
    with open(out_path, "w") as f:
        json.dump(res, f)


def prepare_body(mod):
    mod.prepare()


def replay_case(campaign, case, scratch):
    """Runs one case in a fresh process. -> dict(kind=pass|violation|harness|crash|hang)."""
    work = tempfile.mkdtemp(dir=scratch)
    out = os.path.join(work, "out.json")
    log = os.path.join(work, "log")
    pid = spawn(replay_body, campaign, case, work, out, log=log)
    deadline = time.monotonic() + campaign.case_timeout
    status = None
    while time.monotonic() < deadline:
        p, status_ = os.waitpid(pid, os.WNOHANG)
        if p:
            status = status_
            break
        time.sleep(0.01)
    if status is None:
        kill_group(pid)
        os.waitpid(pid, 0)
        r = dict(kind="hang", message=f"no result within {campaign.case_timeout} s")
    else:
        kill_group(pid)
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            r = dict(kind="crash", message=f"process ended with wait status {status}\n" + open(log).read()[-3000:])
    shutil.rmtree(work, ignore_errors=True)
    return r


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--budget", type=float)
    args = ap.parse_args(argv)
    pid_name = args.property.upper()
    if args.replay:
        args.replay = os.path.abspath(args.replay)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    verbose = os.environ.get("VERIF_VERBOSE") == "1"
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid_name}-")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.environ["KEOPS_CACHE_FOLDER"] = os.path.join(scratch, "keops")
    os.environ["TORCHINDUCTOR_CACHE_DIR"] = os.path.join(scratch, "inductor")
    os.environ["TRITON_CACHE_DIR"] = os.path.join(scratch, "triton")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["VERIF_REPO"] = REPO
    try:
        sys.path.insert(0, REPO)
        _add_hypothesis(scratch)
        probe = None
        with open(os.path.join(VERIF, "checks", pid_name.lower() + ".py")) as f:
            probe = f.read()
        if "NEEDS_EXT = False" not in probe:
            ext = build.build_extensions(REPO, scratch)
            sys.path.insert(0, ext)
            os.environ["VERIF_EXT"] = ext
        os.chdir(scratch)
        mod = importlib.import_module("checks." + pid_name.lower())
    except Exception as exc:  # noqa: BLE001
        print(f"ERROR property={pid_name}: could not set up\n{describe(exc)}")
        return 2
    campaigns = {c.name: c for c in mod.CAMPAIGNS}
    replays = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e.get("status") == "known" and e["property"] == pid_name:
                known[e["key"]] = e["what"]

    def save_replay(cname, case, message):
        path = os.path.join(replays, f"{pid_name}-{cname}-{case_hash(case)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid_name, campaign=cname, case=case, message=message), f, indent=1)
        return path

    if hasattr(mod, "prepare"):  # fills caches shared by all shards (compiled kernels); its outcome is not judged
        pid = spawn(prepare_body, mod, log=os.path.join(scratch, "prepare.log"))
        limit = time.monotonic() + 180
        while os.waitpid(pid, os.WNOHANG)[0] == 0:
            if time.monotonic() > limit:
                kill_group(pid)
                os.waitpid(pid, 0)
                break
            time.sleep(0.02)

    if args.replay:
        d = json.load(open(args.replay))
        r = replay_case(campaigns[d["campaign"]], d["case"], scratch)
        print(r["kind"], r.get("key"), r["message"])
        if r["kind"] in ("violation", "crash", "hang"):
            print(f"VIOLATION property={pid_name} replay={args.replay}")
            return 1
        return 0 if r["kind"] in ("pass", "reject") else 2

    violations, errors, known_hits = [], [], {}

    # 1. Saved regression cases bypass the generator.
    corpus_dir = os.path.join(VERIF, "corpus", pid_name)
    corpus_n = 0
    for name in sorted(os.listdir(corpus_dir)) if os.path.isdir(corpus_dir) else []:
        if not name.endswith(".json"):
            continue
        d = json.load(open(os.path.join(corpus_dir, name)))
        if d["campaign"] not in campaigns or (args.only and d["campaign"] not in args.only):
            continue
        corpus_n += 1
        r = replay_case(campaigns[d["campaign"]], d["case"], scratch)
        if r["kind"] in ("violation", "crash", "hang"):
            if r.get("key") in known:
                known_hits[r["key"]] = known_hits.get(r["key"], 0) + 1
            else:
                violations.append((save_replay(d["campaign"], d["case"], r["message"]), r["message"]))
        elif r["kind"] == "harness":
            errors.append(f"corpus {name}: {r['message']}")

    # 2. Generated search.
    budget = args.budget or getattr(mod, "BUDGET", {"quick": 60, "thorough": 600})[tier]
    shards = []
    selected = [c for c in mod.CAMPAIGNS if not args.only or c.name in args.only]
    for c in selected:
        total = max(1, int((c.quick if tier == "quick" else c.thorough) * scale))
        n = max(1, min(c.shards, total)) if tier == "quick" else max(1, min(8, total))
        for i in range(n):
            count = total // n + (1 if i < total % n else 0)
            shards.append(Shard(c, i, count, derive_seed(seed, pid_name, c.name, i), budget, known, n))
    # Interleave so that every campaign starts early.
    shards.sort(key=lambda s: (s.index, ))
    pending = list(shards)
    running = {}
    results = {}
    reruns = {}

    def launch(s):
        work = tempfile.mkdtemp(dir=scratch)
        out, prog, log = (os.path.join(work, n) for n in ("out.json", "progress", "log"))
        running[spawn(shard_body, s, work, out, prog, log=log)] = (s, work, out, prog, log, time.monotonic())

    overall_deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    stop_early = False
    while pending or running:
        while pending and len(running) < jobs and not stop_early:
            launch(pending.pop(0))
        if stop_early:
            pending = []
        progressed = False
        for p in list(running):
            s, work, out, prog, log, started = running[p]
            q, status = os.waitpid(p, os.WNOHANG)
            hang = False
            if not q:
                try:
                    age = time.time() - os.stat(prog).st_mtime
                except OSError:
                    age = time.monotonic() - started - 60
                if age > s.campaign.case_timeout or time.monotonic() > overall_deadline:
                    hang = age > s.campaign.case_timeout
                    kill_group(p)
                    os.waitpid(p, 0)
                else:
                    continue
            progressed = True
            kill_group(p)
            del running[p]
            if os.path.exists(out):
                results.setdefault(s.campaign.name, []).append((s, json.load(open(out))))
                if results[s.campaign.name][-1][1]["failure"]:
                    stop_early = stop_early or not verbose
            else:
                case = None
                if os.path.exists(prog):
                    try:
                        case = json.loads(open(prog).read())
                    except ValueError:
                        case = None
                text = open(log).read()[-3000:] if os.path.exists(log) else ""
                if case is None:
                    errors.append(f"shard {s.name} ended without a result (status {status})\n{text}")
                elif not q and not hang:
                    errors.append(f"shard {s.name} stopped at the overall deadline")
                else:
                    results.setdefault(s.campaign.name, []).append((s, dict(
                        evaluations=0, rejected=0, labels={}, distinct=[], samples=[], known={}, stopped=True,
                        error=None, wall=0, failure=dict(case=case, kind="hang" if hang else "crash",
                                                         message=f"status {status}\n{text}"))))
                    stop_early = stop_early or not verbose
            shutil.rmtree(work, ignore_errors=True)
        if not progressed:
            time.sleep(0.02)

    # 3. Confirm failures in fresh processes.
    evaluations = rejected = 0
    distinct, labels, samples, per = set(), {}, [], {}
    for cname, items in sorted(results.items()):
        c = campaigns[cname]
        cstat = per.setdefault(cname, dict(evaluations=0, nontrivial=0, rejected=0, stopped_by_budget=0, labels={}))
        cdistinct = set()
        confirmed = False
        for s, r in sorted(items, key=lambda x: x[0].index):
            evaluations += r["evaluations"]
            rejected += r["rejected"]
            cstat["evaluations"] += r["evaluations"]
            cstat["rejected"] += r["rejected"]
            cstat["stopped_by_budget"] += int(bool(r["stopped"]))
            cdistinct.update(r["distinct"])
            for k, v in r["labels"].items():
                cstat["labels"][k] = cstat["labels"].get(k, 0) + v
            for k, v in r["known"].items():
                known_hits[k] = known_hits.get(k, 0) + v
            if s.index == 0:
                samples += [dict(campaign=cname, case=x) for x in r["samples"][:1]]
            if r["error"]:
                errors.append(f"{s.name}: {r['error']}")
            f = r["failure"]
            if f and not confirmed:
                if f["kind"] == "harness":
                    errors.append(f"{s.name}: harness error on {canonical(f['case'])[:600]}\n{f['message']}")
                    continue
                rr = None
                for _ in range(3):
                    rr = replay_case(c, f["case"], scratch)
                    if rr["kind"] in ("violation", "crash", "hang"):
                        break
                if rr["kind"] in ("violation", "crash", "hang"):
                    if rr.get("key") in known:
                        known_hits[rr["key"]] = known_hits.get(rr["key"], 0) + 1
                        continue
                    confirmed = True
                    violations.append((save_replay(cname, f["case"], rr["message"]), rr["message"]))
                else:
                    # Not reproduced alone: the failure needs the shard's history; run the shard again.
                    work = tempfile.mkdtemp(dir=scratch)
                    out, prog, log = (os.path.join(work, n) for n in ("out.json", "progress", "log"))
                    p = spawn(shard_body, s, work, out, prog, log=log)
                    os.waitpid(p, 0)
                    again = json.load(open(out)) if os.path.exists(out) else None
                    if again is None or again["failure"]:
                        confirmed = True
                        violations.append((save_replay(cname, f["case"], "needs the history of shard "
                                                       f"{s.name} seed {s.seed}\n" + f["message"]), f["message"]))
                    else:
                        errors.append(f"{s.name}: failure did not reproduce: {f['message']}")
        cstat["nontrivial"] = len(cdistinct)
        distinct.update(f"{cname}/{h}" for h in cdistinct)
    wall = time.monotonic() - t0
    evidence = dict(
        property=pid_name, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=mod.RULE,
                      samples=samples[:8], rejected=rejected, corpus_replayed=corpus_n, campaigns=per,
                      known_findings_hit=known_hits),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(violations))
    if not args.only:
        path = os.path.join(VERIF, "evidence", pid_name + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
    for k, what in known.items():
        if k in known_hits:
            print(f"KNOWN-FINDING: property={pid_name} {what}")
    print(f"{pid_name} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
          f"{rejected} rejected, {corpus_n} corpus, {wall:.1f}s")
    if verbose:
        print(json.dumps(per, indent=1))
        for cname, items in results.items():
            print(cname, "walls", [round(r.get("wall", 0), 1) for _s, r in items])
    for path, message in violations:
        print(message)
        print(f"VIOLATION property={pid_name} replay={path}")
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    empty = [n for n, x in per.items() if x["nontrivial"] == 0 and x["evaluations"] > 0]
    if empty and not args.only:
        print("ERROR no non-trivial case generated in", empty)
        return 2
    return 0
