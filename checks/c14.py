"""C14: evaluation reports exact means of every real row, whatever the batching, workers, ranks and padding."""
import json
import os

import numpy as np
import torch
from hypothesis import strategies as st

from checks.c13 import Ref, metric_reference
from vlib import dist, train
from vlib.api import Campaign, require
from vlib.data import KIND_TYPES, MAP_TYPES, SEQUENTIAL, Built, draw_dataset

RULE = ("A case is a dataset (every format, planned and mapped, mixed board sizes, composite), a model, a loss, a batch size, a number of workers and "
        "of ranks. Non-trivial: the evaluation needs several batches, or its only batch is padded, or rows are spread over ranks.")
ASSUMPTIONS = ["an evaluation averages the exact means of its global batches (the trainer's definition), not of its rows",
               "relative tolerance 2e-4 (float32)", "planned sources do not shuffle in evaluation"]
BUDGET = {"quick": 60, "thorough": 900}
EMPTY = ("produced no global batch", "no batch is available", "produced no admitted records")
LOSSES = ["CE+CE", "KL+KL", "MSE+CE", "CE+MSE", "KL+NONE", "MSE+MSE"]


def draw_eval(draw, ranks=False, uneven=False):
    """uneven: a mapped source, whose rows need not fill the batches of all ranks."""
    d = draw_dataset(draw, max_rows=9, max_files=3, **(dict(kinds="".join(MAP_TYPES), composite=False) if uneven else {}))
    d.update(shuffle=False, rate=1.0, symmetry=None)
    if any(w["kind"] in SEQUENTIAL for w in d["worlds"]) and ranks:
        d = draw_dataset(draw, kinds="PRS", max_rows=9, max_files=3, composite=False)
        d.update(shuffle=False, rate=1.0, symmetry=None)
    if "weights" in d:
        d["sync"] = False
    kind = d["worlds"][0]["kind"]
    mapped = uneven or "weights" not in d and kind in MAP_TYPES and draw(st.booleans())
    if mapped:
        d["types"] = [MAP_TYPES[kind]]
        for f in d["worlds"][0]["files"]:       # a mapped source is made of files of one shape
            f["bs"] = d["worlds"][0]["admit"][0]
    case = dict(data=d, drop=draw(st.booleans()), mapped=mapped, batch=draw(st.sampled_from([1, 2, 3, 4, 8, 50])), mult=draw(st.sampled_from([1, 1, 2, 3])),
                loss=draw(st.sampled_from(LOSSES)), values=draw(st.sampled_from([3, 3, 1])), mask=draw(st.booleans()), cross=draw(st.booleans()),
                norm=draw(st.booleans()), vq=draw(st.sampled_from([0, 0, 0, 2, 5])), seed=draw(st.integers(0, 1 << 20)))
    if draw(st.integers(0, 2)) == 0:
        case["args"] = draw(st.sampled_from([{"policy_reg_lambda": 0.1}, {"value_policy_ratio": 2.0}, {"ignore_forbidden_point_policy": False}]))
    return case


def model_args(case, **kw):
    return dict(dim=4 if case["vq"] else 3 + case["seed"] % 3, norm=case["norm"], values=case["values"], seed=case["seed"], mask=case["mask"], vq=case["vq"], **kw)


def checkpoint(case, path):
    """A checkpoint with generated weights and statistics."""
    from model import build_model
    from utils.file_utils import save_torch_ckpt

    train.register()
    m = build_model("verif_tiny", **model_args(case))
    g = torch.Generator().manual_seed(case["seed"] ^ 5)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * 0.7)
        if case["norm"]:
            m.norm.running_mean.normal_(generator=g)
            m.norm.running_var.uniform_(0.3, 3, generator=g)
    save_torch_ckpt(path, m.state_dict(), metadata={"iteration": "1"})


def data_args(built):
    kind, paths, args = built.spec()
    for k in ("steps_per_epoch",):
        args.pop(k, None)
    if kind in MAP_TYPES.values():
        args = {k: v for k, v in args.items() if k in ("boardsizes", "fixed_side_input", "fixed_board_size")}
    return kind, paths, args


def loader_args(case, kind):
    """Loader options a user gives: mixed shapes of a planned source; drop_last has no say in an evaluation."""
    return dict(drop_last=case["drop"]) if kind in MAP_TYPES.values() else dict(batch_by_boardsize=True)


def evaluator(case, built, ckpt, **over):
    from trainer.supervised import SupervisedTrainer

    kind, paths, args = data_args(built)
    kw = dict(dict(batch_size=case["batch"], dataloader_args=loader_args(case, kind), eval_bs_multipler=case["mult"], num_worker=0), **over)
    train.register()
    with train.quiet():
        return SupervisedTrainer.init_for_evaluation(checkpoint=ckpt, model_type="verif_tiny", model_args=model_args(case), test_datas=paths,
                                                     dataset_type=kind, dataset_args=args, use_cpu=True, random_seed=case["seed"], **kw)


def record(model, into):
    def after(m, data, results):
        if not m.training:
            into.append(({k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in data.items()}, {k: v.clone() for k, v in results.items() if isinstance(v, torch.Tensor)}))
            if m.vq is not None:
                into[-1][1].update(x=m.pooled.clone(), book=m.vq.codebook.detach().clone())
    model.after = after


def arrays_of(data, results):
    a = {k: results[k].detach().double() for k in ("value", "policy")}
    if a["value"].ndim == 1:
        a["value"] = a["value"][:, None]
    if "board_mask" in results:
        a["board_mask"] = results["board_mask"]
    a["value_target"] = data["value_target"].double()
    a["policy_target"] = data["policy_target"].double().reshape(a["policy"].shape)
    if "forbidden_point" in data:
        a["forbidden_point"] = data["forbidden_point"]
    return a


def loss_reference(case, a, rows, loss, extra):
    extra = dict(extra)
    cfg = dict(loss=loss, extra=extra, reg=extra.pop("policy_reg_lambda", 0), ratio=extra.pop("value_policy_ratio", 1), aux={}, kd=False)
    total, parts = Ref(cfg, a, rows).losses()
    return dict({k: float(v) for k, v in parts.items()}, total_loss=float(total))


def add_vq(case, terms, results, rows, name="vq_loss", total="total_loss"):
    """The quantisation loss of the real rows and its share of the total."""
    if case["vq"]:
        x, book = results["x"].double()[rows], results["book"].double()
        loss = 1.25 * float(((x[:, None] - book[None]) ** 2).sum(2).min(1).values.mean() / x.shape[1])
        terms[name] = loss
        terms[total] += loss
    return terms


def add_perplexity(case, want, batches, rows, constant=False):
    """Perplexity of the codes of all real rows together."""
    if case["vq"]:
        counts = np.zeros(case["vq"])
        for (_, r), real in zip(batches, rows):
            x, book = r["x"].double()[real], r["book"].double()
            np.add.at(counts, ((x[:, None] - book[None]) ** 2).sum(2).argmin(1).numpy(), 1)
        p = counts[counts > 0] / counts.sum()
        if constant:
            want["vq_cluster_size_q50"] = float(batches[0][1]["book"].abs().mean())
        want["vq_perplexity"] = float(np.exp(-(p * np.log(p)).sum()))
        want["vq_normed_perplexity"] = want["vq_perplexity"] / case["vq"]
    return want


def rows_of(data, n):
    return np.nonzero(data["is_real"].numpy())[0].tolist() if "is_real" in data else list(range(n))


def check_rows(case, built, batches, ctx):
    """Every admitted record is evaluated exactly once; returns the real rows of each batch."""
    seen, rows = [], []
    for data, results in batches:
        n = len(results["value"])
        real = rows_of(data, n)
        tags = built.tags(data)
        seen += [tags[i] for i in real]
        rows.append(real)
        ctx.label("padding", len(real) < n)
    want = sorted(r.uid for w in built.worlds for r in w.records)
    require(sorted(seen) == want, "evaluation saw the records %s, the dataset has %s", sorted(seen), want)
    ctx.nontrivial(len(batches) > 1 or any(len(r) < len(b[1]["value"]) for r, b in zip(rows, batches)))
    for k, b in enumerate(batches[:-1]):
        ctx.label("partial before the last", len(rows[k]) < case["batch"] * case["mult"])
    return rows, len(want)


def near(x, y):
    return abs(x - y) <= 2e-4 * max(1.0, abs(y)) or (np.isnan(x) and np.isnan(y))


def compare(got, want, what):
    for k, v in want.items():
        require(k in got, "%s does not report %s", what, k)
        require(near(got[k], v), "%s reports %s = %r, should be %r", what, k, got[k], v)


def average(per_batch):
    keys = set.intersection(*[set(b) for b in per_batch])
    return {k: max(b[k] for b in per_batch) if k.endswith("err_max") else float(np.mean([b[k] for b in per_batch])) for k in keys}


@st.composite
def test_case(draw):
    case = draw_eval(draw)
    case["workers"] = draw(st.sampled_from([0] * 5 + [1, 2])) if case["mapped"] else 0
    case["limit"] = draw(st.sampled_from([None, None, None, 1, 2]))
    return case


def metrics_of(case, data, results, rows):
    a = arrays_of(data, results)
    h, w = a["policy"].shape[1:]
    c = dict(h=h, w=w, vch=case["values"], tch=a["value_target"].shape[1])
    want, _ = metric_reference(c, a, rows, case["cross"])
    want.update({"lossCE_" + k: v for k, v in loss_reference(case, a, rows, "CE+CE", {}).items()})
    return add_vq(case, want, results, rows, "lossCE_vq_loss", "lossCE_total_loss")


def check_test(case, ctx):
    """SupervisedTrainer.test: metrics, result file, number of entries."""
    torch.set_num_threads(1)
    built = Built(case["data"], os.path.join(ctx.tmp, "d"))
    ckpt = os.path.join(ctx.tmp, "c.pt")
    checkpoint(case, ckpt)
    t = evaluator(case, built, ckpt)
    batches = []
    record(t.unwrapped_model, batches)
    out = os.path.join(ctx.tmp, "result.json")
    with train.quiet():
        got = t.test(do_cross_eval=case["cross"], result_file=out, result_metadata={"note": "x"})
    rows, total = check_rows(case, built, batches, ctx)
    for real in rows:
        require(real, "a batch without real rows was evaluated")
    per = [metrics_of(case, d, r, i) for (d, r), i in zip(batches, rows)]
    want = add_perplexity(case, average(per), batches, rows)
    ctx.label("quantised", case["vq"] > 0)
    ctx.label("top-k ties", "top2move_acc" not in want)
    compare(got, want, "test")
    with open(out) as f:
        saved = json.load(f)
    require(saved["num_entries"] == total, "the result file counts %s entries, the dataset has %d", saved.get("num_entries"), total)
    flat = dict(saved, **saved.get("metrics", {}))
    for k in got:
        require(k in flat and near(flat[k], got[k]), "the result file has %s = %r, test() returned %r", k, flat.get(k), got[k])
    if case["limit"] and not any(w["kind"] in SEQUENTIAL for w in case["data"]["worlds"]):
        t = evaluator(case, built, ckpt)
        first = []
        record(t.unwrapped_model, first)
        with train.quiet():
            part = t.test(do_cross_eval=case["cross"], max_batches=case["limit"])
        n = min(case["limit"], len(batches))
        require(len(first) == n, "max_batches=%d evaluated %d of %d batches", case["limit"], len(first), len(batches))
        compare(part, add_perplexity(case, average(per[:n]), batches[:n], rows[:n]), "test of the first %d batches" % n)
        ctx.label("limited")
    if case["workers"]:
        t = evaluator(case, built, ckpt, num_worker=case["workers"])
        seen = []
        record(t.unwrapped_model, seen)
        with train.quiet():
            same = t.test(do_cross_eval=case["cross"])
        check_rows(case, built, seen, ctx)
        compare(same, got, "test with %d workers" % case["workers"])
        ctx.label("workers")
    # one batch over everything: the mean over all rows
    if not built.composite and len({tuple(f["bs"]) for f in case["data"]["worlds"][0]["files"]}) == 1:
        t = evaluator(case, built, ckpt, batch_size=total, eval_bs_multipler=1)
        whole = []
        record(t.unwrapped_model, whole)
        with train.quiet():
            one = t.test(do_cross_eval=case["cross"])
        if len(whole) == 1:
            weights = [len(r) for r in rows]
            want = {k: max(p[k] for p in per) if k.endswith("err_max") else float(np.average([p[k] for p in per], weights=weights))
                    for k in average(per) if k != "lossCE_policy_reg"}
            compare(one, add_perplexity(case, want, batches, rows), "test in one batch")
            ctx.label("one batch")


@st.composite
def val_case(draw):
    case = draw_eval(draw)
    case["kd"] = draw(st.integers(0, 3)) == 0
    case["separate"] = draw(st.booleans())
    case["mult"], case["batch"] = case["batch"] * case["mult"], 1      # so that training can always fill its batch
    return case


def check_validate(case, ctx):
    """The validation line of a training log."""
    torch.set_num_threads(1)
    built = Built(case["data"], os.path.join(ctx.tmp, "d"))
    kind, paths, args = data_args(built)
    run = os.path.join(ctx.tmp, "run")
    kd = {}
    if case["kd"]:
        teacher = os.path.join(ctx.tmp, "t.pt")
        k = dict(case, seed=case["seed"] + 1)
        checkpoint(k, teacher)
        kd = dict(kd_model_type="verif_tiny", kd_model_args=model_args(k), kd_checkpoint=teacher, kd_T=2.0, kd_alpha=0.4)
    loss = case["loss"] if not case["kd"] or case["loss"] != "KL+NONE" else "KL+KL"
    planned = KIND_TYPES[case["data"]["worlds"][0]["kind"]][0] if case["mapped"] else kind
    train_spec = dict(dataset_type=planned, train_datas=paths, dataset_args=dict(args, steps_per_epoch=2))
    if case["separate"] or case["mapped"] or not paths:
        train_spec.update(val_dataset_type=kind, val_dataset_args=args)
    t = train.trainer(rundir=run, iterations=1, val_interval=1, batch_size=case["batch"], eval_bs_multipler=case["mult"], val_datas=paths,
                      random_seed=case["seed"], dataloader_args=dict(batch_by_boardsize=True), model_type="verif_tiny", model_args=model_args(case), loss_type=loss, loss_args=case.get("args"),
                      learning_rate=1e-3, **train_spec, **kd)
    batches, taught = [], []
    record(t.unwrapped_model, batches)
    if case["kd"]:
        record(t._unwrap(t.kd_model), taught)
    with train.quiet():
        t.run()
    val = [l for l in train.log_lines(run) if "val_loss" in l]
    require(len(val) == 1 and val[0]["it"] == 1, "validation lines: %r", val)
    rows, total = check_rows(case, built, batches, ctx)
    require(val[0]["num_val_entries"] == total, "validation counts %d entries, the dataset has %d", val[0]["num_val_entries"], total)
    per = []
    taught = taught[len(taught) - len(batches):]
    for n, ((d, r), real) in enumerate(zip(batches, rows)):
        a = arrays_of(d, r)
        extra = dict(case.get("args") or {})
        cfg = dict(loss=loss, reg=extra.pop("policy_reg_lambda", 0), ratio=extra.pop("value_policy_ratio", 1), extra=extra, aux={}, kd=case["kd"],
                   kd_alpha=0.4, kd_T=2.0)
        if case["kd"]:
            k = arrays_of(*taught[n])
            a["kd_value"], a["kd_policy"] = k["value"], k["policy"]
        whole, parts = Ref(cfg, a, real).losses()
        terms = dict({k: float(v) for k, v in parts.items()}, total_loss=float(whole))
        per.append(add_vq(case, terms, r, real))
    compare(val[0]["val_loss"], average(per), "validation")
    compare(val[0]["val_aux"], add_perplexity(case, {}, batches, rows, True), "validation")
    ctx.label("distillation", case["kd"])


@st.composite
def rank_case(draw):
    uneven = draw(st.booleans())
    case = draw_eval(draw, ranks=True, uneven=uneven)
    case["world"] = draw(st.sampled_from([2, 2, 3]))
    case["batch"] = case["world"] * draw(st.sampled_from([1, 1, 2] if uneven else [1, 2, 4]))
    case["mult"] = 1 if uneven else case["mult"]
    case["vq"] = draw(st.sampled_from([0, 2, 5])) if uneven else case["vq"]
    case["validate"] = draw(st.booleans())
    if case["validate"]:
        case["norm"] = False
    return case


def run_validation(case, root, ckpt, built):
    """The validation line of a training run that changes nothing."""
    kind, paths, args = data_args(built)
    world = int(os.environ.get("WORLD_SIZE", 1))
    run = os.path.join(root, "run%d" % world)
    spec = dict(val_dataset_type=kind, val_dataset_args=args)
    planned = KIND_TYPES[case["data"]["worlds"][0]["kind"]][0] if case["mapped"] else kind
    t = train.trainer(rundir=run, iterations=1, val_interval=1, batch_size=case["batch"], eval_bs_multipler=case["mult"], val_datas=paths, random_seed=case["seed"],
                      dataloader_args=dict(batch_by_boardsize=True), dataset_type=planned, train_datas=paths, dataset_args=dict(args, steps_per_epoch=2), load_from=ckpt,
                      model_type="verif_tiny", model_args=model_args(case, vq_args=[["ema_decay", 1.0], ["threshold_ema_dead_code", 0]]), loss_type=case["loss"],
                      loss_args=case.get("args"), optim_type="sgd", learning_rate=0.0, weight_decay=0.0, **spec)
    forwards = []
    record(t.unwrapped_model, forwards)
    with train.quiet():
        t.run()
    if t.accelerator.process_index:
        return None, len(forwards)
    line, = [l for l in train.log_lines(run) if "val_loss" in l]
    return dict(dict(line["val_loss"], **line["val_aux"]), num_entries=line["num_val_entries"]), len(forwards)


def run_rank(case, root, ckpt, built):
    t = evaluator(case, built, ckpt)
    batches = []
    record(t.unwrapped_model, batches)
    with train.quiet():
        got = t.test(do_cross_eval=case["cross"], result_file=os.path.join(root, "result_%d.json" % t.accelerator.num_processes))
    require(t.accelerator.num_processes == int(os.environ.get("WORLD_SIZE", 1)), "wrong number of processes")
    return got, len(batches)


def check_ranks(case, ctx):
    """Several ranks report what one process reports for the same global batch size."""
    torch.set_num_threads(1)
    train.register()
    built = Built(case["data"], os.path.join(ctx.tmp, "d"))
    ckpt = os.path.join(ctx.tmp, "c.pt")
    checkpoint(case, ckpt)
    results = []
    for world in (1, case["world"]):
        outs = dist.ranks(world, run_rank, (case, ctx.tmp, ckpt, built), ctx.tmp)
        for r, o in enumerate(outs):
            require(o.error is None and o.died is None, lambda: "rank %d of %d failed: %s" % (r, world, o.error or o.died))
        require(all(o.value[0] is None for o in outs[1:]), "a secondary rank reports results")
        require(len({o.value[1] for o in outs}) == 1, "ranks ran different numbers of forward passes: %s", [o.value[1] for o in outs])
        with open(os.path.join(ctx.tmp, "result_%d.json" % world)) as f:
            results.append((outs[0].value[0], json.load(f)["num_entries"]))
    if case["validate"] and not case["norm"]:
        lines = []
        for world in (1, case["world"]):
            outs = dist.ranks(world, run_validation, (case, ctx.tmp, ckpt, built), ctx.tmp)
            if any(o.error and any(e in o.error for e in EMPTY) for o in outs):
                break
            for r, o in enumerate(outs):
                require(o.error is None and o.died is None, lambda: "validation: rank %d of %d failed: %s" % (r, world, o.error or o.died))
            require(len({o.value[1] for o in outs}) == 1, "ranks ran different numbers of forward passes: %s", [o.value[1] for o in outs])
            lines.append(outs[0].value[0])
        if len(lines) == 2:
            require(set(lines[0]) == set(lines[1]), "validation reports %s on one of the numbers of ranks", sorted(set(lines[0]) ^ set(lines[1])))
            compare(lines[1], lines[0], "validation on %d ranks" % case["world"])
            ctx.label("validation")
    total = sum(len(w.records) for w in built.worlds)
    (one, n1), (many, n2) = results
    require(n1 == n2 == total, "%d ranks count %d entries, one counts %d, the dataset has %d", case["world"], n2, n1, total)
    require(set(one) == set(many), "different metrics: %s", sorted(set(one) ^ set(many)))
    compare(many, one, "test on %d ranks" % case["world"])
    ctx.nontrivial()
    ctx.label("mapped", case["mapped"])
    ctx.label("ragged", total % case["batch"] != 0)


# ------------------------------------------------------------------------------------------- models with codebooks inside

@st.composite
def book_case(draw):
    key = draw(st.sampled_from(["mix9svq", "mix9svq", "mix9svq-2", "mix9svq-2", "square4vq"]))
    n = draw(st.integers(1, 3))
    side = 7 if key == "square4vq" else draw(st.sampled_from([5, 7]))
    files = [dict(bs=[side, side], n=draw(st.integers(1, 7)), comp=draw(st.booleans())) for _ in range(n)]
    if key != "square4vq" and draw(st.integers(0, 3)) == 0:
        files[-1]["bs"] = [6, 6]
    w = dict(kind="P", files=files, admit=[list(b) for b in sorted({tuple(f["bs"]) for f in files})], seed=draw(st.integers(0, 1 << 20)), uid0=0)
    d = dict(shuffle=False, window=64, rate=1.0, fixed=None, fixed_side=False, worlds=[w], types=[draw(st.sampled_from(KIND_TYPES["P"]))], symmetry=None, bytes=None)
    world = draw(st.sampled_from([2, 2, 3]))
    return dict(data=d, key=key, world=world, batch=world * draw(st.sampled_from([1, 1, 2, 3, 6])), seed=draw(st.integers(0, 1 << 20)), extra=draw(st.integers(1, 5)),
                vq=draw(st.sampled_from([{}, {}, {"commitment_weight": 0.5}, {"entropy_reg_weight": 0.1}])))


def run_book(case, batch, ckpt, built):
    from trainer.supervised import SupervisedTrainer
    from vlib import zoo

    torch.set_num_threads(1)
    model, args, _, _ = zoo.ZOO[case["key"]]
    args = dict(args, **case["vq"])
    kind, paths, data = data_args(built)
    direct = []

    def losses(module, inputs, output):
        found = [o["aux_losses"]["vq"][1]["value"] for o in (output if isinstance(output, (tuple, list)) else [output]) if isinstance(o, dict) and "vq" in o.get("aux_losses", {})]
        found += [o["vq"][1]["value"] for o in (output if isinstance(output, (tuple, list)) else []) if isinstance(o, dict) and isinstance(o.get("vq"), tuple)]
        direct.extend(float(v) for v in found)
    with train.quiet():
        t = SupervisedTrainer.init_for_evaluation(
            checkpoint=ckpt, model_type=model, model_args=args, test_datas=paths, dataset_type=kind, dataset_args=data, use_cpu=True, random_seed=case["seed"], batch_size=batch,
            dataloader_args=dict(batch_by_boardsize=True), num_worker=0, eval_bs_multipler=1, data_pipelines={"line_encoding": {}} if case["key"].startswith("mix") else None)
        t.unwrapped_model.register_forward_hook(losses)
        got = t.test()
    return got if t.accelerator.num_processes > 1 else (got, direct)


def similar(got, want, what):
    """These models round features: a last-bit difference of kernels may flip a rounding step, but neither codes nor their losses."""
    for k, v in want.items():
        tol = 1e-3 if "vq" in k and "total" not in k else 0.05
        require(k.endswith(("_acc", "winrate_acc")) or abs(got[k] - v) <= tol * max(1, abs(v)), "%s reports %s = %r, should be %r", what, k, got[k], v)


def check_books(case, ctx):
    """Models that quantise features: ranks and padding change nothing, codes are counted once."""
    from utils.file_utils import save_torch_ckpt
    from vlib import zoo

    torch.set_num_threads(1)
    train.register()
    built = Built(case["data"], os.path.join(ctx.tmp, "d"))
    ckpt = os.path.join(ctx.tmp, "c.pt")
    zoo._add("c14", zoo.ZOO[case["key"]][0], dict(zoo.ZOO[case["key"]][1], **case["vq"]), [], **zoo.ZOO[case["key"]][3])
    m = zoo.build("c14", case["seed"], scale=1.5)
    save_torch_ckpt(ckpt, m.state_dict(), metadata={"iteration": "1"})
    results = []
    for world in (1, case["world"]):
        outs = dist.ranks(world, run_book, (case, case["batch"], ckpt, built), ctx.tmp)
        for r, o in enumerate(outs):
            require(o.error is None and o.died is None, lambda: "rank %d of %d failed: %s" % (r, world, o.error or o.died))
        results.append(outs[0].value)
    (one, _), many = results
    require(any("perplexity" in k for k in one), "no perplexity is reported: %s", sorted(one))
    require(set(one) == set(many), "different metrics: %s", sorted(set(one) ^ set(many)))
    similar(many, one, "%s on %d ranks" % (case["key"], case["world"]))
    total = sum(f["n"] for f in case["data"]["worlds"][0]["files"])
    if len(case["data"]["worlds"][0]["admit"]) == 1:
        whole, padded = (dist.ranks(1, run_book, (case, n, ckpt, built), ctx.tmp)[0].value for n in (total, total + case["extra"]))
        (whole, direct), (padded, _) = whole, padded
        require(len(direct) == 1, "%d quantisation losses in one forward pass", len(direct))
        name, = [k for k in whole if k.endswith("vq_loss")]
        require(abs(whole[name] - direct[0]) <= 1e-4 * max(1, abs(direct[0])), "%s is reported as %r, the model computes %r", name, whole[name], direct[0])
        similar(padded, whole, "%s with %d padding rows" % (case["key"], case["extra"]))
        ctx.label("padding")
    ctx.label(case["key"])
    ctx.nontrivial(total > 1)


CAMPAIGNS = [
    Campaign("test", test_case, check_test, quick=220, thorough=4000, shards=8),
    Campaign("validate", val_case, check_validate, quick=120, thorough=2000, shards=8),
    Campaign("ranks", rank_case, check_ranks, quick=60, thorough=800, shards=6),
    Campaign("codebooks", book_case, check_books, quick=32, thorough=400, shards=4),
]
