"""C13: losses and metrics equal their definition; statistics are partition invariant; padding rows do not count."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from dataset.core import Maximum, SufficientStats, SumCount
from trainer.loss.supervised import compute_supervised_loss_statistics, compute_supervised_losses
from trainer.metric.supervised import compute_supervised_metric_statistics
from vlib.api import Campaign, require

RULE = ("A case is a batch of logits and targets with masks, a loss configuration (loss types, focal gamma, weights, regulariser, auxiliary heads, "
        "distillation), and a partition of the rows into parts with padding rows mixed in. Non-trivial: more than one part holds real rows, or "
        "there are padding rows, masked cells, auxiliary terms or a teacher.")
ASSUMPTIONS = ["targets are distributions (value: 1 winrate or win/loss/draw)", "tolerance 1e-8 relative in float64, 2e-4 in float32"]
BUDGET = {"quick": 45, "thorough": 600}
NEEDS_EXT = False


# ---------------------------------------------------------------- reference formulas (differentiable, one row at a time)

def log_softmax(x):
    m = x.detach().max()
    return x - m - torch.log(torch.exp(x - m).sum())


def soft_ce(x, t, w, gamma, kl):
    """Cross entropy of one row: logits x, target t, weights w."""
    t = t * w
    lp = log_softmax(x)
    loss = -(t * (lp if not gamma else lp * (1 - torch.exp(lp)) ** gamma)).sum()
    if kl:
        loss = loss + (t * torch.log(torch.clamp(t, min=1e-8))).sum()
    return loss


def binary_ce(x, t, gamma, kl):
    """x, t scalars."""
    lp, lq = -torch.log1p(torch.exp(-x)) if x > 0 else x - torch.log1p(torch.exp(x)), None
    lq = lp - x
    loss = -(t * lp + (1 - t) * lq)
    if gamma:
        p = 1 / (1 + torch.exp(-x))
        loss = loss * (1 - (t * p + (1 - t) * (1 - p))) ** gamma
    if kl:
        loss = loss + t * torch.log(torch.clamp(t, min=1e-8)) + (1 - t) * torch.log(torch.clamp(1 - t, min=1e-8))
    return loss


def winrate_of(v):
    """v: (1,) logit or (3,) win/loss/draw logits."""
    if len(v) == 1:
        return 1 / (1 + torch.exp(-v[0]))
    p = torch.exp(log_softmax(v))
    return (p[0] - p[1] + 1) / 2


def target_winrate(t):
    return t[0] if len(t) == 1 else (t[0] - t[1] + 1) / 2


def value_row(kind, v, t, extra):
    gamma = extra.get("value_focal_gamma", 0) if kind == "CE" else 0
    if kind == "MSE":
        return (winrate_of(v) - target_winrate(t)) ** 2
    if len(v) == 1:
        return binary_ce(v[0], target_winrate(t), gamma, kind == "KL")
    return soft_ce(v, t, torch.ones_like(t), gamma, kind == "KL")


def policy_row(kind, p, t, w, extra):
    """(sum over the row's terms); MSE is averaged over all cells of all rows, the others over rows."""
    if kind == "NONE":
        return p.sum() * 0
    if kind == "MSE":
        return (w * (torch.exp(log_softmax(p)) - t) ** 2).sum()
    return soft_ce(p, t, w, extra.get("policy_focal_gamma", 0) if kind == "CE" else 0, kind == "KL")


class Ref:
    """Whole-batch losses over the rows `rows`."""

    def __init__(self, cfg, arrays, rows):
        self.cfg, self.a, self.rows = cfg, arrays, rows
        self.extra = cfg["extra"]
        self.vk, self.pk = cfg["loss"].split("+")

    def mask(self, i):
        m = self.a.get("board_mask")
        return torch.ones(self.a["policy"].shape[1:], dtype=torch.bool).flatten() if m is None else m[i].flatten() > 0

    def weight(self, i):
        w = torch.ones(self.a["policy"][i].numel(), dtype=self.a["policy"].dtype)
        if self.extra.get("ignore_forbidden_point_policy"):
            w = w * (1 - self.a["forbidden_point"][i].flatten().to(w.dtype))
        return w

    def mean_value(self, name, teacher):
        T = self.cfg["kd_T"] if teacher else 1
        total = 0
        for i in self.rows:
            v = self.a[name][i] / T
            t = self.a["kd_value"][i] / T if teacher else self.a["value_target"][i]
            if teacher:
                t = torch.exp(log_softmax(t)) if len(t) > 1 else 1 / (1 + torch.exp(-t))
            total = total + value_row(self.vk, v, t, self.extra)
        return total / len(self.rows)

    def mean_policy(self, name, teacher):
        T = self.cfg["kd_T"] if teacher else 1
        total, cells = 0, 0
        for i in self.rows:
            m = self.mask(i)
            p = torch.where(m, self.a[name][i].flatten() / T, torch.full((), -1e6 / T, dtype=self.a[name].dtype))
            if teacher:
                t = torch.zeros(len(m), dtype=p.dtype)
                t[m] = torch.exp(log_softmax(self.a["kd_policy"][i].flatten()[m] / T))
            else:
                t = torch.where(m, self.a["policy_target"][i].flatten(), torch.zeros((), dtype=p.dtype))
            total = total + policy_row(self.pk, p, t, self.weight(i), self.extra)
            cells += len(m)
        return total / (cells if self.pk == "MSE" else len(self.rows))

    def reg(self, name):
        total, cells = 0, 0
        for i in self.rows:
            m = self.mask(i)
            total = total + self.a[name][i].flatten()[m].sum()
            cells += int(m.sum())
        return (total / cells) ** 2

    def uncertainty(self, aux):
        total = 0
        for i in self.rows:
            t = target_winrate(self.a["value_target"][i])
            u = self.a[aux + "_u"][i]
            small = (winrate_of(self.a[aux + "_v"][i].detach()) - t) ** 2
            if self.cfg["aux"][aux] == "value_uncertainty_loss":
                e = u - small
                total = total + (0.5 * e * e if abs(e) <= 1 else abs(e) - 0.5)
            else:
                large = (winrate_of(self.a[aux + "_w"][i].detach()) - t) ** 2
                total = total + (u - (large / small if large < small else 1.0)) ** 2
        return total / len(self.rows)

    def vq(self, aux):
        total = 0
        for s in self.cfg["vq_slots"]:
            embed = sum(self.a[f"{aux}_embed_{s['id']}"][i] for i in self.rows)
            commit = sum(self.a[f"{aux}_commit_{s['id']}"][i] for i in self.rows)
            value = (embed + s["commitment"] * commit) / (len(self.rows) * s["elements"])
            if s["entropy"]:
                p = sum(self.a[f"{aux}_prob_{s['id']}"][i] for i in self.rows) / (len(self.rows) * s["vectors"])
                value = value + s["entropy"] * (p * torch.log(torch.clamp(p, min=1e-7))).sum()
            total = total + s["weight"] * value
        return total

    def terms(self, teacher):
        """[(name, value, depends on the target, weight)]"""
        c = self.cfg
        r = c["ratio"]
        vl, pl = 2 * r / (r + 1), 2 / (r + 1)
        out = [("value_loss", self.mean_value("value", teacher), True, vl), ("policy_loss", self.mean_policy("policy", teacher), True, pl)]
        if c["reg"] > 0:
            out.append(("policy_reg", self.reg("policy"), False, c["reg"]))
        for name, kind in c["aux"].items():
            w = self.extra.get(name + "_lambda")
            if kind == "value_loss":
                out.append((name + "_loss", self.mean_value(name, teacher), True, vl if w is None else w))
            elif kind == "policy_loss":
                if self.pk != "NONE":
                    out.append((name + "_loss", self.mean_policy(name, teacher), True, pl if w is None else w))
            elif kind == "policy_reg":
                if w is not None or c["reg"] != 0:
                    out.append((name, self.reg(name), False, c["reg"] if w is None else w))
            elif kind == "vq_loss":
                out.append((name + "_loss", self.vq(name), False, 1.0 if w is None else w))
            elif kind == "tensor":
                out.append((name + "_loss", self.a[name].square().sum(), False, 1.0 if w is None else w))
            else:
                out.append((name + "_loss", self.uncertainty(name), False, 1.0 if w is None else w))
        return out

    def losses(self):
        """(total, {name: value})"""
        real = self.terms(False)
        parts = {n: v for n, v, _, _ in real}
        if not self.cfg["kd"]:
            return sum(w * v for _, v, _, w in real), parts
        kd = self.terms(True)
        parts.update({"kd_" + n: v for n, v, _, _ in kd})
        alpha, T = self.cfg["kd_alpha"], self.cfg["kd_T"]
        total = alpha * T ** 2 * sum(w * v for _, v, d, w in kd if d) + (1 - alpha) * sum(w * v for _, v, d, w in real if d)
        return total + sum(w * v for _, v, d, w in real if not d), parts


# ---------------------------------------------------------------- cases

AUX = ["value_loss", "policy_loss", "value_uncertainty_loss", "value_relative_uncertainty_loss", "policy_reg", "vq_loss", "tensor"]


def draw_case(draw, metrics=False):
    rows = draw(st.integers(1, 7))
    loss = "CE+CE" if metrics else draw(st.sampled_from(["KL", "CE", "MSE"])) + "+" + draw(st.sampled_from(["KL", "CE", "MSE", "NONE"]))
    extra = {}
    if not metrics:
        if draw(st.booleans()):
            extra["value_focal_gamma"] = draw(st.sampled_from([0, 0.5, 1, 2.5]))
        if draw(st.booleans()):
            extra["policy_focal_gamma"] = draw(st.sampled_from([0, 1, 2]))
        if draw(st.booleans()):
            extra["ignore_forbidden_point_policy"] = draw(st.sampled_from([True, True, False]))
    aux = {}
    for k in range(draw(st.integers(0, 3))):
        aux[f"a{k}"] = draw(st.sampled_from(AUX))
        if not metrics and draw(st.booleans()):
            extra[f"a{k}_lambda"] = draw(st.sampled_from([0, 0.25, 1, 3]))
    case = {"seed": draw(st.integers(0, 2 ** 32 - 1)), "rows": rows, "h": draw(st.integers(2, 5)), "w": draw(st.integers(2, 5)),
            "vch": draw(st.sampled_from([1, 3, 3])), "tch": 3, "loss": loss, "extra": extra, "aux": aux,
            "scale": draw(st.sampled_from([0.1, 1, 4])), "target": draw(st.sampled_from(["dense", "sparse", "onehot"])),
            "mask": draw(st.sampled_from(["none", "some", "ones"])), "double": draw(st.sampled_from([True, True, False])),
            "ratio": 1 if metrics else draw(st.sampled_from([1, 1, 0.5, 3, 0])),
            "reg": 0 if metrics else draw(st.sampled_from([0, 0, 0.1, 2])),
            "kd": not metrics and draw(st.sampled_from([False, False, True])),
            "kd_T": draw(st.sampled_from([1, 2, 0.5, 3.5])), "kd_alpha": draw(st.sampled_from([1.0, 0.0, 0.3, 0.75])),
            "parts": draw(st.lists(st.integers(0, 3), min_size=rows, max_size=rows)),
            "pads": draw(st.lists(st.integers(0, 2), min_size=4, max_size=4)),
            "flag": draw(st.booleans()), "order": draw(st.permutations([0, 1, 2, 3])),
            "vq_slots": [{"id": f"s{k}", "weight": draw(st.sampled_from([1, 0.25])), "commitment": draw(st.sampled_from([0, 0.25, 1])),
                          "entropy": draw(st.sampled_from([0, 0.1])), "elements": draw(st.integers(1, 6)), "vectors": draw(st.integers(1, 4))}
                         for k in range(draw(st.integers(1, 2)))]}
    if case["vch"] == 1 and draw(st.booleans()):
        case["tch"] = 1
    case["kch"] = 1 if case["vch"] == 1 and draw(st.booleans()) else 3
    return case


def arrays_of(case):
    rng = np.random.RandomState(case["seed"])
    n, h, w = case["rows"] + 8, case["h"], case["w"]        # the last eight rows are padding material
    dt = torch.float64 if case["double"] else torch.float32
    s = case["scale"]
    as_t = lambda x: torch.tensor(x, dtype=dt)

    def dist(shape):
        x = rng.dirichlet(np.ones(shape), n) + 0
        if case["target"] == "sparse":
            x[rng.rand(n, shape) < 0.5] = 0
            x[np.arange(n), rng.randint(shape, size=n)] += 0.1
        elif case["target"] == "onehot":
            x[:] = 0
            x[np.arange(n), rng.randint(shape, size=n)] = 1
        return x / x.sum(1, keepdims=True)

    a = {"value": as_t(rng.randn(n, case["vch"]) * s), "policy": as_t(rng.randn(n, h, w) * s),
         "value_target": as_t(rng.rand(n, 1) if case["tch"] == 1 else dist(3)),
         "kd_value": as_t(rng.randn(n, case["kch"]) * s), "kd_policy": as_t(rng.randn(n, h, w) * s),
         "forbidden_point": torch.tensor((rng.rand(n, h, w) < 0.2).astype(np.int8))}
    target = dist(h * w).reshape(n, h, w)
    if case["mask"] != "none":
        m = np.ones((n, h, w), bool)
        if case["mask"] == "some":
            for i in range(n):
                m[i, rng.randint(2, h + 1):] = False
                m[i, :, rng.randint(2, w + 1):] = False
        a["board_mask"] = torch.tensor(m) if rng.rand() < 0.5 else as_t(m)
        target = target * m
        target[:, 0, 0] += (target.sum((1, 2)) == 0)
        target /= target.sum((1, 2), keepdims=True)
    a["policy_target"] = as_t(target)
    for name, kind in case["aux"].items():
        if kind == "value_loss":
            a[name] = as_t(rng.randn(n, case["vch"]) * s)
        elif kind in ("policy_loss", "policy_reg"):
            a[name] = as_t(rng.randn(n, h, w) * s)
        elif kind == "tensor":
            a[name] = as_t(rng.randn(3))
        elif kind == "vq_loss":
            for slot in case["vq_slots"]:
                a[f"{name}_embed_{slot['id']}"] = as_t(rng.rand(n) * slot["elements"])
                a[f"{name}_commit_{slot['id']}"] = as_t(rng.rand(n) * slot["elements"])
                a[f"{name}_prob_{slot['id']}"] = as_t(rng.dirichlet(np.ones(5), n) * slot["vectors"])
        else:
            a[name + "_u"] = as_t(rng.rand(n) * 3)
            a[name + "_v"] = as_t(rng.randn(n, case["tch"]) * s)
            a[name + "_w"] = as_t(rng.randn(n, case["tch"]) * s)
    return a


def uncertainty_args(case, a, name, rows):
    """Arguments of an uncertainty head: one-channel values go in as vectors, with winrate targets."""
    one = case["tch"] == 1
    v = [a[name + "_v"][rows]] + ([a[name + "_w"][rows]] if case["aux"][name] == "value_relative_uncertainty_loss" else [])
    t = a["value_target"][rows]
    return (a[name + "_u"][rows], *[x[:, 0] if one else x for x in v], t[:, 0] if one else t)


def batch_of(case, a, real, pads, training, rng):
    """Model inputs, results and teacher results for a batch of real rows with padding rows mixed in."""
    order = list(real) + list(pads)
    if pads:
        order = [order[i] for i in rng.permutation(len(order))]
    keep = set(real)
    rows = torch.tensor(order, dtype=torch.long)
    pick = lambda k: a[k][rows]
    data = {"value_target": pick("value_target"), "policy_target": pick("policy_target")}
    if case["extra"].get("ignore_forbidden_point_policy") is not None:
        data["forbidden_point"] = pick("forbidden_point")
    if pads or case["flag"]:
        data["is_real"] = torch.tensor([i in keep for i in order], dtype=torch.bool)
    results = {"value": pick("value"), "policy": pick("policy")}
    if "board_mask" in a:
        results["board_mask"] = pick("board_mask")
    aux = {}
    for name, kind in case["aux"].items():
        if kind in ("value_loss", "policy_loss", "policy_reg"):
            aux[name] = (kind, pick(name))
        elif kind == "tensor":
            if training:
                aux[name] = a[name].square().sum()
        elif kind == "vq_loss":
            slots = []
            idx = torch.tensor(list(real), dtype=torch.long)
            for s in case["vq_slots"]:
                slot = {"slot_id": s["id"], "slot_weight": s["weight"], "embed_sum": a[f"{name}_embed_{s['id']}"][idx].sum(),
                        "commit_sum": a[f"{name}_commit_{s['id']}"][idx].sum(), "elements": s["elements"] * len(real),
                        "vectors": s["vectors"] * len(real), "commitment_weight": s["commitment"], "entropy_weight": s["entropy"]}
                if s["entropy"]:
                    slot["probability_sum"] = a[f"{name}_prob_{s['id']}"][idx].sum(0)
                slots.append(slot)
            value = Ref(case, a, list(real)).vq(name) if len(real) else a["value"].new_zeros(())
            aux[name] = ("vq_loss", {"value": value, "slots": slots})
        else:
            aux[name] = (kind, uncertainty_args(case, a, name, rows))
    if aux:
        results["aux_losses"] = aux
    teacher = {"value": pick("kd_value"), "policy": pick("kd_policy")} if case["kd"] else None
    return data, results, teacher


def config_args(case):
    args = dict(policy_reg_lambda=case["reg"], value_policy_ratio=case["ratio"], **case["extra"])
    if case["kd"]:
        args.update(kd_T=case["kd_T"], kd_alpha=case["kd_alpha"])
    return args


def near(x, y, case, scale=1.0, tol=None):
    x, y = float(x), float(y)
    tol = tol or (1e-8 if case["double"] else 2e-4)
    if math.isnan(y) or math.isinf(y):
        return True
    return abs(x - y) <= tol * max(1.0, abs(y), scale)


def partition(case):
    """[(real rows, padding rows)] of up to four parts, in combination order."""
    parts, spare = [], iter(range(case["rows"], case["rows"] + 8))
    for k in case["order"]:
        real = [i for i, p in enumerate(case["parts"]) if p == k]
        pads = [next(spare) for _ in range(case["pads"][k])]
        if real or pads:
            parts.append((real, pads))
    return parts


def mark(case, ctx, parts):
    ctx.nontrivial(sum(bool(r) for r, _ in parts) > 1 or any(p for _, p in parts) or case["mask"] == "some" or bool(case["aux"]) or case["kd"])
    ctx.label("padding", any(p for _, p in parts))
    ctx.label("all-padding part", any(not r for r, _ in parts))
    ctx.label("kd", case["kd"])
    ctx.label("masked", case["mask"] == "some")
    for k in case["aux"].values():
        ctx.label("aux:" + k)
    ctx.label("loss:" + case["loss"])


GRADS = ("value", "policy")


def check_loss(case, ctx):
    """compute_supervised_losses: value, per-term values and gradient of every part and of the whole batch."""
    a = arrays_of(case)
    leaves = [k for k in a if k in GRADS or (k in case["aux"]) or k.endswith("_u")]
    parts = partition(case)
    mark(case, ctx, parts)
    rng = np.random.RandomState(case["seed"] ^ 1)
    for real, pads in parts + [(list(range(case["rows"])), [])]:
        got_a = {k: v.clone().requires_grad_(k in leaves) if v.is_floating_point() else v for k, v in a.items()}
        data, results, teacher = batch_of(case, got_a, real, pads, True, rng)
        before = {k: v.clone() for k, v in data.items()}
        total, terms, aux = compute_supervised_losses(case["loss"], data, results, kd_results=teacher, **config_args(case))
        for k in before:
            require(torch.equal(before[k], data[k]), "the loss changed its input %s", k)
        if not real:
            require(float(total) == 0, "a batch of padding rows has loss %r", float(total))
            for k, v in terms.items():
                require(float(v) == 0, "a batch of padding rows has %s %r", k, float(v))
            continue
        ref_a = {k: v.double().clone().requires_grad_(k in leaves) if v.is_floating_point() else v for k, v in a.items()}
        want_total, want = Ref(case, ref_a, real).losses()
        require(set(terms) == set(want) | {"total_loss"}, "reported terms %s, expected %s", sorted(terms), sorted(want) + ["total_loss"])
        for k in want:
            require(near(terms[k], want[k], case), "%s of rows %s is %r, should be %r", k, real, float(terms[k]), float(want[k]))
        require(near(total, want_total, case, 10), "total loss of rows %s is %r, should be %r", real, float(total), float(want_total))
        require(float(terms["total_loss"]) == float(total), "the reported total loss is not the returned one")
        if not total.requires_grad:
            require(not want_total.requires_grad, "the total loss has no gradient")
            continue
        total.backward()
        want_total.backward()
        for k in leaves:
            g, r = got_a[k].grad, ref_a[k].grad
            g = torch.zeros_like(a[k]) if g is None else g
            r = torch.zeros_like(a[k].double()) if r is None else r
            if not torch.isfinite(r).all():
                ctx.label("singular gradient")
                continue
            tol = (1e-7 if case["double"] else 1e-3) * max(1, float(r.abs().max()))
            diff = (g.double() - r).abs().max()
            require(float(diff) <= tol, "gradient of the loss of rows %s with respect to %s is off by %g", real, k, float(diff))


def combine(stats):
    """Combine the statistics of the parts pairwise as a balanced tree or from the left."""
    out = None
    for s in stats:
        if out is None:
            out = dict(s)
            continue
        require(set(out) == set(s), "parts report different statistics: %s", sorted(set(out) ^ set(s)))
        out = {k: out[k].combine(s[k]) for k in out}
    return out


def check_counts(case, name, stat, rows, cells, valid):
    pk = case["loss"].split("+")[1]
    if isinstance(stat, SumCount):
        policy = name.replace("kd_", "").replace("lossCE_", "") == "policy_loss" or case["aux"].get(name.replace("kd_", "").replace("lossCE_", "")[:-5]) == "policy_loss"
        want = rows * cells if policy and pk == "MSE" else rows
        require(stat.count == want, "%s counts %d entries, %d rows are real", name, stat.count, rows)
    elif isinstance(stat, SufficientStats) and stat.finalizer_id == "policy_mean_square_v1":
        require(stat.counts["valid_cells"] == valid, "%s counts %d cells, %d are valid", name, stat.counts["valid_cells"], valid)


def without_tensors(case):
    return dict(case, aux={k: v for k, v in case["aux"].items() if v != "tensor"})


def check_statistics(case, ctx):
    """Combined statistics of any partition finalize to the whole-batch definition, and count exactly the real rows."""
    case = without_tensors(case)
    a = arrays_of(case)
    parts = partition(case)
    mark(case, ctx, parts)
    rng = np.random.RandomState(case["seed"] ^ 2)
    rows = list(range(case["rows"]))
    stats, auxes = [], []
    for real, pads in parts:
        data, results, teacher = batch_of(case, a, real, pads, False, rng)
        results["aux_outputs"] = {"vq_cluster_size_q50": torch.tensor(case["seed"] / 7.0), "vq_perplexity": torch.tensor(1.0)}
        s, x = compute_supervised_loss_statistics(case["loss"], data, results, kd_results=teacher, **config_args(case))
        stats.append(s)
        auxes.append(x)
    total = combine(stats)
    want_total, want = Ref(case, {k: v.double() if v.is_floating_point() else v for k, v in a.items()}, rows).losses()
    require(set(total) == set(want) | {"total_loss"}, "reported statistics %s, expected %s", sorted(total), sorted(want))
    ref = Ref(case, a, rows)
    valid = sum(int(ref.mask(i).sum()) for i in rows)
    for k, v in dict(want, total_loss=want_total).items():
        require(near(total[k].finalize(), v, case, 10), lambda: "%s over parts %s is %r, should be %r" % (k, parts, float(total[k].finalize()), float(v)))
        check_counts(case, k, total[k], len(rows), case["h"] * case["w"], valid)
    aux = combine(auxes)
    require(set(aux) == {"vq_cluster_size_q50"}, "auxiliary statistics %s", sorted(aux))
    require(abs(float(aux["vq_cluster_size_q50"].finalize()) - case["seed"] / 7.0) <= 1e-5 * max(1, case["seed"]),
            "a constant reported by every part changed when combined")


def metric_reference(case, a, rows, cross):
    """({metric: value}, value probabilities) over `rows`; a metric whose value depends on how ties are broken is left out."""
    d = {k: v.double().numpy() if v.is_floating_point() else v.numpy() for k, v in a.items()}
    want = {}
    best, over = [], {2: [], 3: []}
    ties = set()
    for i in rows:
        m = (d["board_mask"][i] > 0).flatten() if "board_mask" in d else np.ones(case["h"] * case["w"], bool)
        p = np.where(m, d["policy"][i].flatten(), -np.inf)
        t = np.where(m, d["policy_target"][i].flatten(), 0)
        best.append(p.argmax() == t.argmax())
        top = np.sort(t)[::-1]
        high = np.sort(p)[::-1]
        for k in (1, 2, 3):
            if m.sum() <= k or top[k - 1] == top[k] or high[k - 1] - high[k] <= 1e-6:
                ties.add(k)
        for k in over:
            over[k].append(len(set(np.argsort(-p)[:k]) & set(np.argsort(-t)[:k])) / k)
    if 1 not in ties:
        want["bestmove_acc"] = np.mean(best)
    for k in {2, 3} - ties:
        want["top%dmove_acc" % k] = np.mean(over[k])
    v, t = d["value"][rows], d["value_target"][rows]
    if case["vch"] == 1:
        p = 1 / (1 + np.exp(-v[:, 0]))
        t = t[:, 0] if case["tch"] == 1 else (t[:, 0] - t[:, 1] + 1) / 2
        ok = (p - 0.5) * (t - 0.5) >= 0
        want["winrate_acc"], want["winrate_mse"] = ok.mean(), ((p - t) ** 2).mean()
    else:
        e = np.exp(v - v.max(1, keepdims=True))
        p = e / e.sum(1, keepdims=True)
        want["winrate_acc"] = ((p[:, 0] >= p[:, 1]) == (t[:, 0] >= t[:, 1])).mean()
        want["winrate_mse"] = (((p[:, 0] - p[:, 1]) - (t[:, 0] - t[:, 1])) ** 2 / 4).mean()
        want["drawrate_acc"] = ((p.argmax(1) == 2) == (t.argmax(1) == 2)).mean()
        want["drawrate_mse"] = ((p[:, 2] - t[:, 2]) ** 2).mean()
    if cross:
        err = np.abs(p - t)
        rel = err / (p + 1e-4)
        want.update(value_abserr_mean=err.mean(), value_abserr_max=err.max(), value_relerr_mean=rel.mean(), value_relerr_max=rel.max())
    return want, p


def check_metrics(case, ctx):
    """Accuracy and error metrics against a row-by-row definition."""
    case = without_tensors(case)
    case = dict(case, aux={k: v for k, v in case["aux"].items() if v != "policy_reg"} if case["reg"] == 0 else case["aux"])
    a = arrays_of(case)
    parts = partition(case)
    mark(case, ctx, parts)
    rng = np.random.RandomState(case["seed"] ^ 3)
    stats = []
    cross = case["flag"]
    for real, pads in parts:
        data, results, _ = batch_of(case, a, real, pads, False, rng)
        stats.append(compute_supervised_metric_statistics(data, results, do_cross_eval=cross))
    got = combine(stats)
    rows = range(case["rows"])
    want, p = metric_reference(case, a, list(rows), cross)
    total, losses = Ref(dict(case, kd=False), {k: x.double() if x.is_floating_point() else x for k, x in a.items()}, list(rows)).losses()
    want.update({"lossCE_" + k: float(x) for k, x in losses.items()}, lossCE_total_loss=float(total))
    ties = {"bestmove_acc", "top2move_acc", "top3move_acc"}
    require(ties <= set(got) and set(got) - ties == set(want) - ties,
            "metrics %s, expected %s", sorted(got), sorted(want))
    for k, x in want.items():
        require(near(got[k].finalize(), x, case, tol=1e-6 if k.endswith("_acc") else None), lambda: "%s over parts %s is %r, should be %r" % (k, parts, float(got[k].finalize()), float(x)))
    ref = Ref(case, a, list(rows))
    for k, s in got.items():
        if isinstance(s, SumCount):
            if k in ("top2move_acc", "top3move_acc"):
                require(s.count == int(k[3]) * case["rows"], "%s counts %d", k, s.count)
            elif k.startswith("value_"):
                require(s.count == np.size(p), "%s counts %d", k, s.count)
            else:
                check_counts(case, k, s, case["rows"], case["h"] * case["w"], 0)
        if isinstance(s, Maximum):
            require(s.valid_count == np.size(p), "%s counts %d values", k, s.valid_count)


def draw_constants(draw):
    return {"value": draw(st.one_of(st.sampled_from([0.0, 1.0, 0.1, 1234.567, 1e6]), st.floats(-3000, 3000, width=32))), "batches": draw(st.sampled_from([1, 2, 7, 60, 400, 1500])),
            "zeros": draw(st.integers(0, 3)), "differ": draw(st.booleans())}


def check_constants(case, ctx):
    """A constant reported with every batch survives any number of batches; one that differs between them is refused."""
    v = torch.tensor(case["value"], dtype=torch.float32)
    mk = lambda x: SufficientStats("evaluation", "replicated_constant_v1", {"sum": x, "square_sum": x.square()}, {"replicas": 1})
    stat = mk(v)
    for i in range(case["batches"] - 1):
        stat = stat.combine(mk(v))
    for _ in range(case["zeros"]):
        stat = stat.combine(SufficientStats("evaluation", "replicated_constant_v1", {"sum": v * 0, "square_sum": v * 0}, {"replicas": 0}))
    got = float(stat.finalize())
    require(abs(got - float(v)) <= 1e-4 * max(1, abs(float(v))), "a constant %r over %d batches becomes %r", float(v), case["batches"], got)
    ctx.nontrivial(case["batches"] > 1)
    if case["differ"] and case["batches"] <= 60:
        other = stat.combine(mk(v * 3 + 5))
        try:
            other.finalize()
        except ValueError:
            return
        require(abs(float(v) * 2 + 5) < 1, "constants %r and %r were merged as if equal", float(v), float(v * 3 + 5))


CAMPAIGNS = [
    Campaign("losses", lambda: st.composite(draw_case)(), check_loss, quick=700, shards=4),
    Campaign("statistics", lambda: st.composite(draw_case)(), check_statistics, quick=900, shards=4),
    Campaign("metrics", lambda: st.composite(lambda draw: draw_case(draw, True))(), check_metrics, quick=500, shards=2),
    Campaign("constants", lambda: st.composite(draw_constants)(), check_constants, quick=60, shards=1),
]
