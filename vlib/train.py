"""A tiny trainable model, small training runs over generated files, and what can be observed of them."""
import contextlib
import io
import json
import os

import numpy as np
import torch
import torch.nn as nn

from vlib import keops

STEP = []           # filled by the model: one entry per forward pass


def register():
    """Adds the 'verif_tiny' model to the repository's registry (once per process)."""
    from model import MODELS

    if "verif_tiny" in MODELS:
        return

    @MODELS.register("verif_tiny")
    class Tiny(nn.Module):
        def __init__(self, dim=4, dropout=0.0, norm=False, values=3, clip=None, noise=False, seed=None, mask=False, vq=0, kmeans=False, vq_args=()):
            super().__init__()
            if seed is not None:
                torch.manual_seed(seed)
            self.conv = nn.Conv2d(2, dim, 3, padding=1)
            self.norm = nn.BatchNorm2d(dim) if norm else nn.Identity()
            self.drop = nn.Dropout(dropout)
            self.policy = nn.Conv2d(dim, 1, 1)
            self.value = nn.Linear(dim, values)
            self.vq = None
            if vq:
                from model.vq import VectorQuantize

                keops.serialise()
                self.vq = VectorQuantize(codebook_size=vq, dim_feature=dim, kmeans_init=kmeans, kmeans_sample_multiplier=3, **dict(dict(ema_decay=0.9), **dict(vq_args)))
            self.frozen = nn.Parameter(torch.ones(2))     # never receives a gradient
            self.noise, self.clip, self.values, self.mask = noise, clip, values, mask
            self.seen = self.after = None

        @property
        def weight_clipping(self):
            if self.clip is None:
                return []
            return [{"params": ["conv.weight", "value.weight"], "min_weight": -self.clip, "max_weight": self.clip / 2}]

        @property
        def name(self):
            return "verif_tiny_%d" % self.conv.out_channels

        def quantise(self, pooled, data):
            from model.vq import ddp_preinit_identity

            if not self.vq.is_initialized():
                pooled = ddp_preinit_identity(pooled, self.parameters())
            self.vq.set_eval_entry_mask(data.get("is_real"))
            self.pooled = pooled
            out, info = self.vq(pooled)
            if info is None:
                return out, {}
            constant = {} if self.training else {"vq_cluster_size_q50": self.vq.codebook.detach().abs().mean()}
            loss = info["loss"] if self.training else ("vq_loss", {"value": info["loss"], "slots": [
                dict(info["loss_stats"], slot_id="vq", slot_weight=1.0)]})
            return out, {"aux_losses": {"vq": loss}, "aux_outputs": {"vq_perplexity": info["perplexity"],
                                                                      "vq_normed_perplexity": info["normalized_perplexity"], **constant}}

        def forward(self, data):
            x = data["board_input"].float()[:, :2]
            if self.seen is not None:
                self.seen(self, data)
            if self.noise and self.training:
                x = x + 0.01 * torch.randn_like(x)
            x = self.drop(torch.relu(self.norm(self.conv(x))))
            pooled, aux = x.mean((2, 3)), {}
            if self.vq is not None:
                pooled, aux = self.quantise(pooled, data)
            value = self.value(pooled)
            results = {"value": value, "policy": self.policy(x)[:, 0], **aux}
            if self.mask:
                size = data["board_size"].reshape(-1, 2).long()
                rows, cols = torch.arange(x.shape[2]), torch.arange(x.shape[3])
                results["board_mask"] = (rows[None, :, None] < size[:, 0, None, None]) & (cols[None, None] < size[:, 1, None, None])
            if self.after is not None:
                self.after(self, data, results)
            return results


def trainer(**kw):
    from trainer.supervised import SupervisedTrainer

    register()
    base = dict(use_cpu=True, num_worker=0, performance_level=0, log_interval=1, show_interval=10 ** 6, save_interval=10 ** 6,
                temp_save_interval=10 ** 6, val_interval=10 ** 6)
    with quiet():
        return SupervisedTrainer(**dict(base, **kw))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def log_lines(rundir):
    with open(os.path.join(rundir, "training_log.jsonl")) as f:
        return [json.loads(line) for line in f]


def tree_equal(a, b, path="state"):
    """None, or where two nested states differ."""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)) or a.dtype != b.dtype or a.shape != b.shape:
            return "%s: %.200r and %.200r" % (path, a, b)
        return None if torch.equal(a.detach(), b.detach()) or bool(((a == b) | (a.isnan() & b.isnan())).all()) else path
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return "%s: keys %r and %r" % (path, list(a), list(b))
        return next((d for k in a for d in [tree_equal(a[k], b[k], "%s/%s" % (path, k))] if d), None)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return path
        return next((d for i, (x, y) in enumerate(zip(a, b)) for d in [tree_equal(x, y, "%s/%d" % (path, i))] if d), None)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return None if np.array_equal(a, b) else path
    return None if a == b or (a != a and b != b) else "%s: %.200r and %.200r" % (path, a, b)
