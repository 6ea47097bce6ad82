"""C25: map-style sampling covers the dataset on every rank."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torch.utils.data import Dataset

from dataset.stream import EvaluationBatchPlannerDataset, MapRecordRef
from utils.training_utils import ResumableSampler, build_data_loader
from vlib.api import Campaign, require
from vlib.data import context

RULE = ("A case is a dataset length, world size, batch size and a history of reads, commits, rollbacks, saves and epoch changes, or a data set "
        "with board shapes to evaluate. Non-trivial: a sampler history that commits, or an evaluation with at least two batches.")
ASSUMPTIONS = ["all ranks run in one process with their own sampler object", "world sizes 1..4, at most 60 records"]
BUDGET = {"quick": 40, "thorough": 500}
NEEDS_EXT = False


class Records(Dataset):
    """A mapped data set that knows which records were read in which epoch."""

    def __init__(self, n):
        self.n = n
        self.read = []
        self._active_epoch = None

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        self.read.append((self._active_epoch, int(i)))
        return {"i": np.int64(i), "epoch": np.int64(-1 if self._active_epoch is None else self._active_epoch)}


class Wrapped(Records):
    def __init__(self, inner):
        super().__init__(inner.n)
        self.dataset = inner

    def __getitem__(self, i):
        return self.dataset[i]


def make(c, rank=0, world=None, seed=None, data=None):
    return ResumableSampler(data or Records(c["n"]), shuffle=c["shuffle"], seed=c["seed"] if seed is None else seed, rank=rank,
                            world_size=c["world"] if world is None else world)


def order(c, epoch, memo={}):
    """The whole epoch as one rank would see it."""
    s = make(c, 0, 1)
    s.load_state_dict(dict(s.state_dict(), epoch=epoch))
    out = list(s)
    require(sorted(out) == list(range(c["n"])), "epoch %d does not visit every index once: %s", epoch, out)
    if not c["shuffle"]:
        require(out == list(range(c["n"])), "an unshuffled epoch is not in order")
    return out


# ---- a whole epoch over all ranks ------------------------------------------

def epoch_cases(draw):
    return dict(n=draw(st.integers(1, 60)), world=draw(st.integers(1, 4)), shuffle=draw(st.booleans()), seed=draw(st.integers(0, 2**31)),
                epochs=draw(st.integers(1, 4)), local=draw(st.integers(1, 6)), wrap=draw(st.booleans()))


def check_epochs(c, ctx):
    local = c["n"] // c["world"]
    per_epoch = []
    samplers = []
    for r in range(c["world"]):
        data = Records(c["n"])
        samplers.append((make(c, r, data=Wrapped(data) if c["wrap"] else data), data))
    for e in range(c["epochs"]):
        want = order(c, e)
        seen = []
        parts = []
        for s, data in samplers:
            require(len(s) == local, "length %d instead of %d", len(s), local)
            part = list(s)
            require(data._active_epoch == e, "the data set is not told about epoch %d", e)
            require(len(part) == local and len(s) == 0, "a rank reads %d of %d records", len(part), local)
            parts.append(part)
            seen += part
            s.advance_yield_epoch()
        require(len(set(seen)) == len(seen) == local * c["world"], "ranks overlap in epoch %d", e)
        # positions of one global batch come from the same stretch of the epoch, whatever the number of ranks
        for i in range(local):
            got = [p[i] for p in parts]
            require(got == want[i * c["world"]:(i + 1) * c["world"]], lambda: f"epoch {e}: ranks read {got} at position {i}")
        per_epoch.append(want)
    if c["shuffle"] and c["n"] >= 20 and c["epochs"] >= 2:
        require(len({tuple(p) for p in per_epoch}) == c["epochs"], "epochs are shuffled alike")
        require(per_epoch[0] != list(range(c["n"])), "the first epoch is not shuffled")
        other = order(dict(c, seed=c["seed"] + 1000003), 0)
        require(other != per_epoch[0], "the seed does not change the order")
    ctx.nontrivial(c["n"] >= 2)
    ctx.label("remainder", c["n"] % c["world"] != 0)


# ---- histories ---------------------------------------------------------------

def history_cases(draw):
    world = draw(st.integers(1, 3))
    batch = draw(st.integers(1, 5))
    n = world * batch * draw(st.integers(1, 5)) + draw(st.integers(0, 2 * world * batch - 1))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("fetch"), st.integers(1, 3)), st.tuples(st.just("fetch"), st.integers(1, 3)), st.just(["commit"]),
        st.just(["commit"]), st.just(["commit"]), st.just(["rollback"]), st.just(["save"]), st.just(["restore"]), st.just(["ahead"]), st.just(["stale"]),
        st.just(["skip"])), min_size=6, max_size=40))
    return dict(n=n, world=world, rank=draw(st.integers(0, world - 1)), batch=batch, shuffle=draw(st.booleans()),
                seed=draw(st.integers(0, 2**31)), ops=[list(o) for o in ops])


class Trainer:
    """Drives one rank the way the training loop does: fetch batches, stage them, commit a step."""

    def __init__(self, c):
        self.c = c
        self.local = c["n"] // c["world"]
        self.new()

    def new(self, state=None):
        self.data = Records(self.c["n"])
        self.s = make(self.c, self.c["rank"], data=self.data)
        if state is not None:
            self.s.load_state_dict(state)
        self.restart()

    def restart(self):
        self.it = iter(build_data_loader(self.data, self.c["batch"], sampler=self.s, generator=torch.Generator().manual_seed(1),
                                         pin_memory=False))
        self.tokens = []

    def fetch(self):
        try:
            batch = next(self.it)
        except StopIteration:
            self.s.advance_yield_epoch()
            self.it = iter(build_data_loader(self.data, self.c["batch"], sampler=self.s, generator=torch.Generator().manual_seed(1),
                                             pin_memory=False))
            batch = next(self.it)
        self.tokens.append(self.s.stage_batch(self.c["batch"]))
        return batch["i"].tolist(), batch["epoch"].tolist()


def check_history(c, ctx):
    local = c["n"] // c["world"]
    stream_memo = {}

    def part(e):
        if e not in stream_memo:
            stream_memo[e] = order(c, e)[:local * c["world"]][c["rank"]::c["world"]]
        return stream_memo[e]

    t = Trainer(c)
    committed = (0, 0)                      # epoch, offset
    staged = (0, 0)
    saved = [(t.s.state_dict(), committed)]
    stale = None
    commits = 0
    for op in c["ops"]:
        if op[0] == "fetch":
            for _ in range(op[1]):
                e, o = staged
                if o + c["batch"] > local:      # the incomplete batch at the end of an epoch is dropped
                    e, o = e + 1, 0
                got, epochs = t.fetch()
                want = part(e)[o:o + c["batch"]]
                require(got == want, lambda: f"the batch after {staged} is {got}, expected {want}")
                require(set(epochs) == {e}, lambda: f"records of epoch {e} are read in epoch {epochs}")
                staged = (e, o + c["batch"])
        elif op[0] == "commit":
            if t.tokens:
                before = t.s.state_dict()
                p = t.s.prepare_commit(t.tokens)
                require(t.s.state_dict() == before, "preparing a commit already moved the cursor")
                t.s.commit_prepared(p)
                stale = p
                t.tokens = []
                committed = staged
                commits += 1
                require((t.s.state_dict()["epoch"], t.s.state_dict()["offset"]) == committed, lambda: f"the cursor is not at {committed}")
            else:
                refuses(lambda: t.s.prepare_commit([]), "an empty commit")
        elif op[0] == "rollback":
            t.s.rollback_uncommitted()
            t.restart()
            staged = committed
        elif op[0] == "save":
            saved.append((copy.deepcopy(t.s.state_dict()), committed))
        elif op[0] == "restore":
            state, committed = saved[-1]
            t.new(copy.deepcopy(state))
            require(t.s.state_dict() == state, "a restored sampler reports another state")
            staged = committed
            ctx.label("restored")
        elif op[0] == "ahead":                # samples read ahead of the batch are not part of the state
            before = t.s.state_dict()
            k = min(2, len(t.s))
            for _, _ in zip(range(k), t.s):
                pass
            require(t.s.state_dict() == before, "reading ahead moved the saved cursor")
            t.s.rollback_uncommitted()
            t.restart()
            staged = committed
        elif op[0] == "stale" and stale is not None:
            s = t.s
            if (stale.before_epoch, stale.before_offset) != (s.epoch, s.offset):
                before = s.state_dict()
                refuses(lambda: s.commit_prepared(stale), "an outdated commit")
                require(s.state_dict() == before, "a refused commit moved the cursor")
        elif op[0] == "skip" and len(t.tokens) >= 2:
            before = t.s.state_dict()
            refuses(lambda: t.s.prepare_commit(t.tokens[1:]), "a commit that skips a batch")
            refuses(lambda: t.s.prepare_commit([t.tokens[0], t.tokens[0]]), "a batch committed twice")
            require(t.s.state_dict() == before, "a refused commit moved the cursor")
    # whatever happened, a fresh sampler from the state continues exactly where the committed history ended
    for kept, (e, o) in [(t.s.state_dict(), committed)] + saved[-1:]:
        fresh = Trainer(c)
        fresh.new(kept)
        for _ in range(3):
            if o + c["batch"] > local:
                e, o = e + 1, 0
            got, _ = fresh.fetch()
            require(got == part(e)[o:o + c["batch"]], lambda: f"a sampler restored at {(e, o)} reads {got}")
            o += c["batch"]
    wrong = dict(t.s.state_dict())
    for key, value in (("length", c["n"] + 1), ("seed", c["seed"] + 1), ("shuffle", not c["shuffle"]), ("world_size", c["world"] + 1),
                       ("rank", c["rank"] + 1), ("offset", local + 1), ("offset", -1), ("version", 7)):
        s = make(c, c["rank"])
        before = s.state_dict()
        refuses(lambda: s.load_state_dict(dict(wrong, **{key: value})), f"a state with {key}={value}")
        require(s.state_dict() == before, "a refused state was partly applied")
    legacy = {k: v for k, v in wrong.items() if k not in ("world_size", "rank")}
    legacy["version"] = 1
    s = make(c, c["rank"])
    if c["world"] == 1:
        s.load_state_dict(legacy)
        require(s.state_dict() == wrong, "a version-1 state is restored differently")
    else:
        refuses(lambda: s.load_state_dict(legacy), "a version-1 state on several ranks")
    ctx.nontrivial(commits >= 1)
    ctx.label("epochs", committed[0] >= 1)


def refuses(f, what):
    try:
        f()
    except (RuntimeError, ValueError):
        return
    require(False, "%s was accepted", what)


# ---- evaluation --------------------------------------------------------------

class Mapped(Dataset):
    def __init__(self, shapes, key):
        self.shapes = shapes
        self.key = key
        self.is_fixed_side_input = False

    def __len__(self):
        return len(self.shapes)

    def map_record_ref(self, i):
        if self.key == "board":
            shape = tuple(self.shapes[i])
        else:
            shape = (("board_input", (2, *self.shapes[i])),)
        return MapRecordRef("d", i, ("d", b"x", "s", (i,)), shape)

    def __getitem__(self, i):
        h, w = self.shapes[i]
        return dict(board_size=np.array([h, w], np.int8), board_input=np.full((2, h, w), i % 2, np.int8), stm_input=np.float32(1),
                    value_target=np.array([i, 0, 0], np.float32), policy_target=np.zeros((h, w), np.float32))


def eval_cases(draw):
    kinds = draw(st.lists(st.sampled_from([[5, 5], [6, 6], [5, 6], [7, 5]]), min_size=1, max_size=3, unique_by=str))
    return dict(shapes=draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=40)), world=draw(st.integers(1, 4)),
                local=draw(st.integers(1, 7)), seed=draw(st.integers(0, 100)), key=draw(st.sampled_from(["board", "full"])),
                mode=draw(st.sampled_from(["validate", "test"])))


def check_eval(c, ctx):
    ranks = []
    for r in range(c["world"]):
        ds = EvaluationBatchPlannerDataset(Mapped([tuple(s) for s in c["shapes"]], c["key"]), context(c["mode"], c["seed"], c["local"], c["world"], r))
        loader = build_data_loader(ds, c["local"], drop_last=False, batch_by_boardsize=True, pin_memory=False)
        passes = []
        for _ in range(2):
            out = []
            for env in loader:
                ids = np.asarray(env.data["value_target"])[:, 0].astype(int).tolist()
                mask = np.asarray(env.is_real).astype(bool).tolist()
                require(len(ids) == len(mask) == c["local"], "a local batch of %d rows, %d marks instead of %d", len(ids), len(mask), c["local"])
                require([k[3][0] for k in env.sample_keys] == ids, "sample keys do not belong to the rows")
                out.append((ids, mask, bool(env.token.is_last), env.token.batch_index, tuple(env.data["board_input"].shape[-2:])))
            passes.append(out)
        require(passes[0] == passes[1], "a second evaluation differs from the first")
        ranks.append(passes[0])
    require(len({len(r) for r in ranks}) == 1, "ranks see different numbers of batches")
    shapes = [tuple(s) for s in c["shapes"]]
    seen = []
    last_of_shape = {}
    for n, parts in enumerate(zip(*ranks)):
        ids = sum((p[0] for p in parts), [])
        mask = sum((p[1] for p in parts), [])
        require({shapes[i] for i in ids} == {parts[0][4]}, "a batch mixes board shapes")
        require(all(p[3] == n and p[2] == (n + 1 == len(ranks[0])) for p in parts), "tokens are not in step")
        require(mask == sorted(mask, reverse=True) and any(mask), "padding is not at the end of the global batch, or all of it")
        real = [i for i, m in zip(ids, mask) if m]
        shape = parts[0][4]
        require(shape not in last_of_shape or last_of_shape[shape], "an incomplete batch is not the last of its shape")
        last_of_shape[shape] = all(mask)
        seen += real
    require(sorted(seen) == list(range(len(shapes))), lambda: f"evaluation visits {sorted(seen)} of {len(shapes)} records")
    ctx.nontrivial(len(ranks[0]) >= 2)
    ctx.label("shapes", len(set(shapes)) > 1)
    ctx.label("padded", not all(last_of_shape.values()))


CAMPAIGNS = [
    Campaign("epochs", lambda: st.composite(epoch_cases)(), check_epochs, 400, shards=2),
    Campaign("histories", lambda: st.composite(history_cases)(), check_history, 1500, shards=4),
    Campaign("evaluation", lambda: st.composite(eval_cases)(), check_eval, 600, shards=2),
]
