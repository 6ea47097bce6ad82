"""What a check module uses: Campaign, Ctx, Violation, assertion helpers."""
import hashlib
import json
import os
import shutil
import tempfile


class Violation(AssertionError):
    """The property is broken by this case; `key` identifies the root cause for known findings."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Reject(Exception):
    """The case is outside the domain of the property (counted, never a pass or a failure)."""


def require(cond, message, *args, key=None):
    if not cond:
        if callable(message):
            message = message()
        raise Violation(str(message) % args if args else str(message), key=key)


class Campaign:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=4, case_timeout=120,
                 exhaustive=None, ext=True):
        self.name = name
        self.strategy = strategy          # zero-argument callable returning a strategy of JSON-able cases
        self.check = check                # check(case, ctx)
        self.quick = quick                # total examples at the quick tier
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.case_timeout = case_timeout
        self.exhaustive = exhaustive      # optional callable -> list of cases enumerated on every run


class Ctx:
    """Per-case context handed to a check."""

    def __init__(self, stats, scratch):
        self._stats = stats
        self._scratch = scratch
        self._nontrivial = False
        self._tmp = None
        self.labels = []

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def label(self, name, flag=True):
        if flag:
            self.labels.append(str(name))

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=self._scratch)
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case):
    return hashlib.sha256(canonical(case).encode()).hexdigest()[:16]


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big") >> 1
