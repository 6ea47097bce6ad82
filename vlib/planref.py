"""Reference models of batch planning (independent of dataset/planner.py)."""
import hashlib
import struct
from collections import Counter


def tlv(v):
    if v is None:
        return b"\0"
    if isinstance(v, bool):
        return b"\1" + (b"\1" if v else b"\0")
    if isinstance(v, int):
        return b"\2" + struct.pack("<q", v)
    if isinstance(v, str):
        e = v.encode()
        return b"\3" + struct.pack("<I", len(e)) + e
    if isinstance(v, bytes):
        return b"\4" + struct.pack("<I", len(v)) + v
    return b"\5" + struct.pack("<I", len(v)) + b"".join(tlv(x) for x in v)


def plan(records, batch, train, steps=None):
    """records: list of (uid, shape) in order. Returns (batches of (uids, mask), all full batches?)."""
    queues, out = {}, []
    for uid, shape in records:
        q = queues.setdefault(shape, [])
        q.append(uid)
        if len(q) == batch:
            out.append((list(q), [True] * batch))
            queues[shape] = []
            if train and steps is not None and len(out) == steps:
                return out
    if not train:
        for shape in sorted(queues):
            q = queues[shape]
            if q:
                out.append(([q[i % len(q)] for i in range(batch)], [i < len(q) for i in range(batch)]))
    return out


def per_shape(records):
    c = Counter(shape for _, shape in records)
    return c
