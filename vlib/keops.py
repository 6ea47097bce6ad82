"""KeOps compiles formulas into a folder shared by all shards without any locking: serialise it."""
import fcntl
import hashlib
import os


def serialise():
    from pykeops.common.keops_io.LoadKeOps_cpp import LoadKeOps_cpp_class as cls
    if getattr(cls, "_verif_locked", False):
        return
    plain = cls.init

    def init(self, *args):
        name = "keops-%s.lock" % hashlib.sha1(repr(args).encode()).hexdigest()
        with open(os.path.join(os.environ["VERIF_SCRATCH"], name), "w") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            return plain(self, *args)

    cls.init = init
    cls._verif_locked = True
