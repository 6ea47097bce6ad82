"""Builds the C++ extensions of the repository's current tree outside the repository."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ext_key(repo):
    h = hashlib.sha256(sys.version.encode())
    files = [os.path.join(repo, "setup.py")]
    for root, _dirs, names in os.walk(os.path.join(repo, "dataset")):
        files += [os.path.join(root, n) for n in names
                  if n.endswith((".cpp", ".h", ".hpp", ".cc", ".hh", ".inl", ".c"))]
    for f in sorted(files):
        h.update(os.path.relpath(f, repo).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()[:24]


def build_extensions(repo, scratch):
    """Returns a directory holding the freshly built extensions (content-addressed cache)."""
    cache_root = os.path.join(VERIF, ".cache")
    target = os.path.join(cache_root, "ext-" + ext_key(repo))
    if os.path.isdir(target) and len(glob.glob(os.path.join(target, "*.so"))) >= 3:
        return target
    # setup.py is run on a copy of the sources: nothing is written inside the repository.
    src = os.path.join(scratch, "ext-src")
    os.makedirs(src)
    shutil.copy(os.path.join(repo, "setup.py"), src)
    shutil.copytree(os.path.join(repo, "dataset"), os.path.join(src, "dataset"))
    out = os.path.join(scratch, "ext-lib")
    r = subprocess.run(
        [sys.executable, "setup.py", "-q", "build_ext", "-j3", "--build-lib", out, "--build-temp",
         os.path.join(scratch, "ext-tmp")],
        cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("extension build failed:\n" + r.stdout[-4000:])
    shutil.rmtree(src)
    try:
        os.makedirs(cache_root, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=cache_root)
        for f in glob.glob(os.path.join(out, "*.so")):
            shutil.copy(f, tmp)
        os.rename(tmp, target)
        for old in glob.glob(os.path.join(cache_root, "ext-*")):
            if old != target:
                shutil.rmtree(old, ignore_errors=True)
        return target
    except OSError:
        return out


if __name__ == "__main__":  # setup_cmd
    d = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        print(build_extensions(os.environ.get("VERIF_REPO", "/repo"), d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
