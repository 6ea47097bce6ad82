#!/usr/bin/env python3
"""Entry point of every registered check: run.py <PROPERTY> [--replay FILE] [--only CAMPAIGN]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"

if os.environ.get("VERIF_REEXEC") != "1":
    env = {k: v for k, v in os.environ.items()
           if k in ("VERIF_SEED", "VERIF_TIER", "VERIF_REPO", "VERIF_SCALE", "VERIF_JOBS", "VERIF_VERBOSE",
                    "TERM", "TMPDIR")}
    env.update(
        VERIF_REEXEC="1", HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
        CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        ATEN_CPU_CAPABILITY="avx2", MKL_CBWR="COMPATIBLE", ONEDNN_MAX_CPU_ISA="AVX2",
        HF_HUB_OFFLINE="1", MPLBACKEND="Agg", ACCELERATE_DISABLE_RICH="1",
    )
    os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vlib.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
