"""Import environment of every check: pytorch_kinematics from /repo/src, Hypothesis from the tool venv, single-threaded torch."""
import glob
import os
import sys
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MUJOCO_GL", "disable")

REPO = os.environ.get("PKV_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
try:
    import hypothesis  # noqa: F401
except ImportError:
    for p in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages")):
        sys.path.append(p)  # after the packages of this interpreter, which win
    import hypothesis  # noqa: F401
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402,F401
import torch  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass

import pytorch_kinematics as pk  # noqa: E402,F401

assert os.path.realpath(pk.__file__).startswith(os.path.realpath(REPO)), pk.__file__
