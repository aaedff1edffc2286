"""Locates and imports the code under test (the working tree of /repo) plus the solver bindings."""
import os, sys, warnings
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.filterwarnings("ignore")
import numpy as np          # noqa: E402
import casadi as ca         # noqa: E402
import z3                   # noqa: E402
from mpopt import mpopt as mp  # noqa: E402
assert os.path.realpath(mp.__file__).startswith(os.path.realpath(REPO) + os.sep), mp.__file__
mp.mpopt._MUTE_ = True
SRC = os.path.realpath(mp.__file__)
SEED = int(os.environ.get("VERIF_SEED", "1"))
