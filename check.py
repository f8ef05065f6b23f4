#!/usr/bin/env python3
"""Entry point of every check: check.py ID [--tier quick|thorough] [--replay FILE]

Only sets up the environment and re-executes the real runner (pbt/runner.py) under
the interpreter gpkit is installed for.  See DESIGN.md.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def environment(hashseed="0"):
    "A copy of the environment with everything that influences results pinned."
    env = dict(os.environ)
    for name in ("PYTHONPATH", "MSKHOME", "PYTHONSTARTUP", "PYTHONWARNINGS"):
        env.pop(name, None)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed),
               PYTHONNOUSERSITE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", LANG="C.UTF-8",
               PYTHONUTF8="1")
    env.setdefault("VERIF_REPO", "/repo")
    return env


def interpreter():
    "gpkit's own interpreter, else whatever runs this file."
    venv = "/opt/venv/bin/python"
    return venv if os.path.exists(venv) else sys.executable


if __name__ == "__main__":
    PY = interpreter()
    os.execve(PY, [PY, "-W", "ignore", os.path.join(HERE, "pbt", "runner.py")]
              + sys.argv[1:], environment())
