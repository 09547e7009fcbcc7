#!/usr/bin/env python3
"""Entry point of every check: run_check.py PROPERTY [--tier quick|thorough], or --replay FILE."""
import os
import sys

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("VF_CHILD") != "1":
    env = dict(os.environ, VF_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    python = VENV if os.path.exists(VENV) else sys.executable
    os.execve(python, [python, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, HERE)
from vf import runner  # noqa: E402

if sys.argv[1:] == ["--selftest"]:  # the solver and the symbolic copy of the package load
    sys.exit(runner.selftest())
if len(sys.argv) == 3 and sys.argv[1] == "--replay":
    sys.exit(runner.replay(sys.argv[2]))
sys.exit(runner.main())
