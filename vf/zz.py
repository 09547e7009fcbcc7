"""Locate z3 (installed for the sandbox's tooling interpreter) without shadowing /opt/venv."""
import glob
import importlib.util
import sys

try:
    import z3  # noqa: F401
except ImportError:
    _found = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages/z3/__init__.py"))
    if not _found:
        raise
    _spec = importlib.util.spec_from_file_location(
        "z3", _found[0], submodule_search_locations=[_found[0].rsplit("/", 1)[0]]
    )
    _mod = importlib.util.module_from_spec(_spec)
    sys.modules["z3"] = _mod
    _spec.loader.exec_module(_mod)

import z3  # noqa: E402

z3.set_param("sat.random_seed", 1)
