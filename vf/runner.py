"""Run the cases of one property, write evidence, print verdicts."""
from __future__ import annotations

import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")


def _prepare(repo: str) -> None:
    """Import the real package from the repository under test, without touching the user cache."""
    sys.path[:] = [p for p in sys.path if p not in ("",)]
    sys.path.insert(0, repo)
    import qldpc  # noqa: F401

    assert os.path.realpath(qldpc.__file__).startswith(os.path.realpath(repo) + "/"), qldpc.__file__


_PACKAGES: dict = {}


def _package(case):
    from . import loader

    key = case.stubs.__name__ if case.stubs else None
    if key not in _PACKAGES:
        stubs = case.stubs() if case.stubs else None
        _PACKAGES[key] = loader.SymPackage(stubs)
    return _PACKAGES[key]


def _work(args):
    module_name, tier, index, budget = args
    import resource

    limit = int(float(os.environ.get("VF_MEM_GB", "3.5")) * 2**30)
    try:
        resource.setrlimit(resource.RLIMIT_DATA, (limit, limit))
    except (ValueError, OSError):
        pass
    from . import harness

    module = importlib.import_module(module_name)
    case = module.cases(tier)[index]
    case.timeout = min(case.timeout, budget) if budget else case.timeout
    try:
        return harness.explore(case, _package)
    except MemoryError:
        out = _blank(case)
        out["incomplete"].append("memory limit")
        return out
    except BaseException as error:  # noqa: BLE001
        import traceback

        out = _blank(case)
        out["error"] = "".join(traceback.format_exception(error))
        return out


def _blank(case):
    return dict(case=case.name, bounds=case.bounds, functions=case.functions, paths=0, pruned=0, branches=0,
                queries=0, solver_s=0.0, checks=0, validated=0, gaps=[], enumerated=0, incomplete=[],
                violations=[], flags=[], samples=[], wall_s=0.0, nodes=0)


def load_known(prop: str) -> list[dict]:
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry.get("property") == prop:
                        out.append(entry)
    return out


def main(argv=None) -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--case", default="*")
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "8")))
    parser.add_argument("--repo", default=os.environ.get("VF_REPO", "/repo"))
    parser.add_argument("--budget", type=float, default=None)
    parser.add_argument("-v", action="store_true")
    args = parser.parse_args(argv)
    os.environ["VF_REPO"] = args.repo
    start = time.monotonic()
    prop = args.property
    budget = args.budget or (400.0 if args.tier == "quick" else 3000.0)

    _prepare(args.repo)
    # load the solver and the symbolic layer before forking workers
    from . import harness, loader  # noqa: F401

    loader.REPO = args.repo
    module_name = f"checks.{prop.lower()}"
    sys.path.append(VERIF)
    module = importlib.import_module(module_name)
    cases = module.cases(args.tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    todo = [i for i, c in enumerate(cases) if fnmatch.fnmatch(c.name, args.case)]
    todo.sort(key=lambda i: -cases[i].cost)

    results = []
    if args.jobs > 1 and len(todo) > 1:
        context = mp.get_context("fork")
        with context.Pool(min(args.jobs, len(todo)), maxtasksperchild=8) as pool:
            jobs = [(i, pool.apply_async(_work, ((module_name, args.tier, i, budget),))) for i in todo]
            for i, job in jobs:
                remaining = max(0.2, budget + 120 - (time.monotonic() - start))
                try:
                    results.append(job.get(timeout=remaining))
                except mp.TimeoutError:
                    out = _blank(cases[i])
                    out["incomplete"].append("wall-clock budget")
                    results.append(out)
                if args.v:
                    show(results[-1])
            pool.terminate()
    else:
        for i in todo:
            results.append(_work((module_name, args.tier, i, budget)))
            if args.v:
                show(results[-1])
    return finish(prop, args, module, results, start)


def show(r) -> None:
    extra = {k: str(r[k])[:300] for k in ("gaps", "incomplete", "violations", "error", "flags") if r.get(k)}
    print(f"{r['case']}: paths={r['paths']} pruned={r['pruned']} q={r['queries']} checks={r['checks']} val={r['validated']} "
          f"enum={r['enumerated']} nodes={r['nodes']} wall={r['wall_s']} solver={r['solver_s']} {extra or ''}", flush=True)


def finish(prop, args, module, results, start) -> int:
    errors = [r for r in results if "error" in r]
    violations = [v for r in results for v in r["violations"]]
    exit_code = 0
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    known_path = os.path.join(replay_dir, f"{prop}.known")

    # known findings: a listed demonstration that still fails on the real code
    for entry in load_known(prop):
        demo = getattr(module, "FINDINGS", {}).get(entry["id"])
        if demo is None:
            continue
        try:
            still = demo()
        except Exception as error:  # noqa: BLE001
            still = f"{type(error).__name__}: {error}"
        if still:
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
        else:
            print(f"note: known finding {entry['id']} no longer reproduces")
    del known_path

    reported = []
    for i, v in enumerate(violations[:10]):
        path = os.path.join(replay_dir, f"{prop}_{i}.json")
        with open(path, "w") as file:
            json.dump({"property": prop, "tier": args.tier, **v}, file, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        if i < 4:
            print(f"  case {v['case']}: {v['label']}"[:400])
            print(f"  inputs {str(v['inputs'])[:300]}")
            print(f"  reproduce: python3 /verif/run_check.py --replay {path}")
        reported.append({"case": v["case"], "label": v["label"], "replay": path, "inputs": str(v["inputs"])[:500]})
        exit_code = 1
    for r in results:
        for reason in r["incomplete"]:
            print(f"INCOMPLETE case={r['case']}: {reason}")
        for reason in r["gaps"]:
            print(f"note: case={r['case']}: split by the solver over the real code: {reason}")
    for r in errors:
        print(f"ERROR case={r['case']}\n{r['error']}", file=sys.stderr)
    vacuous = [r["case"] for r in results if not r["violations"] and "error" not in r and not r["incomplete"]
               and r["checks"] == 0]
    if not violations and (errors or vacuous or not results):
        for name in vacuous:
            print(f"ERROR case={name} reached no assertion (vacuous)", file=sys.stderr)
        exit_code = 2

    total = {k: sum(r[k] for r in results) for k in ("paths", "pruned", "branches", "queries", "checks", "validated", "enumerated")}
    solver_s = round(sum(r["solver_s"] for r in results), 3)
    functions = sorted({f for r in results for f in r["functions"]})
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": total["paths"] + total["branches"],
            "transitions": total["queries"],
            "traces_validated_against_impl": total["validated"] + total["enumerated"],
            "samples": [{"case": r["case"], **s} for r in results for s in r["samples"][:1]][:6],
            "cases": len(results),
            "paths_decided": total["paths"],
            "paths_outside_bounds": total["pruned"],
            "assertions": total["checks"],
            "queries": total["queries"],
            "solver_seconds": solver_s,
            "solver_split_runs": total["enumerated"],
            "functions_encoded": functions,
            "incomplete_cases": sorted({r["case"] for r in results if r["incomplete"]}),
            "bounds": {r["case"]: r["bounds"] for r in results},
            "per_case": {r["case"]: [r["paths"], r["queries"], r["solver_s"], r["wall_s"]] for r in results},
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []) + sorted({f for r in results for f in r["flags"]}),
        "violations": reported,
        "wall_s": round(time.monotonic() - start, 2),
    }
    if args.case == "*":
        path = os.path.join(VERIF, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as file:
            json.dump(evidence, file, indent=1)
        os.replace(path + ".tmp", path)
    print(f"{prop} [{args.tier}] cases={len(results)} paths={total['paths']} assertions={total['checks']} "
          f"queries={total['queries']} solver={solver_s}s validated={total['validated']} "
          f"split={total['enumerated']} wall={evidence['wall_s']}s -> exit {exit_code}")
    return exit_code


def replay(path: str) -> int:
    with open(path) as file:
        data = json.load(file)
    _prepare(os.environ.get("VF_REPO", "/repo"))
    from . import harness

    sys.path.append(VERIF)
    module = importlib.import_module(f"checks.{data['property'].lower()}")
    for tier in (data["tier"], "quick", "thorough"):
        for case in module.cases(tier):
            if case.name == data["case"]:
                status, detail, _ = harness.run_concrete(case, data["inputs"])
                print(f"{data['property']} {case.name}: {status} {detail}")
                return 1 if status in ("violation", "exception") else 0
    print("no such case")
    return 2


def selftest() -> int:
    _prepare(os.environ.get("VF_REPO", "/repo"))
    from . import loader

    loader.REPO = os.environ.get("VF_REPO", "/repo")
    loader.SymPackage(None)
    print("ready")
    return 0
