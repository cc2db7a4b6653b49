#!/usr/bin/env python3
"""Entry point: ``check.py <property> [--tier quick|thorough] [--replay FILE] [--section S] [--case N]``.

Runs from /verif against the working tree in /repo (pure Python: nothing to build
except byte code, which is not written).
"""

import argparse
import importlib
import json
import os
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "CUDA_VISIBLE_DEVICES": "",
    "HF_HUB_OFFLINE": "1",
    "TRANSFORMERS_OFFLINE": "1",
    "TORCHDYNAMO_DISABLE": os.environ.get("TORCHDYNAMO_DISABLE", ""),
}


def _reexec() -> None:
    repo = os.environ.get("FFMON_REPO", "/repo")
    want = {**ENV, "PYTHONPATH": f"{repo}/src:{ROOT}"}
    if not want["TORCHDYNAMO_DISABLE"]:
        del want["TORCHDYNAMO_DISABLE"]
    if os.environ.get("FFMON_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["FFMON_CHILD"] = "1"
    os.execve(PY, [PY, str(ROOT / "check.py"), *sys.argv[1:]], env)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--section")
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    _reexec()
    if a.replay:
        d = json.loads(pathlib.Path(a.replay).read_text())
        a.property, a.seed, a.tier, a.section, a.case = d["property"], d["seed"], d["tier"], d["section"], d["case"]
    from ffmon import core

    try:
        mod = importlib.import_module(f"checks.{a.property.lower()}")
        # a check may borrow generators from another one, but not its sections
        core.SECTIONS[:] = [s for s in core.SECTIONS if s.fn.__module__ == mod.__name__]
    except Exception:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        print(f"INCONCLUSIVE {a.property}: harness or fastforward could not be imported")
        return 2
    import fastforward

    src = pathlib.Path(fastforward.__file__).resolve()
    if not str(src).startswith(str(pathlib.Path(os.environ.get("FFMON_REPO", "/repo")).resolve())):
        print("INCONCLUSIVE: fastforward was not imported from the working tree:", src)
        return 2
    if a.case is not None:
        import tempfile
        import shutil

        sec = next(s for s in core.SECTIONS if s.name == a.section)
        d = tempfile.mkdtemp()
        cwd = os.getcwd()
        try:
            os.chdir(d)
            r = core.run_case(a.property, sec, a.case, a.seed, d, a.tier)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps({k: v for k, v in r.items() if k not in ("trace",)}, indent=1))
        print(r.get("trace", ""))
        if r["status"] == "violation":
            print(f"VIOLATION property={a.property} replay={a.replay or '-'}")
            return 1
        return 0
    meta = getattr(mod, "META", {})
    return core.main(a.property, a.tier, a.seed, meta, only=a.section, workers=a.workers, cases=a.cases)


if __name__ == "__main__":
    sys.exit(main())
