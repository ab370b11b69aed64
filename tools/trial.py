#!/opt/venv/bin/python
"""
Tries planted bugs out, each in its own scratch copy of /repo:

    tools/trial.py [--jobs N] [--no-tests] [--also C01,C02] [ID ...]

For every bug: its demonstration must pass on the unchanged and fail on
the changed tree, the existing tests must pass on the changed tree, and
the check of its property should report it. Development tool; no
registered command uses it.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(command, cwd, timeout=900, env=None, **kw):
    full = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})}
    try:
        done = subprocess.run(
            command, cwd=cwd, env=full, timeout=timeout, text=True,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False, **kw)
        return done.returncode, done.stdout
    except subprocess.TimeoutExpired as error:
        return 124, str(error.stdout)[-2000:]


def copy_repo(where):
    shutil.copytree("/repo", where, ignore=shutil.ignore_patterns(
        ".git", "__pycache__", "secure"))
    subprocess.run("git init -q . && git add -A >/dev/null && git -c user.name=x -c "
                   "user.email=x@x commit -qm x", shell=True, cwd=where, check=True)


def tests_pass(tree, work):
    env = {
        "HOME": "/root", "PYTHONHASHSEED": "0", "CI": "true", "TMPDIR": work,
        "HYPOTHESIS_STORAGE_DIRECTORY": f"{work}/hyp", "PYTHONPATH": "/opt/vp/pytest_plugin",
    }
    code, out = sh([
        "setpriv", "--bounding-set=-dac_override,-dac_read_search", PYTHON, "-m", "pytest",
        "-q", "-x", "-p", "vp_fixed_seed", "-p", "no:cacheprovider", "--timeout=300", "tests",
    ], tree, env=env)
    return code == 0, out


def trial(bug, args):
    directory = f"{VERIF}/seeded/{bug}"
    meta = json.load(open(f"{directory}/meta.json"))
    root = tempfile.mkdtemp(prefix="verif-trial-")
    tree, work = f"{root}/repo", f"{root}/work"
    os.mkdir(work)
    report = [bug, meta["property"]]
    try:
        copy_repo(tree)
        if not args.fast:
            code, out = sh(["bash", f"{directory}/demo.sh"], tree, 300, {"TMPDIR": work})
            report.append("demo-clean:ok" if code == 0 else f"DEMO FAILS UNCHANGED\n{out[-1500:]}")
        code, out = sh(["git", "apply", f"{directory}/patch.diff"], tree)
        if code:
            return [*report, "PATCH DOES NOT APPLY", out]
        if not args.fast:
            code, out = sh(["bash", f"{directory}/demo.sh"], tree, 300, {"TMPDIR": work})
            report.append("demo-bug:ok" if code else "DEMO PASSES WITH THE BUG")
            if not args.no_tests:
                good, out = tests_pass(tree, work)
                report.append("tests:ok" if good else "TESTS FAIL\n" + out[-1500:])
        wanted = [meta["property"]] if not args.all else sorted(
            f[:-3].upper() for f in os.listdir(f"{VERIF}/checks") if f.startswith("c"))
        for pid in wanted + [p for p in args.also.split(",") if p]:
            code, out = sh([PYTHON, "run.py", pid], VERIF, 900, {
                "VERIF_REPO": tree, "VERIF_OUT": work, "VERIF_SEED": args.seed,
                "VERIF_TIER": "quick", "TMPDIR": work})
            if code == 1:
                line = [x for x in out.splitlines() if x.startswith("  part")][:1]
                report.append(f"{pid}:CAUGHT {line[0].strip() if line else out[-300:]}")
            elif code == 0:
                report.append(f"{pid}:{'missed' if pid == meta['property'] else 'quiet'}")
            else:
                report.append(f"{pid}:ERROR {code}\n{out[-1500:]}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return report


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("ids", nargs="*")
    parser.add_argument("--jobs", type=int, default=6)
    parser.add_argument("--no-tests", action="store_true")
    parser.add_argument("--fast", action="store_true", help="only run the checks")
    parser.add_argument("--all", action="store_true", help="run every check")
    parser.add_argument("--also", default="")
    parser.add_argument("--seed", default="1")
    args = parser.parse_args()
    ids = args.ids or sorted(os.listdir(f"{VERIF}/seeded"))
    with ThreadPoolExecutor(args.jobs) as pool:
        for report in pool.map(lambda b: trial(b, args), ids):
            print(" | ".join(report))
            sys.stdout.flush()


main()
