#!/opt/venv/bin/python
"""
run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property on the working tree of /repo.
Exit 0: held on everything explored. Exit 1: violated (a VIOLATION line
names the replay file). Exit 2: the check itself failed.
"""

import argparse
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
# worker processes started by the code under test inherit these: they too
# must compile the working tree afresh and leave nothing behind
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONPYCACHEPREFIX"] = "/nonexistent/verif-pycache"


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int,
                        default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    args = parser.parse_args()

    os.environ.pop("HYPOTHESIS_PROFILE", None)
    import tempfile

    storage = tempfile.mkdtemp(prefix="verif-hyp-")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = storage
    try:
        return decide(args)
    finally:
        import shutil

        shutil.rmtree(storage, ignore_errors=True)


def decide(args):
    from lib import harness

    harness.install_alarm()
    module = importlib.import_module(f"checks.{args.property.lower()}")
    run = harness.Run(args.property, module, args.tier, args.seed)
    if args.replay:
        with open(args.replay, encoding="utf-8") as file:
            document = json.load(file)
        part = next(p for p in module.PARTS if p.name == document["part"])
        violation = run.evaluate(part, document["case"])
        if violation is None:
            print(f"{args.property}: the replayed case holds")
            return 0
        print(f"VIOLATION property={args.property} replay={args.replay}")
        print(f"  part {part.name}: {violation}")
        print("  " + getattr(violation, "trace", "").replace("\n", "\n  "))
        return 1
    run.start_watchdog()
    run.run()
    return run.finish()


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        print("the check itself failed", file=sys.stderr)
        code = 2
    sut = sys.modules.get("lib.sut")
    if sut is not None:
        sut.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
