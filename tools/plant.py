"""Write one planted bug below seeded/.

    plant(bug, prop, [(file, old, new[, nth])...], needs, breaks, demo)

`old` must occur exactly once in the file (or `nth` says which one).
"""
import json
import os
import subprocess
import shutil
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as it should; non-zero: shows the defect
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def replace(src, old, new, nth):
    count = src.count(old)
    assert count, ("text not found", old)
    if nth is None:
        assert count == 1, ("ambiguous text", count, old)
        return src.replace(old, new)
    at = -1
    for _ in range(nth + 1):
        at = src.index(old, at + 1)
    return src[:at] + new + src[at + len(old):]


def plant(bug, prop, edits, needs, breaks, demo):
    where = os.path.join(SEEDED, bug)
    files = {}
    for file, old, new, *nth in edits:
        src = files.get(file) or open(f"{REPO}/{file}").read()
        try:
            files[file] = replace(src, old, new, nth[0] if nth else None)
        except AssertionError as error:
            raise SystemExit(f"{bug} {file}: {error}")
    os.makedirs(where, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-plant-")
    try:
        chunks = []
        for file, text in files.items():
            path = f"{tmp}/{file}"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as out:
                out.write(text)
            compile(text, path, "exec")
            diff = subprocess.run(
                ["git", "diff", "--no-index", "--no-color", f"{REPO}/{file}", path],
                capture_output=True, text=True).stdout
            for line in diff.splitlines(keepends=True):
                if line.startswith("diff --git"):
                    line = f"diff --git a/{file} b/{file}\n"
                elif line.startswith("--- "):
                    line = f"--- a/{file}\n"
                elif line.startswith("+++ "):
                    line = f"+++ b/{file}\n"
                chunks.append(line)
        with open(f"{where}/patch.diff", "w") as out:
            out.write("".join(chunks))
    finally:
        shutil.rmtree(tmp)
    with open(f"{where}/meta.json", "w") as out:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, out, indent=1)
        out.write("\n")
    with open(f"{where}/demo.py", "w") as out:
        out.write(demo.strip("\n") + "\n")
    with open(f"{where}/demo.sh", "w") as out:
        out.write(DEMO_SH)
    os.chmod(f"{where}/demo.sh", 0o755)
