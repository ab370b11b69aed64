#!/opt/venv/bin/python
"""Rewrites MANIFEST.json from properties.jsonl and the checks that exist."""

import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"


def attribute(tree, name, default=None):
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == name \
                if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) else False:
            return ast.literal_eval(node.value)
    return default


def main():
    checks = []
    for line in open(f"{VERIF}/properties.jsonl", encoding="utf-8"):
        pid = json.loads(line)["id"]
        path = f"{VERIF}/checks/{pid.lower()}.py"
        if not os.path.exists(path):
            continue
        tree = ast.parse(open(path, encoding="utf-8").read())
        checks.append({
            "property": pid,
            "quick_cmd": f"{PYTHON} run.py {pid}",
            "thorough_cmd": f"{PYTHON} run.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": attribute(tree, "TECHNIQUE"),
            "level": attribute(tree, "LEVEL", "exploration"),
            "level_note": attribute(tree, "LEVEL_NOTE", (
                "generated-input search: holds on every case explored; "
                "not a proof for the cases not generated"
            )),
        })
    document = {
        "version": 1,
        "setup_cmd": f"{PYTHON} tools/setup.py",
        "checks": checks,
        "not_applicable": [],
    }
    with open(f"{VERIF}/MANIFEST.json", "w", encoding="utf-8") as file:
        json.dump(document, file, indent=1, ensure_ascii=False)
        file.write("\n")
    print(len(checks), "checks,", sum(not c["technique"] for c in checks), "without technique")


main()
