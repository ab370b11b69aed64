"""Write the measured cost of each check (from evidence/ of a quick run) into DESIGN.md."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent


def cost(name):
    path = ROOT / "evidence" / f"{name}.json"
    if not path.exists():
        return None
    seen = json.loads(path.read_text())
    if seen["tier"] != "quick":
        return None
    parts = ", ".join(f"{part} {count['evaluations']}" for part, count in seen["coverage"]["parts"].items())
    total = seen["coverage"]["evaluations"]
    return f"* cost: quick tier {total} cases ({parts}) in about {max(1, round(seen['wall_s']))} s; the thorough tier about ten times as many"


def main():
    design = ROOT / "DESIGN.md"
    name, lines = None, []
    for line in design.read_text().splitlines():
        found = re.match(r"### (C\d\d) ", line)
        name = found.group(1) if found else name
        if line.startswith("* cost: "):
            line = cost(name) or line
        lines.append(line)
    design.write_text("\n".join(lines) + "\n")


if __name__ == "__main__":
    main()
