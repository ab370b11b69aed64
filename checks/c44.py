"""C44: lost worker processes are reported at once and later work succeeds."""

import json
import os
import pathlib
import signal
import subprocess
import sys

from hypothesis import strategies as st

from lib import strategies as S
from lib.harness import Part, Sweep, Violation, expect

TECHNIQUE = (
    "stateful property-based testing with faults: generated histories of work, passphrase "
    "hashing and worker processes that die (by themselves, killed from outside, alone or "
    "amid other work), against a model of which calls can be affected; passphrase hashes "
    "are compared with an independent implementation"
)
RULE = (
    "a case is a history; non-trivial when a worker dies or a pool is replaced while work is "
    "under way or by several threads at once. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a worker dies before its function returned; death in the middle of sending a result "
    "is left to the interpreter's queues",
    "a call that does not end within two minutes counts as one that never ends",
)

ROOT = pathlib.Path(__file__).parent.parent
FORM = {"is_async": st.booleans()}


def op(kind, /, **fields):
    return st.fixed_dictionaries({"op": st.just(kind), **FORM, **fields})


HOW = {"how": st.sampled_from(["exit", "kill"])}
CORES = {"cores": st.sampled_from([1, 1, 2])}
piece = S.weighted(
    (st.fixed_dictionaries({"op": st.just("work"), "delay": st.sampled_from([0, 30, 200])}), 3),
    (st.fixed_dictionaries({"op": st.just("die"), "delay": st.sampled_from([0, 20, 100]), **HOW}), 2),
    (st.fixed_dictionaries({"op": st.just("hash"), **CORES}), 3),
)
TOGETHER = op("together", pieces=st.lists(piece, min_size=2, max_size=4))
DEATHS = S.weighted((op("die", **HOW), 3), (op("kill"), 2), (op("single die", **HOW), 1), (TOGETHER, 2))
OPS = S.weighted(
    (op("work"), 3), (op("hash", **CORES), 5), (op("reset"), 1), (op("single"), 1), (op("outstanding", many=st.sampled_from([1, 1, 2, 5])), 1),
    (op("resets"), 1), (DEATHS, 3),
)
histories = st.tuples(st.lists(OPS, max_size=1), DEATHS, st.lists(OPS, max_size=3)).map(
    lambda parts: {"ops": [*parts[0], parts[1], *parts[2]]})


def evaluate(case):
    # a process of its own, as a crash of the interpreter is a possible outcome
    child = subprocess.Popen(
        [sys.executable, "-m", "lib.lost", json.dumps(case)], cwd=ROOT, start_new_session=True,
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        output, errors = child.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        raise Violation("the calls do not end", key="hang") from None
    finally:
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        child.wait()
        child.stdout.close()
        child.stderr.close()
    if child.returncode < 0:
        raise Violation(f"the process that sent the work was ended by signal {-child.returncode}", key="crash")
    try:
        found = json.loads(output.splitlines()[-1])["violation"]
    except (IndexError, ValueError, TypeError, KeyError):
        found = f"a call failed: {errors.decode(errors='replace')[-600:]}"
    expect(found is None, lambda: found)


def nontrivial(case):
    deaths = [n for n, one in enumerate(case["ops"])
              if one["op"] in ("die", "kill", "single die", "resets", "outstanding")
              or one["op"] == "together" and any(p["op"] == "die" for p in one["pieces"])]
    return bool(deaths)


def labels(case):
    for one in case["ops"]:
        yield one["op"]
    yield from {f"{a['op']}, then {b['op']}" for a, b in zip(case["ops"], case["ops"][1:])}


def small_cases(tier):
    """Each way of dying, followed by each kind of work, in each form."""
    for is_async in (False, True):
        yield {"ops": [{"op": "resets", "is_async": is_async}]}
        yield {"ops": [{"op": "outstanding", "is_async": is_async, "many": 60}]}
    turn = 0
    for death in ({"op": "die", "how": "exit"}, {"op": "kill"}, {"op": "single die", "how": "kill"},
                  {"op": "together", "pieces": [
                      {"op": "hash", "cores": 2}, {"op": "work", "delay": 200}, {"op": "die", "how": "kill", "delay": 20},
                      {"op": "hash", "cores": 1}]}):
        for after in ({"op": "hash", "cores": 2}, {"op": "work"}, {"op": "reset"}):
            turn += 1
            for is_async in (False, True) if tier == "thorough" else (bool(turn % 2),):
                yield {"ops": [{**death, "is_async": is_async}, {**after, "is_async": not is_async}]}


PARTS = [
    Sweep("each death", small_cases, evaluate, nontrivial=nontrivial, labels=labels, timeout=240),
    Part("histories", histories, evaluate, 12, 300, nontrivial=nontrivial, labels=labels, timeout=240),
]
