"""C38: synchronous and asynchronous forms are interchangeable."""

import asyncio
import contextlib
import itertools

from hypothesis import strategies as st

from lib import sched, sut, twins
from lib.harness import Part, Sweep, expect

TECHNIQUE = (
    "differential property-based testing: generated histories of calls with valid and odd "
    "arguments are played on the synchronous and the asynchronous form from one starting "
    "state; outcome by outcome and effect by effect they must agree. Generated schedules "
    "run many asynchronous calls at once, which must give what each gives alone"
)
RULE = (
    "a case is an object and a history of calls on it; non-trivial when at least one call "
    "returns something and the history has a second call or an error. Distinct by the whole case."
)
ASSUMPTIONS = (
    "errors are compared by their type", "the clock stands still and the source of randomness "
    "is constant, so that results which depend on them are comparable",
)


@contextlib.contextmanager
def still():
    """Time and randomness which are the same for both forms."""
    sut.wall.freeze(twins.NOW)
    sut.randomness.fix(7)
    try:
        yield
    finally:
        sut.wall.real()
        sut.randomness.real()


def play(case, is_async, runner=None):
    """All outcomes of a history, and what it leaves behind."""
    kind = twins.KINDS[case["kind"]]
    with still():
        env = twins.Env(kind, case["setup"], is_async)
        try:
            async def history():
                return [await kind.perform(env, step) for step in case["steps"]]
            seen = (runner or sut.run)(history()) if is_async else twins.later(env, history)()
            return seen, env.effects()
        finally:
            env.close()


def evaluate(case):
    (sync, left), (parallel, right) = play(case, False), play(case, True)
    for at, (one, other) in enumerate(zip(sync, parallel)):
        expect(one == other, lambda: (
            f"call {at + 1}, {case['steps'][at]['op']}, of {case['kind']}: the synchronous form gives "
            f"{short(one)}, the asynchronous one {short(other)}"))
    expect(left == right, lambda: (
        f"the calls leave {case['kind']} in different states: {short(left)} and {short(right)}"))
    note(case, sync)


LAST = {"labels": [], "nontrivial": False}


def note(case, outcomes):
    """What the case turned out to be."""
    LAST["labels"] = sorted({
        f"{case['kind']}.{step['op'].strip()}: {kind}" for step, (kind, _) in zip(case["steps"], outcomes)})
    kinds = [kind for kind, _ in outcomes]
    LAST["nontrivial"] = "value" in kinds and len(kinds) > 1


def short(thing):
    text = repr(thing)
    return text if len(text) < 300 else text[:140] + " .. " + text[-140:]


# ------------------------------------------------------------- at one time

def together(case):
    """Calls on one object, all at once."""
    sync, _ = play(case, False)
    kind = twins.KINDS[case["kind"]]
    with still():
        env = twins.Env(kind, case["setup"], True)
        try:
            async def gathered():
                return await asyncio.gather(*(kind.perform(env, step) for step in case["steps"]))
            found = sched.run(gathered(), case["choices"])
        finally:
            env.close()
    for at, (one, other) in enumerate(zip(sync, found)):
        expect(one == other, lambda: (
            f"call {at + 1}, {case['steps'][at]['op']}, of {case['kind']} gives {short(one)} alone and "
            f"{short(other)} among others"))
    note(case, sync)


def apart(case):
    """Histories of different objects, all at once."""
    alone = [play(one, False) for one in case["histories"]]
    with still():
        envs = []
        try:
            for one in case["histories"]:
                envs.append(twins.Env(twins.KINDS[one["kind"]], one["setup"], True))

            async def history(env, one):
                return [await env.kind.perform(env, step) for step in one["steps"]]

            async def gathered():
                return await asyncio.gather(*map(history, envs, case["histories"]))
            found = sched.run(gathered(), case["choices"])
            effects = [env.effects() for env in envs]
        finally:
            for env in envs:
                env.close()
    labels, nontrivial = set(), False
    for one, (seen, left), other, right in zip(case["histories"], alone, found, effects):
        for at, (a, b) in enumerate(zip(seen, other)):
            expect(a == b, lambda: (
                f"call {at + 1}, {one['steps'][at]['op']}, of {one['kind']} gives {short(a)} alone and {short(b)} "
                "while other objects are used"))
        expect(left == right, lambda: (
            f"{one['kind']} is left as {short(left)} alone and as {short(right)} while other objects are used"))
        note(one, seen)
        labels |= set(LAST["labels"])
        nontrivial |= LAST["nontrivial"]
    LAST["labels"], LAST["nontrivial"] = sorted(labels), nontrivial


def spoiled(tier):
    """Every operation of a database around a file which is gone or damaged, with every setting or none."""
    def step(op, *args, **named):
        return {"op": op, "args": [{"v": arg} for arg in args], "named": {n: {"v": v} for n, v in named.items()}}

    calls = {
        "query_tag": ("silent", "cache"), "pop_tag": ("silent",), "rollback_tag": ("cache",), "save_tag": ("drop_cache",),
        "load_database": ("silent", "manifest", "preload"), "load_tags": ("silent",), "load_metatags": ("silent", "preload"),
        "save_database": (), "clear_cache": ("metatags",), "delete_database": (),
    }
    for before in ([], [step("clear_cache")], [step("set_tag", "a", 7)], [step("clear_cache"), step("set_tag", "b", 7, cache=False)]):
        for harm in ([step("lose", "a")], [step("damage", "a", 50)], [step("lose", "a"), step("lose", "b")], []):
            for name, flags in calls.items():
                for chosen in itertools.product((None, False, True), repeat=len(flags)):
                    named = {flag: value for flag, value in zip(flags, chosen) if value is not None}
                    args = ["a"] if name.endswith("_tag") else []
                    after = [] if name == "delete_database" else [step("query_tag", "a", silent=True), step("query_tag", "b", silent=True)]
                    yield {"kind": "database", "setup": {"key": {"s": [1, 64]}, "fill": [["a", 1], ["b", 2]]},
                           "steps": [*before, *harm, step(name, *args, **named), *after]}


choices = st.lists(st.integers(0, 5), max_size=20)
PURE = [name for name, kind in twins.KINDS.items() if any(op.pure for op in kind.ops.values()) and name not in ("keys", "passphrases", "tasks")]


def part(name, strategy, check, quick):
    return Part(name, strategy, check, quick=quick, nontrivial=lambda case: LAST["nontrivial"],
                labels=lambda case: LAST["labels"])


COUNTS = {"cipher": 200, "encrypting": 200, "decrypting": 300, "kdf": 200, "functions": 700, "clock": 250,
          "permutation": 250, "ids": 200, "keys": 250, "exchange": 150, "files": 150, "database": 200, "salts": 150,
          "passphrases": 30, "tasks": 30}
PARTS = [
    *(part(name, twins.cases(name), evaluate, COUNTS[name]) for name in twins.KINDS),
    Sweep("databases with spoiled files", spoiled, evaluate, nontrivial=lambda case: LAST["nontrivial"], labels=lambda case: LAST["labels"]),
    part("one call many times at once", st.sampled_from([
        (kind, name) for kind in PURE for name, op in twins.KINDS[kind].ops.items() if op.pure]).flatmap(
        lambda pair: twins.repeated(*pair, 6)).flatmap(
        lambda case: choices.map(lambda c: {**case, "choices": c})), together, 600),
    part("calls at once", st.one_of(*(twins.cases(name, only=lambda op: op.pure) for name in PURE)).flatmap(
        lambda case: choices.map(lambda c: {**case, "choices": c})), together, 200),
    part("objects at once", st.fixed_dictionaries({
        "histories": st.lists(st.one_of(*(twins.cases(name, high=twins.KINDS[name].shortest + 3) for name in twins.KINDS if name not in ("passphrases", "tasks"))), min_size=2, max_size=4), "choices": choices,
    }), apart, 150),
]
