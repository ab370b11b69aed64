"""C47: threads which use one object, or several, at a time get what each gets alone."""

import contextlib

from hypothesis import strategies as st

from lib import sched, sut, tsched, twins
from lib import strategies as S
from lib.harness import Part, expect

TECHNIQUE = (
    "property-based exploration of thread schedules: generated calls run in threads which "
    "are preempted between chosen lines of the code under test; each call must give what it "
    "gives alone"
)
RULE = (
    "a case is two or three threads with their calls and preemptions; non-trivial when a call "
    "returns something and a preemption took place. Distinct by the whole case."
)
ASSUMPTIONS = (
    "the clock stands still and the source of randomness is constant, so that results are "
    "comparable; preemptions happen between lines",
)


@contextlib.contextmanager
def still():
    sut.wall.freeze(twins.NOW)
    sut.randomness.fix(7)
    try:
        yield
    finally:
        sut.wall.real()
        sut.randomness.real()


LAST = {"labels": [], "nontrivial": False}


def history(env, steps):
    async def played():
        return [await env.kind.perform(env, step) for step in steps]
    return twins.later(env, played)()


def alone(kind, setup, steps):
    with still():
        env = twins.Env(twins.KINDS[kind], setup, False)
        try:
            return history(env, steps), env.effects()
        finally:
            env.close()


def run(switches, works):
    """What each work gives when its thread is interrupted by the others."""
    threads = tsched.Threads(switches, limit=400000)
    found = [None] * len(works)

    def work(number, function):
        found[number] = function()

    for number, function in enumerate(works):
        threads.spawn(lambda number=number, function=function: work(number, function))
    try:
        threads.run()
    except sched.Stuck as error:
        expect(False, f"the threads do not end: {error}", key="stuck")
    return found, len(switches) - len(threads.switches)


def short(thing):
    text = repr(thing)
    return text if len(text) < 300 else text[:140] + " .. " + text[-140:]


def judge(kind, number, steps, wanted, found):
    for at, (one, other) in enumerate(zip(wanted, found)):
        expect(one == other, lambda: (
            f"call {at + 1} of thread {number + 1}, {steps[at]['op']} of {kind}, gives {short(one)} alone and "
            f"{short(other)} among other threads"))
        LAST["labels"].append(f"{kind}.{steps[at]['op'].strip()}: {one[0]}")


def shared(case):
    """Threads with calls on one object."""
    kind, lists = case["kind"], case["threads"]
    LAST["labels"] = []
    wanted = [alone(kind, case["setup"], steps)[0] for steps in lists]
    with still():
        env = twins.Env(twins.KINDS[kind], case["setup"], False)
        try:
            found, switched = run(case["switches"], [lambda steps=steps: history(env, steps) for steps in lists])
        finally:
            env.close()
    for number, steps in enumerate(lists):
        judge(kind, number, steps, wanted[number], found[number])
    LAST["nontrivial"] = switched > 0 and any(one[0] == "value" for outcomes in wanted for one in outcomes)


def points(work):
    """The points at which a thread reaches a line for the first two times."""
    threads = tsched.Threads(limit=400000)
    threads.trail = []
    threads.spawn(work)
    threads.run()
    seen, chosen = {}, []
    for number, line in enumerate(threads.trail):
        seen[line] = seen.get(line, 0) + 1
        if seen[line] <= 2:
            chosen.append(number)
    return chosen


def everywhere(case):
    """A thread is interrupted once, at each line in turn, by another which runs to its end."""
    kind, lists = case["kind"], [[step] for step in case["steps"]]
    setups = [case["setup"], case["setup"] if case["other"] is None else case["other"]]
    LAST["labels"] = []
    wanted = [alone(kind, setup, steps)[0] for setup, steps in zip(setups, lists)]
    with still():
        envs = [twins.Env(twins.KINDS[kind], case["setup"], False)]
        try:
            envs.append(envs[0] if case["other"] is None else twins.Env(twins.KINDS[kind], case["other"], False))
            works = [lambda env=env, steps=steps: history(env, steps) for env, steps in zip(envs, lists)]
            works[0]()
            where = points(works[0])
            for at in where:
                found, _ = run([(at, 0)], works)
                for number, steps in enumerate(lists):
                    judge(kind, number, steps, wanted[number], found[number])
        finally:
            for env in envs:
                env.close()
    LAST["nontrivial"] = len(where) > 3 and any(one[0] == "value" for outcomes in wanted for one in outcomes)


def separate(case):
    """Threads with objects of their own."""
    LAST["labels"] = []
    wanted = [alone(one["kind"], one["setup"], one["steps"]) for one in case["histories"]]
    with still():
        envs = []
        try:
            for one in case["histories"]:
                envs.append(twins.Env(twins.KINDS[one["kind"]], one["setup"], False))
            found, switched = run(case["switches"], [
                lambda env=env, one=one: history(env, one["steps"]) for env, one in zip(envs, case["histories"])])
            effects = [env.effects() for env in envs]
        finally:
            for env in envs:
                env.close()
    for number, one in enumerate(case["histories"]):
        judge(one["kind"], number, one["steps"], wanted[number][0], found[number])
        expect(wanted[number][1] == effects[number], lambda: (
            f"{one['kind']} is left as {short(wanted[number][1])} alone and as {short(effects[number])} "
            "while other threads use other objects"))
    LAST["nontrivial"] = switched > 0 and any(one[0] == "value" for outcomes, _ in wanted for one in outcomes)


SKIPPED = ("passphrases", "tasks")
#   what gives the same whenever it is called, unless a step is taken
STILL = {"permutation": ("permute", "invert", "uncapped_permute", "uncapped_invert")}
PAIRS = [(name, op) for name, kind in twins.KINDS.items() for op, one in kind.ops.items()
         if name not in SKIPPED and (one.pure or op in STILL.get(name, ()))]
SHARED = list(dict.fromkeys(name for name, _ in PAIRS))
OWN = [name for name in twins.KINDS if name not in SKIPPED]
switches = S.weighted(
    (st.lists(st.tuples(st.integers(0, 40), st.integers(0, 1)), min_size=1, max_size=12), 2),
    (st.lists(st.tuples(st.integers(0, 400), st.integers(0, 1)), min_size=1, max_size=12), 2),
    (st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1)), min_size=5, max_size=60), 1),
)


def among(name):
    """Threads calling the pure operations of one object."""
    ops = [twins.KINDS[name].ops[op] for kind, op in PAIRS if kind == name]
    return twins.cases(name, odds=False, only=lambda op: op in ops, low=2, high=5).flatmap(lambda case: st.builds(
        lambda cut, switches: {"kind": name, "setup": case["setup"], "switches": switches, "threads": [
            case["steps"][:cut], case["steps"][cut:]]},
        st.integers(1, len(case["steps"]) - 1), switches))


def same(name, op):
    return twins.repeated(name, op, 3).flatmap(lambda case: switches.map(lambda switches: {
        "kind": name, "setup": case["setup"], "switches": switches, "threads": [[step] for step in case["steps"]]}))


def twice(name, op):
    """One operation and it or another, on one object or two."""
    kind = twins.KINDS[name]
    step = kind.ops[op].strategy(op, False)
    other = S.weighted((step, 2), (st.sampled_from([n for k, n in PAIRS if k == name]).flatmap(
        lambda n: kind.ops[n].strategy(n, False)), 1))
    return st.fixed_dictionaries({
        "kind": st.just(name), "setup": kind.setup, "other": st.one_of(st.none(), kind.setup),
        "steps": st.tuples(step, other).map(list)})


def part(name, strategy, check, quick):
    return Part(name, strategy, check, quick=quick, nontrivial=lambda case: LAST["nontrivial"],
                labels=lambda case: sorted(set(LAST["labels"])), timeout=90)


EVERYWHERE = {"cipher": 30, "functions": 350, "database": 12, "keys": 30, "clock": 40, "kdf": 30, "ids": 25, "permutation": 40}
for one in SHARED:
    EVERYWHERE.setdefault(one, 10)
PARTS = [
    *(part("every preemption, " + name, st.sampled_from([op for kind, op in PAIRS if kind == name]).flatmap(
        lambda op, name=name: twice(name, op)), everywhere, EVERYWHERE[name]) for name in SHARED),
    part("one call in several threads", st.sampled_from(PAIRS).flatmap(lambda pair: same(*pair)), shared, 900),
    part("one object", st.sampled_from(SHARED).flatmap(among), shared, 500),
    part("objects of their own", st.fixed_dictionaries({
        "histories": st.lists(st.sampled_from(OWN).flatmap(lambda name: twins.cases(
            name, odds=False, high=twins.KINDS[name].shortest + 2)), min_size=2, max_size=3),
        "switches": switches,
    }), separate, 400),
]
