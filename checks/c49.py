"""C49: a cancelled asynchronous call has its whole effect on its object, or none."""

import asyncio
import contextlib

from hypothesis import strategies as st

from lib import sched, sut, twins
from lib import strategies as S
from lib.harness import Part, expect

TECHNIQUE = (
    "property-based exploration of cancellations: generated histories of asynchronous calls, "
    "one of them cancelled at each turn of a deterministic loop; the other calls must give "
    "what they give in the history with that call made, or in the one without it"
)
RULE = (
    "a case is an object, a history of calls on it, and the call cancelled, at each of its turns; "
    "non-trivial when that call had begun and a later one returns something. Distinct by the whole case."
)
ASSUMPTIONS = (
    "the clock stands still and the source of randomness is constant, so that results are comparable",
)
LAST = {"labels": [], "nontrivial": False}


@contextlib.contextmanager
def still():
    sut.wall.freeze(twins.NOW)
    sut.randomness.fix(7)
    try:
        yield
    finally:
        sut.wall.real()
        sut.randomness.real()


def play(case, steps, at=None, turn=None):
    """Outcomes of the calls and what they leave; whether one was cancelled, and so has none."""
    kind = twins.KINDS[case["kind"]]
    with still():
        env = twins.Env(kind, case["setup"], True)
        try:
            async def history():
                seen, cut = [], False
                for number, step in enumerate(steps):
                    task = asyncio.ensure_future(kind.perform(env, step))
                    if number == at:
                        await sched.turns(turn)
                        cut = task.cancel()
                    try:
                        outcome = await task
                    except asyncio.CancelledError:
                        outcome = None
                    if number == at:
                        cut = cut and outcome is None
                    seen.append(outcome)
                return seen, cut
            seen, cut = sched.run(history(), limit=200000)
            return seen, env.effects(), cut
        except sched.Stuck as error:
            expect(False, f"after a cancellation: {error}", key="stuck")
        finally:
            env.close()


def short(thing):
    text = repr(thing)
    return text if len(text) < 300 else text[:140] + " .. " + text[-140:]


def evaluate(case):
    """The call is cancelled at each of its first turns, and at some later ones."""
    at, steps = case["which"], list(case["steps"])
    if case["again"]:
        steps.insert(at + 1, steps[at])
    made, made_effects, _ = play(case, steps)
    without, without_effects, _ = play(case, steps[:at] + steps[at + 1:])
    allowed = [(without, without_effects)]
    if case["kind"] != "exchange":  # its result would be lost
        allowed.append((made[:at] + made[at + 1:], made_effects))
    cuts = 0
    for turn in [*range(1, MOST), *sorted(case["later"])]:
        found, effects, cut = play(case, steps, at, turn)
        if not cut:
            expect((found, effects) == (made, made_effects), lambda: (
                f"{steps[at]['op']} of {case['kind']} had ended before it was cancelled; the calls give {short(found)} and "
                f"leave {short(effects)}, not {short(made)} and {short(made_effects)}"))
            break
        cuts += 1
        others = found[:at] + found[at + 1:]
        expect((others, effects) in allowed, lambda: (
            f"{steps[at]['op']} of {case['kind']} was cancelled at turn {turn}; the other calls then give "
            f"{short(others)} and leave {short(effects)}; without it {short(without)} and {short(without_effects)}; "
            f"with it {short(made)} and {short(made_effects)}"))
    LAST["labels"] = [f"{case['kind']}.{steps[at]['op'].strip()}: " + ("never" if not cuts else "once" if cuts == 1 else "often")]
    LAST["nontrivial"] = cuts > 0 and any(one and one[0] == "value" for one in without[at:])


MOST = 25


def places(steps):
    """The calls to cancel; generated keys are not comparable."""
    return [at for at, step in enumerate(steps) if step["op"] != "generate"] or [0]


def histories(name):
    return twins.cases(name, odds=False, high=twins.KINDS[name].shortest + 4).flatmap(lambda case: st.builds(
        lambda which, again, later: {**case, "which": which, "again": again, "later": later},
        st.sampled_from(places(case["steps"])), st.booleans(), st.lists(st.integers(MOST, 200), max_size=3)))


COUNTS = {"cipher": 60, "kdf": 150, "functions": 200, "clock": 100, "permutation": 100, "ids": 100, "keys": 250, "exchange": 400}
PARTS = [Part(name, histories(name), evaluate, quick, nontrivial=lambda case: LAST["nontrivial"], labels=lambda case: LAST["labels"])
         for name, quick in COUNTS.items()]
