"""C27: shared and exclusive guards of a target follow readers-writers order."""

from fractions import Fraction
from pathlib import Path
from typing import NamedTuple

from hypothesis import strategies as st

from checks import c26
from lib import guards
from lib.harness import Part, Sweep, expect
from lib.sut import aiootp

TECHNIQUE = (
    "property-based exploration of schedules: generated mixes of threads and tasks use "
    "shared and exclusive guards of several targets under a scheduler whose preemptions "
    "(between lines of the code under test), delays, errors, cancellations and "
    "interruptions come from the case; a record of arrivals and holders is the oracle"
)
RULE = (
    "a case is a set of actors with a schedule; non-trivial when at least two contexts "
    "of one target compete and one of them is exclusive. Distinct by the whole case."
)
ASSUMPTIONS = c26.ASSUMPTIONS

Manager = aiootp.asynchs.guards.MultiConcurrencyGaurd
#  equal but not identical, unhashable-looking but hashable, and alike but not equal targets
TARGETS = [
    lambda: tuple(["a", 1]), lambda: "".join(["a"]), lambda: 0, lambda: frozenset([1]), lambda: "0", lambda: None, lambda: "None",
    lambda: "", lambda: (), lambda: b"a", lambda: bytes([97, 0]), lambda: "A", lambda: "a ", lambda: "a\x00", lambda: ("a", "1"),
    lambda: "('a', 1)", lambda: ("a",), lambda: ("a", 1, None), lambda: (("a", 1),), lambda: -1, lambda: -2, lambda: 1, lambda: 1.5,
    lambda: 2**61 - 1, lambda: 2**61, lambda: Path("a"), lambda: Path("A"), lambda: int, lambda: "\u00e9", lambda: "e\u0301",
    lambda: "a" * 300, lambda: "a" * 301, lambda: 10**30, lambda: 10**30 + 1,
]
#  other forms of a target, which are equal to it
FORMS = [[lambda: 1, lambda: 1.0, lambda: True, lambda: Fraction(1)], [lambda: 0, lambda: 0.0, lambda: False, lambda: -0.0],
         [lambda: ("a", 1), lambda: ("a", 1.0), lambda: Name("a", 1)], [lambda: frozenset([1, 9]), lambda: frozenset([9, 1.0])],
         [lambda: Path("a/b"), lambda: Path("a") / "b", lambda: Path("a//b/")], [lambda: "a b", lambda: " ".join("ab"), lambda: Word("a b")],
         [lambda: Same(1), lambda: Same(2)]]


class Name(NamedTuple):
    first: str
    second: int


class Word(str):
    """Text which says otherwise when it is shown."""

    __slots__ = ()

    def __repr__(self):
        return "another"

    __str__ = __repr__


class Same:
    """Equal to all of its kind."""

    def __init__(self, number):
        self.number = number

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 5

    def __repr__(self):
        return f"Same({self.number})"


def target(number):
    if isinstance(number, list):
        return FORMS[number[0]][number[1]]()
    return TARGETS[number]()


def make(manager):
    def guard(user):
        kind = manager.guard if user.exclusive else manager.monitor
        return kind(target(user.use.get("form", user.target)))
    return guard


def locks(manager):
    """The manager's own locks: nobody is preempted while it holds one."""
    found = [getattr(manager, name, None) for name in type(manager).__slots__]
    return [lock for lock in found if hasattr(lock, "locked")]


def world(case, manager):
    held = locks(manager)
    return guards.World(case, make(manager), lambda: [f"state about {t!r}" for t in manager.targets],
                        lambda: held)


fields = {"mode": st.sampled_from(["guard", "monitor", "monitor"]),
          "target": st.sampled_from([0, 0, 0, 1])}
histories = c26.cases(**fields)
#  threads that come and go around the moment a target becomes unused
arrivals = st.fixed_dictionaries({
    "actors": st.lists(st.fixed_dictionaries({"uses": st.lists(
        c26.use(interrupt=st.none(), mode=st.sampled_from(["guard", "guard", "monitor"]),
                target=st.just(0)).map(lambda u: {**u, "wait": u["wait"] % 2, "hold": u["hold"] % 2}),
        min_size=1, max_size=2)}), min_size=2, max_size=3),
    "switches": st.lists(st.tuples(st.one_of(st.integers(0, 30), st.integers(0, 110)),
                                   st.integers(0, 1)).map(list), min_size=1, max_size=4),
})


def evaluate(case):
    manager = Manager()
    world(case, manager).run()


def preemptions(tier):
    """Every point of the first use, and what may run in between."""
    for modes in ("GG", "GM", "MG", "GGG", "MGG", "GMG", "MGM"):
        uses = [{"wait": 0, "hold": 0, "end": "normal", "interrupt": None, "target": 0,
                 "mode": "guard" if m == "G" else "monitor"} for m in modes]
        for hold in (0, 1):
            actors = [{"uses": [{**use, "hold": hold if n else 0}]} for n, use in enumerate(uses)]
            for first in range(112):
                yield {"actors": actors, "switches": [[first, 0]]}
                if len(modes) == 3 or tier == "thorough":
                    for second in range(first % 7, 112, 7 if tier == "thorough" else 37):
                        yield {"actors": actors, "switches": [[first, 0], [second, first % 2]]}


def endings(tier):
    """Every way of ending a context of either kind, with users of both kinds after it."""
    for case in c26.endings(tier):
        for modes in ("GMG", "MGM"):
            left = iter(modes)
            yield {**case, "actors": [
                {"uses": [named(use, next(left)) for use in actor["uses"]]} if "uses" in actor else
                {"tasks": [{**task, "uses": [named(use, next(left)) for use in task["uses"]]}
                           for task in actor["tasks"]]}
                for actor in case["actors"]]}


def crowds(tier):
    """Many users of both kinds who have to wait for each other."""
    for count in (6, 10, 18, 34, 66) + ((130, 260) if tier == "thorough" else ()):
        for kinds in ("threads", "tasks", "both"):
            if kinds == "tasks" or count < 30:
                for apart, hold in ((0, 40), (3, 40), (14, 60)) if kinds != "threads" else ((0, 2), (1, 4)):
                    each = [{"hold": hold, "mode": "monitor", "target": 0} for _ in range(count)]
                    everyone = {*range(count)}
                    for writers in ({count - 1}, {count // 2}, {0, count - 2}, {*range(3, count, 4)},
                                    everyone - {0}, everyone - {count - 2}, everyone - {*range(3, count, 4)}):
                        yield c26.crowd(kinds, apart, [{**use, "mode": "guard"} if n in writers else use for n, use in enumerate(each)])


def forms(tier):
    """Equal targets in different forms are one target."""
    for row, found in enumerate(FORMS):
        for one in range(len(found)):
            for other in range(len(found)):
                for kinds in ("threads", "tasks", "both"):
                    for modes in (("guard", "guard"), ("monitor", "guard"), ("guard", "monitor")):
                        yield c26.crowd(kinds, 2, [{"hold": 12, "mode": mode, "target": 0, "form": [row, form]}
                                                   for mode, form in zip(modes, (one, other))])


def apart(tier):
    """Targets which are not equal, whatever they look like, don't keep anyone waiting."""
    for one in range(len(TARGETS)):
        for other in range(len(TARGETS)):
            if one != other:
                yield {"first": {"target": one, "mode": "guard", "thread": one > other}, "others": [
                    {"target": other, "mode": "guard", "thread": other % 2 == 0, "wait": 5, "hold": 1}], "switches": []}


def named(use, mode):
    return {**use, "target": 0, "mode": "guard" if mode == "G" else "monitor"}


# ------------------------------------- nobody waits who does not have to


free = st.fixed_dictionaries({
    #  whoever is in first stays until all the others have been in
    "first": st.fixed_dictionaries({"target": st.integers(0, 3), "mode": st.sampled_from(["guard", "monitor"]),
                                    "thread": st.booleans()}),
    "others": st.lists(st.fixed_dictionaries({
        "target": st.integers(0, 3), "mode": st.sampled_from(["guard", "monitor"]),
        "thread": st.booleans(), "wait": st.integers(0, 9), "hold": st.integers(0, 4)}), min_size=1, max_size=4),
    "switches": st.lists(st.tuples(st.integers(0, 60), st.integers(0, 2)).map(list), max_size=4),
})


def evaluate_free(case):
    """An open-ended holder keeps out only whom it must."""
    manager = Manager()
    first = case["first"]
    others = [o for o in case["others"]
              if o["target"] != first["target"] or o["mode"] == first["mode"] == "monitor"]
    one = {"wait": 0, "hold": 0, "end": "normal", "interrupt": None, **first}
    uses = [{"end": "normal", "interrupt": None, **o} for o in others]
    actors = [{"uses": [one]} if first["thread"] else {"tasks": [{"uses": [one], "cancel": None}]}]
    tasks = [{"uses": [u], "cancel": None} for u in uses if not u["thread"]]
    actors += [{"uses": [u]} for u in uses if u["thread"]] + ([{"tasks": tasks}] if tasks else [])
    run = world({"actors": actors, "switches": case["switches"]}, manager)
    # the first user holds until the others have been in and out
    one["until"] = lambda: sum(u.state == "left" for u in run.users) >= len(uses)
    run.run()
    expect(len(run.entered) == len(uses) + 1, "somebody was not let in")


def competing(case):
    seen = []
    for actor in case["actors"]:
        for one in actor.get("tasks", [actor]):
            seen.append([(u["target"], u["mode"]) for u in one["uses"]])
    return any(a[0] == b[0] and "guard" in (a[1], b[1])
               for i, left in enumerate(seen) for right in seen[:i] for a in left for b in right)


def labels(case):
    yield from c26.labels(case)
    modes = {u["mode"] for a in case["actors"] for o in a.get("tasks", [a]) for u in o["uses"]}
    yield " and ".join(sorted(modes))


def free_labels(case):
    for o in case["others"]:
        yield "another target" if o["target"] != case["first"]["target"] else "shared"


PARTS = [
    Part("histories", histories, evaluate, 700, 16000, nontrivial=competing, labels=labels),
    Part("arrivals", arrivals, evaluate, 450, 10000, nontrivial=competing, labels=labels),
    Sweep("preemptions", preemptions, evaluate, nontrivial=competing),
    Sweep("endings", endings, evaluate, nontrivial=competing, labels=labels),
    Sweep("crowds", crowds, evaluate, nontrivial=competing, labels=lambda case: [f"{c26.contexts(case)} users"]),
    Sweep("forms of a target", forms, evaluate, nontrivial=competing),
    Sweep("targets alike", apart, evaluate_free, labels=free_labels),
    Part("free", free, evaluate_free, 200, 4000, labels=free_labels),
]
