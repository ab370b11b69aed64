"""C26: an exclusive guard admits one holder at a time, in arrival order, always."""

from hypothesis import strategies as st

from lib import guards
from lib.harness import Part, Sweep, expect
from lib.sut import aiootp

TECHNIQUE = (
    "property-based exploration of schedules: generated mixes of threads and tasks use "
    "one guard under a scheduler whose preemptions (between lines of the code "
    "under test), delays, errors, cancellations and interruptions come from the case; a "
    "record of arrivals and holders is the oracle"
)
RULE = (
    "a case is a set of actors with a schedule; non-trivial when at least two contexts "
    "compete. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a user has arrived for certain once it was seen waiting (a sleeping thread, or a "
    "task 12 turns of its loop after it asked); only then its place in the order is judged",
)

ConcurrencyGuard = aiootp.asynchs.guards.ConcurrencyGuard


ENDS = ["normal"] * 2 * len(guards.ERRORS) + sorted(guards.ERRORS)


def use(**fields):
    return st.fixed_dictionaries({
        "wait": st.integers(0, 6), "hold": st.integers(0, 6),
        "end": st.sampled_from(ENDS), **fields,
    })


def actors(interrupts=True, **fields):
    thread = st.fixed_dictionaries({"uses": st.lists(
        use(interrupt=st.sampled_from([None, None, None, 0, 1, 4]) if interrupts else st.none(), **fields),
        min_size=1, max_size=3)})
    task = st.fixed_dictionaries({
        "uses": st.lists(use(interrupt=st.none(), **fields), min_size=1, max_size=3),
        "cancel": st.one_of(st.none(), st.none(), st.integers(0, 40)) if interrupts else st.none(),
    })
    loop = st.fixed_dictionaries({"tasks": st.lists(task, min_size=1, max_size=4)})
    return thread, loop


def cases(least=2, **fields):
    thread, loop = actors(**fields)
    return st.fixed_dictionaries({
        "actors": st.one_of(
            st.lists(thread, min_size=2, max_size=4),
            st.lists(loop, min_size=1, max_size=1),
            st.lists(st.one_of(thread, loop), min_size=2, max_size=3),
        ),
        "switches": st.lists(st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 80)),
                                       st.integers(0, 2)).map(list), max_size=8),
    })


def evaluate(case):
    deques = ConcurrencyGuard.DequePair()

    def leftovers():
        return [name for name in ("queue", "observers") if len(getattr(deques, name))]

    guards.World(case, lambda user: ConcurrencyGuard(deques), leftovers).run()
    # and the next one still gets in
    alone = {"actors": [{"uses": [{"wait": 0, "hold": 0, "end": "normal", "interrupt": None}]}],
             "switches": []}
    guards.World(alone, lambda user: ConcurrencyGuard(deques), leftovers).run()


def endings(tier):
    """Every way of ending a context, in a thread and in a task, with another waiting."""
    for first in sorted(guards.ERRORS):
        for kinds in ("threads", "tasks", "both"):
            uses = [{"wait": n, "hold": 2, "end": end, "interrupt": None}
                    for n, end in enumerate((first, "normal", first))]
            tasks = [{"uses": [use], "cancel": None} for use in uses]
            actors = {"threads": [{"uses": [use]} for use in uses], "tasks": [{"tasks": tasks}],
                      "both": [{"uses": [uses[0]]}, {"tasks": tasks[1:]}]}[kinds]
            yield {"actors": actors, "switches": []}


def preemptions(tier):
    """Every point of the first use, and what may run in between."""
    for count in (2, 3):
        for hold in (0, 1):
            actors = [{"uses": [{"wait": 0, "hold": hold if n else 0, "end": "normal", "interrupt": None}]}
                      for n in range(count)]
            for first in range(70):
                yield {"actors": actors, "switches": [[first, 0]]}
                for second in range(first % 5, 70, 5 if tier == "thorough" else 23):
                    yield {"actors": actors, "switches": [[first, 0], [second, first % 2]]}


def crowds(tier):
    """Many users who have to wait for each other."""
    for count in (6, 10, 18, 34, 66) + ((130, 260) if tier == "thorough" else ()):
        for kinds in ("threads", "tasks", "both"):
            if kinds == "tasks" or count < 40:
                for apart, hold in ((0, 1), (14, 20)) if kinds != "threads" else ((0, 1), (1, 3)):
                    yield crowd(kinds, apart, [{"hold": hold} for _ in range(count)])


def crowd(kinds, apart, each):
    uses = [{"wait": n * apart, "end": "normal", "interrupt": None, **fields} for n, fields in enumerate(each)]
    tasks = [{"uses": [use], "cancel": None} for use in uses]
    threads = [{"uses": [use]} for use in uses]
    half = len(uses) // 2
    return {"actors": {"threads": threads, "tasks": [{"tasks": tasks}], "both": [{"tasks": tasks[:half]}, *threads[half:]]}[kinds],
            "switches": []}


# ------------------------------------------------- guards queued by hand


manual = st.fixed_dictionaries({
    "order": st.permutations(range(4)).map(list),
    "tasks": st.lists(st.fixed_dictionaries({"wait": st.integers(0, 20), "hold": st.integers(0, 4),
                                             "thread": st.booleans()}), min_size=4, max_size=4),
    "switches": st.lists(st.tuples(st.integers(0, 40), st.integers(0, 2)).map(list), max_size=5),
})


def evaluate_manual(case):
    """Whoever comes first, guards queued beforehand are let in as queued."""
    deques = ConcurrencyGuard.DequePair()
    made = [ConcurrencyGuard(deques, policy=ConcurrencyGuard.policies.QueueManually()) for _ in range(4)]
    for number in case["order"]:
        deques.queue.append(made[number])
    uses = [{"wait": t["wait"], "hold": t["hold"], "end": "normal", "interrupt": None, "number": n}
            for n, t in enumerate(case["tasks"])]
    tasks = [{"uses": [u], "cancel": None} for u, t in zip(uses, case["tasks"]) if not t["thread"]]
    threads = [{"uses": [u]} for u, t in zip(uses, case["tasks"]) if t["thread"]]
    world = guards.World(
        {"actors": threads + ([{"tasks": tasks}] if tasks else []), "switches": case["switches"]},
        lambda user: made[user.use["number"]], lambda: [n for n in ("queue", "observers") if len(getattr(deques, n))])
    world.judge_order = False
    world.run()
    entered = [user.use["number"] for user in world.entered]
    expect(entered == case["order"], lambda: (
        f"guards queued as {case['order']} are let in as {entered}"))


def contexts(case):
    return sum(len(a["uses"]) if "uses" in a else sum(len(t["uses"]) for t in a["tasks"])
               for a in case["actors"])


def nontrivial(case):
    return contexts(case) > 1 and (len(case["actors"]) > 1 or len(case["actors"][0].get("tasks", "")) > 1)


def labels(case):
    kinds = {"loop" if "tasks" in a else "threads" for a in case["actors"]}
    yield " and ".join(sorted(kinds))
    for actor in case["actors"]:
        for one in actor.get("tasks", [actor]):
            if one.get("cancel") is not None:
                yield "cancelled"
            for u in one["uses"]:
                if u["interrupt"] is not None:
                    yield "interrupted"
                if u["end"] != "normal":
                    yield f"{u['end']} inside"
    if case["switches"]:
        yield "preempted"


PARTS = [
    Part("exclusive", cases(), evaluate, 900, 20000, nontrivial=nontrivial, labels=labels),
    Sweep("preemptions", preemptions, evaluate, nontrivial=nontrivial),
    Sweep("endings", endings, evaluate, labels=labels),
    Sweep("crowds", crowds, evaluate, labels=lambda case: [f"{contexts(case)} users"]),
    Part("queued by hand", manual, evaluate_manual, 150, 3000),
]
