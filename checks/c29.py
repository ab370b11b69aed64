"""C29: clocks count whole units exactly and judge ages exactly."""

from fractions import Fraction

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import Part, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing: generated histories of a stand-in system clock, "
    "placed at and around unit boundaries, are read by several clocks and compared with "
    "exact rational arithmetic"
)
RULE = (
    "a case is a history of times and readings; non-trivial when some reading is within "
    "two nanoseconds of a unit boundary or of a lifetime's end. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a month and a year are no whole number of nanoseconds in floating point: they are "
    "judged to within the precision of a float (one part in 2**50)",
)

DAY = 86_400 * 10**9
UNITS = {
    "nanoseconds": 1, "microseconds": 10**3, "milliseconds": 10**6, "centiseconds": 10**7,
    "deciseconds": 10**8, "seconds": 10**9, "minutes": 60 * 10**9, "hours": 3600 * 10**9,
    "days": DAY, "months": Fraction(36524225, 1200000) * DAY, "years": Fraction(36524225, 100000) * DAY,
}
NAMES = list(UNITS)
PACKAGE_EPOCH = 1672531200_000_000_000

names = st.sampled_from(NAMES)
epochs = st.one_of(
    st.sampled_from([None, 0, PACKAGE_EPOCH, 1, 9000, 10**9, 2**62]),
    st.integers(0, 2**62), st.integers(-(2**60), 0),
)
clocks = st.tuples(names, epochs).map(list)
#   a place in time: n units after the epoch of clock `of`, and some nanoseconds
places = st.fixed_dictionaries({
    "of": st.integers(0, 3),
    "n": st.one_of(st.integers(0, 300), st.integers(0, 2**40), st.sampled_from(
        [2**8 - 1, 2**8, 2**16 - 1, 2**16, 2**24, 2**31, 2**32 - 1, 2**32, 2**48, 2**53 + 1])),
    "ns": st.one_of(st.integers(-2, 2), st.integers(-10**12, 10**12)),
})
orders = st.sampled_from(["big", "little"])
steps = st.one_of(
    st.fixed_dictionaries({"op": st.just("go"), "to": places}),
    st.fixed_dictionaries({"op": st.just("on"), "by": st.one_of(
        st.integers(0, 3), st.integers(0, 10**18), st.sampled_from(
            [int(u) + d for u in UNITS.values() for d in (-1, 0, 1) if int(u) + d > 0]))}),
    st.fixed_dictionaries({"op": st.just("read"), "of": st.integers(0, 3), "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("stamp"), "of": st.integers(0, 3), "is_async": st.booleans(),
                           "size": st.one_of(st.none(), st.integers(0, 16)), "order": orders}),
    st.fixed_dictionaries({"op": st.just("age"), "of": st.integers(0, 3), "is_async": st.booleans(),
                           "stamp": st.integers(0, 9), "order": orders,
                           # relative to the actual age, or absolute, or none
                           "ttl": st.one_of(st.integers(-2, 2).map(lambda d: ["age", d]),
                                            st.integers(-5, 2**40).map(lambda n: ["is", n]),
                                            st.integers(-1, 1).map(lambda n: ["is", n]),
                                            st.just(["none", 0]))}),
    st.fixed_dictionaries({"op": st.just("raw"), "of": st.integers(0, 3), "is_async": st.booleans(),
                           "bytes": S.blobs(0, 20), "order": orders}),
)
histories = st.fixed_dictionaries({
    "clocks": st.lists(clocks, min_size=1, max_size=4),
    "start": places,
    "steps": st.lists(steps, min_size=4, max_size=25),
})


class World:
    def __init__(self, case):
        self.shapes = [(name, PACKAGE_EPOCH if epoch is None else epoch) for name, epoch in case["clocks"]]
        self.clocks = [aiootp.asynchs.Clock(name) if epoch is None else aiootp.asynchs.Clock(name, epoch=epoch)
                       for name, epoch in case["clocks"]]
        self.stamps = []
        self.last = {}
        self.close = 0
        self.now = None
        self.go(self.place(case["start"]))

    def place(self, place):
        name, epoch = self.shapes[place["of"] % len(self.shapes)]
        return epoch + int(place["n"] * UNITS[name]) + place["ns"]

    def go(self, now):
        if self.now is None or now < self.now:
            self.last.clear()
        self.now = now
        sut.wall.freeze(now)

    def units(self, number):
        """The readings a clock may give now."""
        name, epoch = self.shapes[number]
        passed, unit = self.now - epoch, UNITS[name]
        if min(passed % unit, unit - passed % unit) <= 2:
            self.close += 1
        exact = passed // unit
        if name not in ("months", "years"):
            return {exact}
        slack = Fraction(abs(passed) + abs(epoch), 2**50)
        return set(range((passed - slack) // unit, (passed + slack) // unit + 1))

    def tell(self, number):
        name, epoch = self.shapes[number]
        return f"the clock of {name} with epoch {epoch} at {self.now} ns"


def call(clock, method, is_async, *args, **kw):
    if is_async:
        return sut.run(getattr(clock, "a" + method)(*args, **kw))
    return getattr(clock, method)(*args, **kw)


def play(world, step):
    op = step["op"]
    if op == "go":
        return world.go(world.place(step["to"]))
    if op == "on":
        return world.go(world.now + step["by"])
    number = step["of"] % len(world.clocks)
    clock, wanted = world.clocks[number], world.units(number)
    is_async = step["is_async"]
    if op == "read":
        got = call(clock, "time", is_async)
        expect(type(got) is int and got in wanted,
               lambda: f"{world.tell(number)} reads {got!r}, expected {max(wanted)}")
        expect(got >= world.last.get(number, got), lambda: (
            f"{world.tell(number)} reads {got} after {world.last[number]}, and time did not go back"))
        world.last[number] = got
    elif op == "stamp":
        size = {} if step["size"] is None else {"size": step["size"]}
        length = 4 if step["size"] is None else step["size"]
        fits = {0 <= w < 256**length for w in wanted} if step["size"] is not None else None
        try:
            stamp = call(clock, "make_timestamp", is_async, byte_order=step["order"], **size)
        except OverflowError:
            expect(fits != {True}, lambda: (
                f"{world.tell(number)}: {max(wanted)} is refused a timestamp of {step['size']} bytes"))
            return
        expect(fits != {False}, lambda: f"{world.tell(number)}: {max(wanted)} in {step['size']} bytes: {stamp.hex()}")
        expect(type(stamp) is bytes and (step["size"] is None or len(stamp) == length),
               lambda: f"a timestamp of {step['size']} bytes is {stamp!r}")
        expect(int.from_bytes(stamp, step["order"]) in wanted, lambda: (
            f"{world.tell(number)}: the {step['order']} endian timestamp {stamp.hex()} is not {max(wanted)}"))
        back = call(clock, "read_timestamp", not is_async, stamp, byte_order=step["order"])
        expect(back in wanted, lambda: f"the timestamp of {max(wanted)} reads back as {back}")
        world.stamps.append([stamp, step["order"]])
    else:
        if op == "raw":
            stamp, order, ttl = blob(step["bytes"]), step["order"], ["age", 0]
        elif world.stamps:
            (stamp, _), order, ttl = world.stamps[step["stamp"] % len(world.stamps)], step["order"], step["ttl"]
        else:
            return
        judge_age(world, number, stamp, order, ttl, is_async)


def judge_age(world, number, stamp, order, ttl, is_async):
    clock, made = world.clocks[number], int.from_bytes(stamp, order)
    ages = {w - made for w in world.units(number)}
    keyword = {} if order == "big" else {"byte_order": order}
    got = call(clock, "delta", is_async, stamp, **keyword)
    expect(type(got) is int and got in ages,
           lambda: f"{world.tell(number)}: the age of {stamp.hex()} is {got!r}, expected {max(ages)}")
    how, n = ttl
    limit = None if how == "none" else n if how == "is" else got + n
    expired = limit is not None and got > limit
    if limit is not None and abs(got - limit) <= 2:
        world.close += 1
    Expired = aiootp.asynchs.Clock.TimestampExpired
    try:
        answer = call(clock, "test_timestamp", is_async, stamp, limit, **keyword)
    except Expired as error:
        expect(expired, lambda: f"{world.tell(number)}: age {got} is expired with a lifetime of {limit}")
        expect(error.expired_by == got - limit, lambda: (
            f"age {got} with lifetime {limit} is reported expired by {error.expired_by}"))
        name = world.shapes[number][0]
        expect(error.units == name, lambda: f"an expiry on a clock of {name} is reported in {error.units}")
    else:
        expect(not expired, lambda: f"{world.tell(number)}: age {got} is accepted with a lifetime of {limit}")
        expect(answer is None, lambda: f"a test returns {answer!r}")


def evaluate(case):
    world = World(case)
    try:
        for step in case["steps"]:
            play(world, step)
        # every clock still tells the time, in both forms
        for number in range(len(world.clocks)):
            for is_async in (False, True):
                play(world, {"op": "read", "of": number, "is_async": is_async})
    finally:
        sut.wall.real()
    return world


def nontrivial(case):
    placed = [case["start"], *(s["to"] for s in case["steps"] if s["op"] == "go")]
    return any(abs(p["ns"]) <= 2 for p in placed) or any(
        s["op"] == "age" and s["ttl"][0] == "age" for s in case["steps"])


def labels(case):
    for name, epoch in case["clocks"]:
        yield name
        yield "epoch " + ("default" if epoch is None else "zero" if epoch == 0 else
                          "before 1970" if epoch < 0 else "other")
    for step in case["steps"]:
        yield step["op"]
        if step.get("order") == "little":
            yield "little endian"


# ------------------------------------------------- a clock that is running

running = st.fixed_dictionaries({
    "clock": clocks, "n": st.integers(0, 2**33), "ns": st.integers(-20, 20),
    "step": st.one_of(st.integers(0, 5), st.sampled_from([10**3 - 1, 10**6, 10**9 - 1, 10**9 + 1, DAY])),
    "is_async": st.lists(st.booleans(), min_size=2, max_size=30),
})


def evaluate_running(case):
    """The system clock moves on with each reading of it."""
    name, epoch = case["clock"]
    clock = aiootp.asynchs.Clock(name, **({} if epoch is None else {"epoch": epoch}))
    epoch = PACKAGE_EPOCH if epoch is None else epoch
    unit = UNITS[name]
    start = epoch + int(case["n"] * unit) + case["ns"]
    sut.wall.freeze(start, case["step"])
    try:
        last = None
        for is_async in case["is_async"]:
            before = sut.wall.time_ns()
            got = call(clock, "time", is_async)
            after = sut.wall.time_ns()
            slack = 0 if name not in ("months", "years") else Fraction(abs(after) + 2 * abs(epoch), 2**50)
            low, high = (before - epoch - slack) // unit, (after - epoch + slack) // unit
            expect(low <= got <= high, lambda: (
                f"a clock of {name} with epoch {epoch} read between {before} and {after} ns says {got}"))
            expect(last is None or got >= last, lambda: f"a clock of {name} went from {last} to {got}")
            last = got
    finally:
        sut.wall.real()


def names_cases():
    return st.fixed_dictionaries({"name": st.one_of(
        st.sampled_from(NAMES), st.sampled_from(["", "second", "Seconds", "SECONDS", "seconds ", "weeks", "_times"]),
        st.text(max_size=12))})


def evaluate_names(case):
    name = case["name"]
    try:
        clock = aiootp.asynchs.Clock(name)
    except Exception:
        expect(name not in UNITS, lambda: f"the unit {name} is refused")
        return
    expect(name in UNITS, lambda: f"the unit {name!r} is accepted")
    expect(getattr(aiootp.asynchs.Clock, name.upper()) == name, f"the constant {name.upper()} is not {name!r}")
    # fine enough exactly when the system clock tells one unit from the next
    import time
    wanted = UNITS[name] >= round(time.get_clock_info("time").resolution * 10**9)
    expect(clock.has_adequate_resolution() is wanted, f"a clock of {name} misjudges its resolution")


PARTS = [
    Part("histories", histories, evaluate, 1500, 30000, nontrivial=nontrivial, labels=labels),
    Part("running", running, evaluate_running, 500, 10000, labels=lambda c: [c["clock"][0]]),
    Part("names", names_cases(), evaluate_names, 120, 1500, nontrivial=lambda c: c["name"] in UNITS),
]
