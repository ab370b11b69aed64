"""C36: iteration helpers lose, duplicate and reorder nothing."""

import io
import itertools
from collections import deque

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing of every helper over generated sources that count what is "
    "taken from them and may fail part way, compared element by element, and by how much "
    "was consumed, with the built-in or itertools definition; sync, async and mixed"
)
RULE = (
    "a case is a helper with generated sources, sizes and a number of elements to take; "
    "non-trivial when at least two elements are yielded or an invalid size is refused. "
    "Distinct by the whole case."
)
ASSUMPTIONS = ("endless helpers are read for a generated number of elements, at most 60",)
tools = aiootp._gentools


class Broken(Exception):
    """Raised by a source that fails part way."""


FAILURES = {"Broken": Broken, "RuntimeError": RuntimeError, "IndexError": IndexError, "KeyError": KeyError,
            "ValueError": ValueError, "TypeError": TypeError, "AttributeError": AttributeError}
#   elements of every kind that may be taken for "nothing"
elements = st.one_of(st.integers(0, 5), st.sampled_from([None, "", False, True, [], 0.0, "StopIteration"]))


class Source:
    """Counts how many elements were taken; fails at `broken`."""

    def __init__(self, node):
        self.items = node["items"]
        self.broken = node["broken"]
        self.failure = FAILURES[node.get("failure", "Broken")]
        self.taken = 0

    def step(self, stop):
        if self.broken is not None and self.taken == self.broken:
            raise self.failure
        if self.taken >= len(self.items):
            raise stop
        self.taken += 1
        return self.items[self.taken - 1]


class Sync(Source):
    def __iter__(self):
        return self

    def __next__(self):
        return self.step(StopIteration)


class Async(Source):
    def __aiter__(self):
        return self

    async def __anext__(self):
        return self.step(StopAsyncIteration)


def generator(source):
    yield from source


async def agenerator(source):
    async for item in source:
        yield item


def build(node, allow_async):
    kind = node["kind"]
    if kind == "list":
        source = Sync({"items": node["items"], "broken": None})
        return source, list(node["items"])
    if kind in ("async", "async generator") and allow_async:
        source = Async(node)
        return source, source if kind == "async" else agenerator(source)
    source = Sync(node)
    return source, generator(source) if "generator" in kind else source


sources = st.fixed_dictionaries({
    "kind": st.sampled_from(["iterator", "generator", "async", "async generator", "list"]),
    "items": st.lists(elements, max_size=7), "failure": st.sampled_from(sorted(FAILURES)),
    "broken": st.one_of(st.none(), st.none(), st.integers(0, 7)),
})


def take(iterable, n):
    """The first n elements, and how it ended."""
    out = []
    try:
        for _ in range(n):
            out.append(next(iterable))
    except StopIteration:
        return out, "end"
    except Exception as error:
        return out, type(error).__name__
    return out, "more"


async def atake(iterable, n):
    out = []
    try:
        for _ in range(n):
            out.append(await iterable.__anext__())
    except StopAsyncIteration:
        return out, "end"
    except Exception as error:
        return out, type(error).__name__
    finally:
        await iterable.aclose()
    return out, "more"


# ------------------------------------------------------- sources in, elements out

SYNC = {"unpack": lambda *s: tools.unpack(*s), "cycle": lambda *s: tools.cycle(*s),
        "collate": lambda *s: tools.collate(*s)}
ASYNC = {"unpack": lambda *s: tools.aunpack(*s), "cycle": lambda *s: tools.acycle(*s),
         "collate": lambda *s: tools.acollate(*s), "zip": lambda *s: tools.azip(*s)}
MODEL = {"unpack": lambda s: iter(s), "cycle": lambda s: itertools.cycle(s),
         "collate": lambda *s: itertools.chain(*s), "zip": lambda *s: zip(*s)}
flows = st.fixed_dictionaries({
    "helper": st.sampled_from(["unpack", "cycle", "collate", "zip", "zip"]), "is_async": st.booleans(),
    "sources": st.lists(sources, max_size=4), "n": st.integers(0, 30),
})


def evaluate_flows(case):
    helper = case["helper"]
    is_async = case["is_async"] or helper == "zip"
    nodes = case["sources"]
    if helper in ("unpack", "cycle"):
        nodes = nodes[:1] or [{"kind": "list", "items": [], "broken": None}]
    models = [Sync({**node, "broken": None if node["kind"] == "list" else node["broken"]}) for node in nodes]
    wanted, ending = take(iter(MODEL[helper](*models)), case["n"])
    built = [build(node, is_async) for node in nodes]
    given = [b for _, b in built]
    if is_async:
        got, end = sut.run(atake(ASYNC[helper](*given), case["n"]))
    else:
        got, end = take(iter(SYNC[helper](*given)), case["n"])
    if helper == "zip":
        got, wanted = [tuple(g) for g in got], [tuple(w) for w in wanted]
    expect(repr(got) == repr(wanted), lambda: f"{helper} yields {got}, expected {wanted}")
    expect(end == ending, lambda: f"{helper} ends with {end} after {len(got)} elements, expected {ending}")
    for number, ((source, _), model) in enumerate(zip(built, models)):
        if nodes[number]["kind"] != "list":
            expect(source.taken <= model.taken, lambda: (
                f"{helper} takes {source.taken} elements from source {number}, needed are {model.taken}"))


# --------------------------------------------------------------- cutting sequences

cuts = st.fixed_dictionaries({
    "helper": st.sampled_from(["batch", "resize"]), "is_async": st.booleans(),
    "data": st.one_of(S.blobs(0, 40), S.sized_blobs(st.integers(0, 400))),
    "size": st.one_of(st.integers(1, 12), st.integers(-2, 60), st.integers(1, 500)),
    "blocks": st.one_of(st.none(), st.integers(-1, 6), st.integers(1, 60)),
    "as": st.sampled_from(["bytes", "text", "list", "tuple", "range", "bytearray"]),
})


def evaluate_cuts(case):
    data, size, blocks = blob(case["data"]), case["size"], case["blocks"]
    valid = size >= 1
    if case["helper"] == "batch":
        kw = {"size": size}
        if case["as"] == "text":
            data, kw["buffer_type"] = data.decode("latin-1").replace("\r", "x"), io.StringIO
        args = ()
        blocks = None
    else:
        kind = {"bytes": bytes, "text": lambda d: d.decode("latin-1"), "list": list, "tuple": tuple,
                "range": lambda d: range(len(d)), "bytearray": bytearray}[case["as"]]
        data, args, kw = kind(data), (size,), {} if blocks is None else {"blocks": blocks}
        valid = valid and (blocks is None or blocks >= 1)
    try:
        if case["is_async"]:
            got = sut.run(sut.aconsume(getattr(tools, "a" + case["helper"])(data, *args, **kw)))
        else:
            got = list(getattr(tools, case["helper"])(data, *args, **kw))
    except (ValueError, TypeError) as error:
        expect(not valid, lambda: f"{case['helper']} with size {size}, blocks {blocks} is refused: {error!r}")
        return
    expect(valid, lambda: f"{case['helper']} with size {size}, blocks {blocks} yields {got}")
    wanted = [data[at:at + size] for at in range(0, len(data), size)][:blocks]
    expect(got == wanted, lambda: f"{case['helper']} of {len(data)} by {size} (blocks {blocks}): {got}")


# ------------------------------------------------------------------------ counting

counts = st.fixed_dictionaries({
    "helper": st.sampled_from(["count", "bytes_count"]), "is_async": st.booleans(), "n": st.integers(0, 40),
    "start": st.one_of(st.none(), st.integers(-3, 300), st.sampled_from([250, 255, 65530, 65535, 2**64 - 3, 2**64])),
    "size": st.one_of(st.none(), st.integers(0, 10)), "order": st.sampled_from([None, "big", "little"]),
})


def evaluate_counts(case):
    kw = {} if case["start"] is None else {"start": case["start"]}
    start, size = case["start"] or 0, 8 if case["size"] is None else case["size"]
    model = itertools.count(start)
    if case["helper"] == "bytes_count":
        if case["size"] is not None:
            kw["size"] = size
        if case["order"]:
            kw["byte_order"] = case["order"]
        model = (n.to_bytes(size, case["order"] or "big") for n in itertools.count(start))
    compare(case, model, kw)


def compare(case, model, kw, *args):
    wanted, ending = take(model, case["n"])
    if case["is_async"]:
        got, end = sut.run(atake(getattr(tools, "a" + case["helper"])(*args, **kw), case["n"]))
    else:
        got, end = take(getattr(tools, case["helper"])(*args, **kw), case["n"])
    expect((got, end) == (wanted, ending), lambda: (
        f"{case['helper']}{args} {kw} yields {got}, then {end}; expected {wanted}, then {ending}"))
    expect([type(g) for g in got] == [type(w) for w in wanted], "elements of another type")


ranges = st.fixed_dictionaries({
    "helper": st.sampled_from(["range", "bytes_range"]), "is_async": st.booleans(), "n": st.just(60),
    "args": st.lists(st.integers(-12, 40), min_size=1, max_size=3), "size": st.integers(0, 9),
    "order": st.sampled_from(["big", "little"]),
})


def evaluate_ranges(case):
    args = case["args"]
    if len(args) == 3 and args[2] == 0:
        args = args[:2]
    if case["helper"] == "range":
        compare({**case, "is_async": True}, iter(range(*args)), {}, *args)
    else:
        kw = {"size": case["size"], "byte_order": case["order"]}
        compare(case, (n.to_bytes(case["size"], case["order"]) for n in range(*args)), kw, *args)


# ------------------------------------------------------------------------ draining

drains = st.fixed_dictionaries({
    "is_async": st.booleans(), "items": st.lists(elements, max_size=8),
    # a queue of another kind, which fails when this many were taken from it
    "broken": st.one_of(st.none(), st.none(), st.integers(0, 6)),
    "failure": st.sampled_from(sorted(set(FAILURES) - {"IndexError"})),
    # elements put on the queue after the nth element was taken
    "added": st.lists(st.tuples(st.integers(1, 8), st.sampled_from(["left", "right"])).map(list), max_size=3),
    "n": st.integers(0, 12),
})


class Failing(deque):
    def __init__(self, case):
        super().__init__(case["items"])
        self.broken, self.failure, self.taken = case["broken"], FAILURES[case["failure"]], 0

    def popleft(self):
        if self.taken == self.broken:
            raise self.failure
        self.taken += 1
        return super().popleft()


def evaluate_drains(case):
    def actions(queue, taken):
        for number, (after, side) in enumerate(case["added"]):
            if after == taken:
                (queue.append if side == "right" else queue.appendleft)(100 + number)

    def model():
        queue, out = deque(case["items"]), []
        while queue and len(out) < case["n"]:
            if case["broken"] == len(out):
                return out, queue, case["failure"]
            out.append(queue.popleft())
            actions(queue, len(out))
        return out, queue, case["failure"] if case["broken"] == len(out) < case["n"] else None

    queue, got = Failing(case), []

    async def drained():
        if not case["n"]:
            return
        async for item in tools.apopleft(queue):
            got.append(item)
            actions(queue, len(got))
            if len(got) >= case["n"]:
                break

    failed = None
    try:
        if case["is_async"]:
            sut.run(drained())
        elif case["n"]:
            for item in tools.popleft(queue):
                got.append(item)
                actions(queue, len(got))
                if len(got) >= case["n"]:
                    break
    except tuple(FAILURES.values()) as error:
        failed = type(error).__name__
    wanted, left, failure = model()
    expect(failed == failure, lambda: f"draining ends with {failed}, the queue with {failure}")
    expect(repr(got) == repr(wanted), lambda: f"draining yields {got}, expected {wanted}")
    expect(queue == left, lambda: f"draining leaves {list(queue)}, expected {list(left)}")


# -------------------------------------------------------------------- long sources


def long_flows(tier):
    for length in (64, 128, 255, 256, 257, 300, 1000, 1025, 5000):
        items = [(i * i) % 1009 for i in range(length)]
        for is_async in (False, True):
            for kind in ("iterator", "async", "list"):
                for broken in (None, length - 1):
                    source = {"kind": kind, "items": items, "broken": broken, "failure": "Broken"}
                    short = {**source, "items": items[:3], "broken": None}
                    for helper, sources in (("unpack", [source]), ("cycle", [source]), ("collate", [source, short]),
                                            ("zip", [source, source]), ("collate", [short] * 20 + [source])):
                        yield {"helper": helper, "is_async": is_async, "sources": sources, "n": 2 * length + 65}


def long_cuts(tier):
    for length in (1023, 1024, 1025, 4096, 65535, 65536, 65537, 300000):
        for size in (1000, 1024, 4096, 65536, 65537, length - 1, length, length + 1):
            for helper, kind in (("batch", "bytes"), ("batch", "text"), ("resize", "bytes"), ("resize", "list")):
                for blocks in (None, 1, length // size or 1, length // size + 1, 1000):
                    yield {"helper": helper, "is_async": bool(length + size & 1), "size": size, "blocks": blocks,
                           "data": {"s": [size % 97, length]}, "as": kind}


def long_counts(tier):
    for helper in ("count", "bytes_count"):
        for start in (None, 200, 65000):
            for is_async in (False, True):
                yield {"helper": helper, "is_async": is_async, "n": 1500, "start": start, "size": None, "order": None}


def long_ranges(tier):
    for helper in ("range", "bytes_range"):
        for args in ([1500], [65000, 66100], [2000, 500, -1], [0, 2**20, 997], [-700, 700] if helper == "range" else [9]):
            yield {"helper": helper, "is_async": bool(len(args) & 1), "n": 1501, "args": args, "size": 8,
                   "order": "little"}


def long_drains(tier):
    for length in (255, 256, 257, 1000, 1025):
        for is_async in (False, True):
            yield {"is_async": is_async, "items": list(range(length)), "broken": None, "failure": "Broken",
                   "added": [[length - 1, "right"], [length, "left"]], "n": length + 7}


def yields_two(case):
    return case["n"] >= 2 and sum(len(s["items"]) for s in case["sources"]) >= 2


PARTS = [
    Sweep("long sources", long_flows, evaluate_flows, nontrivial=yields_two, labels=lambda c: [c["helper"]]),
    Sweep("long sequences", long_cuts, evaluate_cuts, labels=lambda c: [c["helper"]]),
    Sweep("long counts", long_counts, evaluate_counts),
    Sweep("long ranges", long_ranges, evaluate_ranges),
    Sweep("long queues", long_drains, evaluate_drains),
    Part("flows", flows, evaluate_flows, 1800, 40000, nontrivial=yields_two, labels=lambda c: [
        c["helper"], *(s["kind"] for s in c["sources"]),
        *(["failing source"] if any(s["broken"] is not None for s in c["sources"]) else [])]),
    Part("cuts", cuts, evaluate_cuts, 1500, 30000, nontrivial=lambda c: c["size"] < 1 or (
        len(blob(c["data"])) > c["size"]), labels=lambda c: [c["helper"], "valid" if c["size"] > 0 else "invalid"]),
    Part("counts", counts, evaluate_counts, 400, 8000, nontrivial=lambda c: c["n"] > 1),
    Part("ranges", ranges, evaluate_ranges, 400, 8000),
    Part("drains", drains, evaluate_drains, 400, 8000, nontrivial=lambda c: len(c["items"]) > 1 and c["n"] > 1),
]
