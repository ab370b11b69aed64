"""C15: generated identifiers are unique, sized and readable back."""

import asyncio
import sys
import threading

from hypothesis import strategies as st

from checks.c13 import stretch
from lib import refmodel as R
from lib import sut
from lib.ciph import call
from lib.harness import Part, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing under a simulated clock and constant randomness: "
    "generated histories of generators, tasks, threads and clock movements, judged "
    "by the set of identifiers issued and the parts each must read back to"
)
RULE = (
    "a case is a history of identifier requests over several generators with a "
    "simulated clock; non-trivial when at least two identifiers are made within one "
    "nanosecond or by two generators. Distinct by the whole case."
)

ROOM = 2**63 - R.EPOCH_NS - 2
moves = st.one_of(
    st.just(0), st.sampled_from([1, 1, 2, 255, 256, 65535, 10**9, 10**9 - 1, 86400 * 10**9]),
    st.integers(0, 2**40),
)
makers = st.fixed_dictionaries({
    "node": st.sampled_from([0, 0, 1, 2, 127, 128, 254, 255]), "raw": st.booleans(),
})
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("new"), "who": st.integers(0, 3),
                           "n": st.sampled_from([1, 1, 2, 7, 100, 255, 256]),
                           "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["tasks", "threads"]), "who": st.integers(0, 3),
                           "n": st.sampled_from([8, 64, 256])}),
    st.fixed_dictionaries({"op": st.just("move"), "by": moves}),
    st.fixed_dictionaries({"op": st.just("move"), "by": st.just(1)}),
    st.fixed_dictionaries({"op": st.just("renew"), "who": st.integers(0, 3)}),
)
histories = st.fixed_dictionaries({
    "size": st.one_of(st.sampled_from([12, 16, 32]), st.integers(12, 32)),
    "key": st.one_of(st.none(), st.integers(0, 2**20).map(lambda s: {"s": [s, 200]}),
                     st.sampled_from([{"h": "00"}, {"h": "ff"}])),
    "makers": st.lists(makers, min_size=1, max_size=4, unique_by=lambda m: (m["node"], m["raw"])),
    "start": st.one_of(st.integers(0, 10), st.integers(0, 2**62), st.sampled_from([
        255, 256, 2**32 - 1, 2**32, 2**56 - 1, 2**56])),
    "byte": st.sampled_from([0, 255, 65, 1001]), "ops": st.lists(OPS, min_size=1, max_size=10),
})


def make(case, spec):
    node = bytes([spec["node"]])
    if spec["raw"]:
        from aiootp.randoms.ids.raw_guid import RawGUID

        return RawGUID(node_id=node, config_id=case["size"])
    key = case["key"]
    if key is not None:
        key = stretch(blob(key), aiootp.GUID.key_size(case["size"]))
    return aiootp.GUID(key=key, node_id=node, config_id=case["size"])


def evaluate(case):
    now = case["start"]
    try:
        (sut.randomness.fix if case["byte"] < 256 else sut.randomness.vary)(case["byte"])
        sut.wall.freeze(R.EPOCH_NS + now)
        run(case, now)
    finally:
        sut.randomness.real()
        sut.wall.real()
        sys.setswitchinterval(0.005)


def run(case, now):
    specs = case["makers"]
    # one generator for a node and key at a time: the documented limit is
    # 256 identifiers from one in one nanosecond
    objects = [make(case, spec) for spec in specs]
    issued = {False: {}, True: {}}
    budget = [256] * len(specs)
    serial = 0
    parsed = []
    made = [0] * len(specs)

    def take(at, ids):
        nonlocal serial
        spec, obj = specs[at], objects[at]
        for guid in ids:
            expect(type(guid) is bytes and len(guid) == case["size"],
                   lambda: f"an id has {len(guid)} bytes instead of {case['size']}")
            book = issued[spec["raw"]]
            expect(guid not in book, lambda: f"id {guid.hex()} was given out twice")
            book[guid] = serial
            serial += 1
        for n, guid in enumerate(ids[:3] + ids[-2:]):
            got = call(obj, "read", bool(n % 2), guid)
            expect(int.from_bytes(got.timestamp, "big") == now, lambda: (
                f"made at {now} ns, read back as {int.from_bytes(got.timestamp, 'big')}"
            ))
            expect(got.node_id == bytes([spec["node"]]), "the node number reads back changed")
            expect(len(got.timestamp + got.token + got.node_id + got.ticker) == case["size"],
                   "the parts do not make up the id")
            parsed.append((now, got))

    for op in case["ops"]:
        at = op.get("who", 0) % len(specs)
        obj = objects[at]
        n = min(op.get("n", 0), budget[at])
        if op["op"] == "move":
            if now + op["by"] > ROOM:
                continue
            now += op["by"]
            sut.wall.freeze(R.EPOCH_NS + now)
            if op["by"]:
                budget = [256] * len(specs)
            continue
        if op["op"] == "renew":
            # a new generator on a later nanosecond
            if now < ROOM:
                now += 1
                sut.wall.freeze(R.EPOCH_NS + now)
                budget = [256] * len(specs)
                objects[at] = make(case, specs[at])
                made[at] = 0
            continue
        budget[at] -= n
        if op["op"] == "new":
            ids = [call(obj, "new", op["is_async"]) for _ in range(n)]
        elif op["op"] == "tasks":
            async def gather():
                return await asyncio.gather(*(obj.anew() for _ in range(n)))

            ids = sut.run(gather())
        else:
            ids = in_threads(obj, n)
        take(at, ids)
        made[at] += n
        if op["op"] == "new" and made[at] < 256:
            # the counter of a generator starts over after that
            read = [obj.read(guid) for guid in ids]
            expect(read == sorted(read) and all(one < other for one, other in zip(read, read[1:])),
                   "the ids of one nanosecond are not in the order of their creation")
    for t0, a in parsed[:12]:
        for t1, b in parsed[-12:]:
            if t0 < t1:
                expect(a.sort_key < b.sort_key and a < b and not a > b and a != b,
                       "a later id is ordered before an earlier one")
    # reading is not an issuing operation, and works for any other object
    for at, spec in enumerate(specs):
        mine = [g for g in issued[spec["raw"]]]
        if mine:
            other = make(case, spec)
            got, wanted = other.read(mine[0]), objects[at].read(mine[0])
            expect(got == wanted, "two generators read one id differently")
            for wrong in (mine[0] + b"\0", b"\0" + mine[0], mine[0][:-1], mine[0][1:], mine[0] * 2, b""):
                for is_async in (False, True):
                    try:
                        call(other, "read", is_async, wrong)
                    except Exception:  # noqa: BLE001, S112
                        continue
                    raise Violation(f"{len(wrong)} bytes are read as an id of {case['size']}")


def in_threads(obj, n):
    sys.setswitchinterval(1e-6)
    out, errors = [], []
    start = threading.Barrier(4)

    def work(count):
        try:
            start.wait(30)
            for _ in range(count):
                out.append(obj.new())
        except BaseException as error:  # noqa: BLE001
            errors.append(error)

    threads = [threading.Thread(target=work, args=(n // 4,)) for _ in range(4)]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    sys.setswitchinterval(0.005)
    if errors:
        raise errors[0]
    return out


# ----------------------------------------------- real clock and randomness

crowds = st.fixed_dictionaries({
    "size": st.integers(12, 32), "makers": st.integers(1, 5), "threads": st.integers(1, 4),
    "n": st.integers(1, 60), "same_node": st.booleans(), "default_key": st.booleans(),
})


def evaluate_crowd(case):
    key = None if case["default_key"] else blob({"s": [case["n"], 300]})[
        :aiootp.GUID.key_size(case["size"])]
    objects = [
        aiootp.GUID(key=key, config_id=case["size"],
                    node_id=bytes([0 if case["same_node"] else i]))
        for i in range(case["makers"])
    ]
    out = []

    def work(i):
        for _ in range(case["n"]):
            out.append(objects[i % len(objects)].new())

    threads = [threading.Thread(target=work, args=(i,)) for i in range(case["threads"])]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()

    async def more():
        return await asyncio.gather(*(o.anew() for o in objects for _ in range(case["n"])))

    out += sut.run(more())
    wanted = case["n"] * (case["threads"] + case["makers"])
    expect(len(out) == wanted and len(set(out)) == wanted, "an id was given out twice")
    # the order in which threads hand in their ids says nothing about the times in them
    if not case["default_key"]:
        nodes = {bytes([0 if case["same_node"] else i]) for i in range(case["makers"])}
        found = {objects[0].read(guid).node_id for guid in out}
        expect(found <= nodes, "an id carries the node of nobody")


def crowded(case):
    kinds = {o["op"] for o in case["ops"]}
    many = any(o.get("n", 0) > 1 for o in case["ops"])
    return many or (len(case["makers"]) > 1 and "new" in kinds)


def labels(case):
    for op in case["ops"]:
        yield op["op"]
    yield f"generators {len(case['makers'])}"
    if any(m["raw"] for m in case["makers"]):
        yield "unblinded"


PARTS = [
    Part("simulated-clock", histories, evaluate, 400, nontrivial=crowded, labels=labels),
    Part("crowds", crowds, evaluate_crowd, 60, nontrivial=lambda c: c["makers"] + c["threads"] > 2),
]
