"""C14: sequence identifiers map numbers to ids one-to-one and back."""

import asyncio
from concurrent.futures import ThreadPoolExecutor

from hypothesis import strategies as st

from checks.c13 import stretch, value_of, values
from lib import sut
from lib.ciph import call
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing: generated histories of issuing and reading "
    "identifiers with several keys and sizes, judged by the one-to-one table they "
    "must form; exhaustive enumeration of small sizes"
)
RULE = (
    "a case is a history over several generators, or one generator whose whole "
    "domain is enumerated; non-trivial when at least three identifiers are issued "
    "or read. Distinct by the whole case."
)
ASSUMPTIONS = ("two generators with unrelated keys and ids of 8 or more bytes are "
               "taken to give different ids for one number",)

keys = st.one_of(
    st.integers(0, 2**20).map(lambda s: {"s": [s, 160]}),
    st.sampled_from([{"h": "00"}, {"h": "ff"}, {"h": "01"}]),
)
makers = st.fixed_dictionaries({"size": st.one_of(st.integers(1, 3), st.integers(1, 32)), "key": keys})
OPS = st.fixed_dictionaries({
    "op": st.sampled_from(["new", "new", "new", "read", "fresh", "burst", "other-key", "threads"]),
    "who": st.integers(0, 2), "v": values, "is_async": st.booleans(),
})
histories = st.fixed_dictionaries({
    "makers": st.lists(makers, min_size=1, max_size=3), "ops": st.lists(OPS, min_size=4, max_size=18),
})


def make(spec):
    size = aiootp.SequenceID.key_size(spec["size"])
    return aiootp.SequenceID(key=stretch(blob(spec["key"]), size), config_id=spec["size"])


class Book:
    def __init__(self, spec):
        self.size = spec["size"]
        self.ids, self.numbers = {}, {}

    def add(self, number, sid):
        expect(type(sid) is bytes and len(sid) == self.size, lambda: (
            f"the id of {number} has {len(sid)} bytes instead of {self.size}"
        ))
        expect(self.ids.setdefault(number, sid) == sid, lambda: f"{number} has two ids")
        expect(self.numbers.setdefault(sid, number) == number, lambda: (
            f"{number} and {self.numbers[sid]} have one id"
        ))


def evaluate(case):
    specs = case["makers"]
    objects = [make(spec) for spec in specs]
    books = {}
    for op in case["ops"]:
        at = op["who"] % len(specs)
        spec, obj = specs[at], objects[at]
        name = str((spec["size"], stretch(blob(spec["key"]), 160).hex()))
        book = books.setdefault(name, Book(spec))
        size, is_async = spec["size"], op["is_async"]
        number = value_of(op["v"], size)
        if op["op"] == "new":
            sid = call(obj, "new", is_async, number)
            book.add(number, sid)
            got = call(obj, "read", not is_async, sid)
            expect(got == number, lambda: f"the id of {number} reads as {got}")
        elif op["op"] == "read":
            sid = number.to_bytes(size, "big")
            got = call(obj, "read", is_async, sid)
            expect(0 <= got < 256**size, "an id reads as a number out of range")
            book.add(got, sid)
            again = call(obj, "new", not is_async, got)
            expect(again == sid, lambda: f"id {sid.hex()} reads as {got}, whose id is {again.hex()}")
        elif op["op"] == "fresh":
            objects[at] = make(spec)
        elif op["op"] == "burst":
            numbers = [(number + i) % 256**size for i in range(12)]

            async def burst():
                return await asyncio.gather(*(obj.anew(n) for n in numbers))

            for n, sid in zip(numbers, sut.run(burst())):
                book.add(n, sid)
        elif op["op"] == "threads":
            numbers = [(number + i) % 256**size for i in range(12)]
            with ThreadPoolExecutor(4) as pool:
                for n, sid in zip(numbers, pool.map(obj.new, numbers)):
                    book.add(n, sid)
        elif op["op"] == "other-key":
            other = make({"size": size, "key": {"s": [2**30 + at, 160]}})
            sid = call(other, "new", is_async, number)
            if size >= 8:
                mine = call(obj, "new", is_async, number)
                book.add(number, mine)
                expect(sid != mine, "two keys give one id")
                expect(call(other, "read", is_async, mine) != number,
                       "another key recovers the number")


def whole_cases(tier):
    for key in [{"h": "00"}, {"h": "ff"}, *({"s": [n, 160]} for n in range(
            6 if tier == "quick" else 60))]:
        yield {"size": 1, "key": key}
    for n in range(2 if tier == "quick" else 10):
        yield {"size": 2, "key": {"s": [n, 160]}}


def evaluate_whole(case):
    obj, top = make(case), 256 ** case["size"]
    ids = [obj.new(n) for n in range(top)]
    expect({len(i) for i in ids} == {case["size"]}, "an id has another size")
    expect(len(set(ids)) == top, "two numbers have one id")
    wrong = [n for n in range(top) if obj.read(ids[n]) != n]
    expect(not wrong, lambda: f"the id of {wrong[0]} reads as {obj.read(ids[wrong[0]])}")


def labels(case):
    for op in case["ops"]:
        yield op["op"]
    for spec in case["makers"]:
        yield "size " + ("1-3" if spec["size"] < 4 else "4-11" if spec["size"] < 12 else "12-32")


PARTS = [
    Part("histories", histories, evaluate, 900, labels=labels,
         nontrivial=lambda c: sum(o["op"] != "fresh" for o in c["ops"]) > 2),
    Sweep("whole-domains", whole_cases, evaluate_whole, labels=lambda c: [f"size {c['size']}"]),
]
