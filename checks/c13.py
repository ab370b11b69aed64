"""C13: keyed permutations are exact bijections with their inverse."""

import math

from hypothesis import strategies as st

from lib import sut
from lib.ciph import call
from lib.harness import Discard, Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp  # noqa: F401

from aiootp._permutations.affine_permutation import AffinePermutation  # noqa: E402
from aiootp._permutations.affine_xor_chain import AffineXORChain  # noqa: E402
from aiootp._permutations.fast_affine_xor_chain import FastAffineXORChain  # noqa: E402

TECHNIQUE = (
    "stateful property-based testing: generated histories of permuting, inverting, "
    "stepping and re-creating objects against the table of the mapping seen so far; "
    "exhaustive enumeration of the one- and two-byte domains for generated keys"
)
RULE = (
    "a case is a kind of permutation, a block size, a key and a history of calls, "
    "or a key whose whole domain is enumerated; non-trivial when at least three "
    "different values are mapped. Distinct by the whole case."
)

KINDS = {
    "affine": AffinePermutation, "chain": AffineXORChain, "fast": FastAffineXORChain,
}
SIZES = (*range(1, 33), 48, 64, 128, 192, 256)
sizes = st.one_of(
    st.integers(1, 3), st.integers(1, 32), st.sampled_from((48, 64, 128, 192, 256)),
)


def make(case, key=None):
    cls = KINDS[case["kind"]]
    size = cls.key_size(case["size"])
    raw = key if key is not None else stretch(blob(case["key"]), size)
    return cls(key=raw, config_id=case["size"])


def stretch(seed, size):
    """A key of the right size; short seeds are repeated, so that edge keys occur."""
    return (seed * (size // len(seed) + 1))[:size]


def value_of(spec, size):
    """Numbers from every corner of the domain 0 .. 256**size - 1."""
    top = 256**size
    how, n = spec
    if how == "low":
        return n % top
    if how == "high":
        return (top - 1 - n) % top
    if how == "bit":
        return 1 << (n % (8 * size))
    if how == "mid":
        return (top // 2 + n) % top
    return int.from_bytes(blob({"s": [n, size]}), "big")


values = st.tuples(
    st.sampled_from(["low", "high", "bit", "mid", "any", "any"]), st.integers(0, 700),
).map(list)
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.sampled_from(["permute", "permute", "invert"]),
                           "v": values, "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("permute"), "v": st.just(["low", 3]),
                           "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["permute", "permute", "invert"]),
                           "v": values, "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("both"), "v": values, "is_async": st.booleans(),
                           "uncapped": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("step"), "n": st.integers(1, 5),
                           "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("increment"), "v": values, "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("again")}),
    st.fixed_dictionaries({"op": st.just("sibling")}),
)
histories = st.fixed_dictionaries({
    "kind": st.sampled_from(sorted(KINDS)), "size": sizes,
    "key": st.one_of(
        st.integers(0, 2**20).map(lambda s: {"s": [s, 64]}),
        st.sampled_from([{"h": "00"}, {"h": "ff"}, {"h": "80"}, {"h": "01"}, {"h": "00ff"}]),
        st.binary(min_size=1, max_size=4).map(lambda b: {"h": b.hex()}),
    ),
    "ops": st.lists(OPS, min_size=4, max_size=18),
})


class Table:
    """What is known about the mapping in its present state."""

    def __init__(self):
        self.forward, self.backward = {}, {}

    def add(self, value, image):
        expect(self.forward.setdefault(value, image) == image,
               lambda: f"{value} has two images")
        expect(self.backward.setdefault(image, value) == value,
               lambda: f"{value} and {self.backward[image]} have one image")


def evaluate_history(case):
    size, top = case["size"], 256 ** case["size"]
    obj = make(case)
    log, table, seen = [], Table(), {}
    chain = case["kind"] != "affine"

    def in_domain(number, what):
        expect(type(number) is int and 0 <= number < top,
               lambda: f"{what} leaves the domain of {size} bytes")

    for op in case["ops"]:
        is_async = op.get("is_async", False)
        if op["op"] == "permute":
            value = value_of(op["v"], size)
            image = call(obj, "permute", is_async, value)
            in_domain(image, "permuting")
            table.add(value, image)
            # stepping gives every input a new image until all are used
            images = seen.setdefault(value, {})
            steps = len(log)
            if image in images and images[image] != steps and not any(
                    kind == "increment" for kind, _ in log):
                expect(steps - images[image] >= top or not chain, lambda: (
                    f"{value} has the image it had {steps - images[image]} steps before"
                ))
            images[image] = steps
        elif op["op"] == "invert":
            image = value_of(op["v"], size)
            value = call(obj, "invert", is_async, image)
            in_domain(value, "inverting")
            table.add(value, image)
        elif op["op"] == "both":
            value = value_of(op["v"], size)
            name = "uncapped_" if op["uncapped"] and chain else ""
            there = call(obj, name + "permute", is_async, value)
            in_domain(there, name + "permuting")
            back = call(obj, name + "invert", not is_async, there)
            expect(back == value, lambda: f"{value} comes back as {back}")
            there = call(obj, name + "invert", not is_async, value)
            in_domain(there, name + "inverting")
            back = call(obj, name + "permute", is_async, there)
            expect(back == value, lambda: f"{value}, inverted first, comes back as {back}")
        elif op["op"] == "step" and chain:
            for _ in range(op["n"]):
                call(obj, "step", is_async)
                log.append(("step", None))
            table = Table()
        elif op["op"] == "increment" and chain:
            value = value_of(op["v"], size) or 1
            call(obj, "update_increment", is_async, value)
            log.append(("increment", value))
        elif op["op"] == "again":
            obj = make(case)
            for kind, value in log:
                if kind == "step":
                    obj.step()
                else:
                    obj.update_increment(value)
        elif op["op"] == "sibling":
            # work on another object, of the same or another key, changes nothing
            other = make(case)
            other.permute(3)
            third = make(case, bytes(KINDS[case["kind"]].key_size(size)))
            third.permute(5)
            if chain:
                other.step()
                third.update_increment(1)


# ------------------------------------------------------- whole domains

def whole_cases(tier):
    keys = [{"h": "00"}, {"h": "ff"}, {"h": "80"}, {"s": [1, 64]}, {"s": [2, 64]}]
    keys += [{"s": [n, 64]} for n in range(3, 40 if tier == "quick" else 60)]
    for kind in KINDS:
        for key in keys:
            yield {"kind": kind, "size": 1, "key": key, "steps": 3}
    for kind in KINDS:
        for key in keys[:12 if tier == "quick" else 12]:
            yield {"kind": kind, "size": 2, "key": key, "steps": 0}
    for kind in ("chain", "fast"):
        for key in keys[2:10 if tier == "quick" else 20]:
            yield {"kind": kind, "size": 1, "key": key, "steps": 255}


def evaluate_whole(case):
    obj, top = make(case), 256 ** case["size"]
    columns = [set() for _ in range(top)] if case["steps"] else None
    for step in range(case["steps"] + 1):
        images = [obj.permute(v) for v in range(top)]
        expect(sorted(images) == list(range(top)), "not a one-to-one mapping of the domain")
        if case["steps"] < 10:
            wrong = [v for v in range(top) if obj.invert(images[v]) != v]
            expect(not wrong, lambda: f"{wrong[0]} does not come back")
        if case["kind"] == "affine":
            return
        if columns:
            for value, image in enumerate(images):
                expect(image not in columns[value], lambda: (
                    f"{value} has one image twice within {step} steps"
                ))
                columns[value].add(image)
        obj.step()


def stepping_cases(tier):
    for kind in ("chain", "fast"):
        for size, several in ((1, [[], *([n] for n in range(1, 256)), [1, 2], [3, 4], [255, 1], [2, 4, 8], [7, 7], [128, 127, 1]]),
                              (2, [[], [1], [32769, 2], [65535]] if tier == "quick" else [[], *([1 << n] for n in range(16)), [32769, 2], [65535]])):
            for changes in several:
                yield {"kind": kind, "size": size, "key": {"s": [len(changes), 64]}, "changes": changes}


def evaluate_stepping(case):
    """However the step is adjusted, it leads through the whole domain."""
    obj, top = make(case), 256 ** case["size"]
    for number, change in enumerate(case["changes"]):
        call(obj, "update_increment", bool(number % 2), change)
    values = (0, 77, top - 1) if top == 256 else (top - 2,)
    seen = [set() for _ in values]
    for step in range(top):
        for value, images in zip(values, seen):
            image = obj.permute(value)
            expect(image not in images, lambda: f"{value} has one image twice within {step} steps")
            images.add(image)
        obj.step()


# --------------------------- values whose images are hard to find a place for

def affine_constants(size):
    """(multiplier, modulus) of the affine mapping, worked out from what it maps; None when it is not one."""
    plain = make({"kind": "affine", "size": size}, bytes(AffinePermutation.key_size(size)))
    top = 256**size
    multiplier = plain.permute(1)
    modulus = 0
    for value in (2, 3, 5, top // 3, top // 2, top - 1):
        modulus = math.gcd(modulus, multiplier * value - plain.permute(value))
    if not top < modulus < 2 * top or math.gcd(multiplier, modulus) != 1:
        return None
    return multiplier, modulus


def walk_cases(tier):
    for size in SIZES if tier == "thorough" else (*range(1, 17), 24, 32, 64):
        for first in range(6):
            yield {"kind": "affine", "size": size, "first": first, "seed": 7 * size + first}


def evaluate_walk(case):
    """
    The modulus is larger than the domain: keys are made under which the path of
    a value passes one, two or three numbers outside of it before it comes back.
    """
    constants = affine_constants(case["size"])
    if constants is None:
        raise Discard
    multiplier, modulus = constants
    size, top = case["size"], 256 ** case["size"]
    outside = modulus - top
    one = top + case["first"] % outside
    two = top + case["seed"] % outside
    # one -> two under this additive key, hence also what comes before and after
    additive = (two - multiplier * one) % modulus
    key = additive.to_bytes(AffinePermutation.key_size(size), "big")
    obj = make(case, key)
    inverse = pow(multiplier, -1, modulus)
    before, after = one, two
    for _ in range(4):
        if before >= top:
            before = inverse * (before - additive) % modulus
        if after >= top:
            after = (multiplier * after + additive) % modulus
    values = {v for v in (before, before ^ 1, after, after ^ 1, 0, top - 1) if v < top}
    table = Table()
    for value in sorted(values):
        image = call(obj, "permute", bool(value % 2), value)
        expect(0 <= image < top, lambda: f"permuting leaves the domain of {size} bytes")
        table.add(value, image)
        back = call(obj, "invert", bool(value % 3), image)
        expect(back == value, lambda: f"{value} comes back as {back}")
        source = call(obj, "invert", bool(value % 2), value)
        expect(0 <= source < top, lambda: f"inverting leaves the domain of {size} bytes")
        table.add(source, value)


def several(case):
    return len({str(o["v"]) for o in case["ops"] if o["op"] in ("permute", "invert", "both")}) > 2


def labels(case):
    yield case["kind"]
    yield "size " + ("1-3" if case["size"] < 4 else "4-32" if case["size"] < 33 else "48-256")
    for op in case["ops"]:
        yield op["op"]


PARTS = [
    Part("histories", histories, evaluate_history, 2000, nontrivial=several, labels=labels),
    Sweep("long paths", walk_cases, evaluate_walk, labels=lambda c: ["long path"]),
    Sweep("stepping", stepping_cases, evaluate_stepping, labels=lambda c: [f"{c['kind']} {c['size']} stepped"]),
    Sweep("whole-domains", whole_cases, evaluate_whole, labels=lambda c: [f"{c['kind']} {c['size']}"]),
]
