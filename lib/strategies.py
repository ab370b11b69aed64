"""
Strategies and the encoding of bytes inside cases.

Cases are JSON. A byte string is one of
  {"h": "00ff"}        literal hex
  {"r": [65, 300]}     one byte value repeated
  {"s": [7, 300]}      deterministic incompressible bytes from a seed
so that long payloads stay short in replay files and shrink well.
"""

from functools import lru_cache
from hashlib import shake_128

from hypothesis import strategies as st


def blob(value):
    """The bytes a case's byte-string node stands for."""
    if "h" in value:
        return bytes.fromhex(value["h"])
    if "r" in value:
        return bytes([value["r"][0]]) * value["r"][1]
    seed, size = value["s"]
    return shake_128(b"case-bytes" + seed.to_bytes(8, "big")).digest(size)


def literal(data):
    return {"h": data.hex()}


def is_blob(value):
    return isinstance(value, dict) and len(value) == 1 and next(iter(value)) in "hrs"


SEEDS = st.integers(0, 2**20)
REPEATED = st.sampled_from([0, 1, 255, 32, 20, 12])
KIND = st.sampled_from("srh")


@lru_cache(maxsize=None)
def exactly(n):
    return st.binary(min_size=n, max_size=n)


@st.composite
def sized_blobs(draw, sizes):
    """Byte strings whose length is drawn from the strategy `sizes`."""
    n = draw(sizes)
    kind = draw(KIND)
    if kind == "h" and n <= 300:
        return literal(draw(exactly(n)))
    if kind == "r":
        return {"r": [draw(REPEATED), n]}
    return {"s": [draw(SEEDS), n]}


def blobs(min_size=0, max_size=64):
    return sized_blobs(st.integers(min_size, max_size))


def weighted(*pairs):
    """One of several strategies, each with its weight (`one_of` merges repeated ones)."""
    bag = [strategy for strategy, weight in pairs for _ in range(weight)]
    return st.integers(0, len(bag) - 1).flatmap(bag.__getitem__)


def near(points, spread=2, low=0):
    """Integers at and around the given points."""
    values = sorted(
        {p + d for p in points for d in range(-spread, spread + 1) if p + d >= low},
    )
    return st.sampled_from(values)


def payload_sizes(block, header, blocks=6):
    """Payload lengths clustered where the padded length changes."""
    points = [0] + [block * i - header for i in range(1, blocks)]
    points += [block * i for i in range(1, blocks)]
    return st.one_of(
        near(points), st.integers(0, 40), st.integers(0, block * blocks),
    )


CIPHERS = ("Chunky2048", "Slick256")
GEOMETRY = {"Chunky2048": (256, 20), "Slick256": (32, 12)}


def payloads(name, blocks=6):
    return sized_blobs(payload_sizes(*GEOMETRY[name], blocks=blocks))


keys = st.one_of(
    st.builds(lambda s, n: {"s": [s, n]}, st.integers(0, 2**20),
              st.sampled_from([64, 64, 65, 100, 127, 128, 151, 152, 167, 168, 169, 200, 336, 500])),
    st.builds(lambda b, n: {"r": [b, n]}, st.sampled_from([0, 255, 1]), st.sampled_from([64, 65, 128])),
)
salts = st.one_of(
    st.builds(lambda s: {"s": [s, 8]}, st.integers(0, 2**20)),
    st.sampled_from([{"r": [0, 8]}, {"r": [255, 8]}, {"h": "0000000000000001"}]),
)
ivs = salts
aads = st.one_of(
    st.just({"h": ""}), blobs(0, 40),
    sized_blobs(near([128, 135, 136, 140, 160, 168, 255, 256, 304, 336, 1000], spread=1)),
)

# ----------------------------------------------------------- JSON values

json_keys = st.one_of(
    st.sampled_from(["", "a", "b", "0", "é", "\u0000", "key", "\\", '"', "__proto__"]),
    st.text(max_size=6), st.sampled_from(["\ud83d", "\U0001f600"]),
)
json_leaves = st.one_of(
    st.none(), st.booleans(), st.integers(-(2**70), 2**70), st.integers(-3, 3),
    st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=20),
    st.text(st.characters(exclude_categories=()), max_size=6),
    st.sampled_from(["\ud800", "a\udfff", "\U0001f600", "\u2028", "\x00", "\x7f\x80"]),
)


def json_trees(max_leaves=12):
    return st.recursive(
        json_leaves,
        lambda inner: st.one_of(
            st.lists(inner, max_size=4),
            st.dictionaries(json_keys, inner, max_size=4),
        ),
        max_leaves=max_leaves,
    )


def same_json(a, b):
    """Equality that also compares types (1, 1.0 and True differ) and -0.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b
