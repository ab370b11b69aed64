"""C11: multi-input hashes separate every input, key and size."""

import hashlib

from hypothesis import strategies as st

from checks.c10 import pads, variants, vary
from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.harness import Part, Sweep, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "differential property-based testing against an independent computation "
    "of the digest, and metamorphic variation of every input"
)
RULE = (
    "a case is one hash call together with a neighbouring call; non-trivial "
    "when there is at least one input and the neighbour differs from the call. "
    "Distinct by the whole case."
)
ASSUMPTIONS = ("two unrelated strings of 8 or more bytes are taken to differ",)

FIXED = ("sha3_512", "sha3_256", "sha256", "sha512", "blake2b", "sha3_384")
XOF = ("shake_128", "shake_256")

items = st.lists(
    st.one_of(S.blobs(0, 6), S.blobs(0, 6), S.blobs(0, 40),
              S.sized_blobs(S.near([64, 72, 128, 136, 144, 168, 300], spread=1))),
    max_size=5,
)
keys = st.one_of(
    st.none(), S.blobs(1, 40),
    S.sized_blobs(S.near([55, 56, 64, 72, 119, 120, 128, 136, 151, 152, 168], spread=1)),
)
sizes = st.one_of(st.integers(1, 40), S.near([32, 64, 136, 168, 336]), st.integers(1, 400))


@st.composite
def hash_calls(draw):
    xof = draw(st.booleans())
    return {
        "hasher": draw(st.sampled_from(XOF if xof else FIXED)),
        "size": draw(sizes) if xof else None,
        "key": draw(keys), "pad": draw(pads), "items": draw(items),
    }


neighbours = st.one_of(
    st.fixed_dictionaries({"op": st.just("items"), "v": variants}),
    st.fixed_dictionaries({"op": st.just("items"), "v": variants}),
    st.fixed_dictionaries({"op": st.just("key"), "key": keys}),
    st.fixed_dictionaries({"op": st.sampled_from(
        ["key-extend", "key-zero", "key-to-item", "item-to-key", "key-none", "size-to-item"])}),
    st.fixed_dictionaries({"op": st.just("pad"), "pad": pads}),
    st.fixed_dictionaries({"op": st.just("size"), "by": st.sampled_from([1, -1, 8, 256])}),
    st.fixed_dictionaries({"op": st.just("hasher")}),
)

cases = st.fixed_dictionaries({
    "call": hash_calls(), "neighbour": neighbours, "is_async": st.booleans(),
})


def resolve(c):
    return {
        "hasher": c["hasher"], "size": c["size"], "pad": bytes([c["pad"]]),
        "key": None if c["key"] is None else blob(c["key"]),
        "items": [blob(i) for i in c["items"]],
    }


def neighbour(c, n):
    c = dict(c)
    op = n["op"]
    if op == "items":
        c["items"] = vary(c["items"], n["v"], c["pad"][0])
    elif op == "key":
        c["key"] = None if n["key"] is None else blob(n["key"])
    elif op == "key-extend" and c["key"]:
        c["key"] += c["pad"]
    elif op == "key-zero" and c["key"]:
        c["key"] += b"\0"
    elif op == "key-none":
        c["key"] = None
    elif op == "key-to-item" and c["key"]:
        c["items"] = [c["key"], *c["items"]]
        c["key"] = None
    elif op == "item-to-key" and c["items"] and c["items"][0]:
        c["key"] = c["items"][0]
        c["items"] = c["items"][1:]
    elif op == "size-to-item":
        c["items"] = [(c["size"] or 64).to_bytes(8, "big"), *c["items"]]
    elif op == "pad":
        c["pad"] = bytes([n["pad"]])
    elif op == "size" and c["size"]:
        c["size"] = max(1, c["size"] + n["by"])
    elif op == "hasher":
        group = XOF if c["size"] else FIXED
        c["hasher"] = group[(group.index(c["hasher"]) + 1) % len(group)]
    return c


def compute(c, is_async):
    kw = {"hasher": getattr(hashlib, c["hasher"]), "pad": c["pad"], "key": c["key"]}
    if c["size"] is not None:
        kw["size"] = c["size"]
    if kw["key"] is None and not len(c["items"]) % 2:
        del kw["key"]
    if is_async:
        return sut.run(aiootp.ahash_bytes(*c["items"], **kw))
    return aiootp.hash_bytes(*c["items"], **kw)


def evaluate(case):
    first = resolve(case["call"])
    second = neighbour(first, case["neighbour"])
    a = compute(first, case["is_async"])
    b = compute(second, not case["is_async"])
    for c, got in ((first, a), (second, b)):
        wanted = R.hash_bytes(
            *c["items"], hasher=R.HASHERS[c["hasher"]], pad=c["pad"], size=c["size"], key=c["key"],
        )
        expect(got == wanted, "the digest is not that of the documented encoding")
    if first != second:
        n = min(len(a), len(b))
        expect(n < 8 or a[:n] != b[:n], lambda: (
            f"two different calls agree in {n} bytes ({case['neighbour']['op']})"
        ))
    else:
        expect(a == b, "sync and async digests differ")
    # an empty key is no key at all, but an error
    try:
        compute({**first, "key": b""}, case["is_async"])
    except Exception:  # noqa: BLE001
        return
    raise Violation("an empty key was accepted")


def large(tier):
    """Long keys, long inputs, many inputs, long digests."""
    lengths = (1000, 4095, 4096, 4097, 16 * 136 - 17, 16 * 168 - 17, 32768, 65535, 65536, 65537, 2**17 + 1, 2**20)
    empty = {"op": "items", "v": {"op": "append-empty"}}
    cut = {"op": "items", "v": {"op": "cut", "i": 0, "n": 1}}
    grow = {"op": "items", "v": {"op": "extend", "i": 0, "n": 1}}
    for i, hasher in enumerate((*FIXED, *XOF)):
        call = {"hasher": hasher, "size": 32 if hasher in XOF else None, "key": None, "pad": 0,
                "items": [{"s": [i, 20]}]}
        for n, length in enumerate(lengths):
            long = {"s": [i, length]}
            calls = [
                ({**call, "key": long}, {"op": "key", "key": {"s": [i, length - 1]}}),
                ({**call, "key": long}, {"op": "key-zero"}),
                ({**call, "items": [long]}, cut), ({**call, "items": [long, {"h": "61"}]}, grow),
            ]
            if hasher in XOF:
                calls += [({**call, "size": length}, {"op": "size", "by": by}) for by in (1, -1, 256)]
            for one, near in calls:
                yield {"call": one, "neighbour": near, "is_async": bool(n + i & 1)}
        for count in (17, 33, 64, 65, 128, 253, 254, 255, 256, 257, 300, 1000):
            for near in (empty, {"op": "items", "v": {"op": "drop", "i": count - 1, "n": 1}},
                         {"op": "items", "v": {"op": "extend", "i": count - 1, "n": 1}}):
                yield {"call": {**call, "items": [{"h": "61"}] * count}, "neighbour": near,
                       "is_async": bool(count & 1)}


# ------------------------------------------------------- domain constants

constants = st.fixed_dictionaries({
    "constant": st.one_of(st.text(max_size=12), S.blobs(0, 20)),
    "size": st.one_of(st.just(8), st.integers(1, 200)),
    "domain": S.blobs(0, 12), "aad": S.blobs(0, 12), "pad": pads,
    "change": st.sampled_from(["constant", "domain", "aad", "pad", "size", "move"]),
    "is_async": st.booleans(),
})


def encode(c, is_async):
    kw = {"domain": c["domain"], "aad": c["aad"], "pad": c["pad"], "size": c["size"]}
    if is_async:
        return sut.run(aiootp.Domains.aencode_constant(c["constant"], **kw))
    return aiootp.Domains.encode_constant(c["constant"], **kw)


def evaluate_constant(case):
    constant = case["constant"]
    c = {
        "constant": constant if isinstance(constant, str) else blob(constant),
        "domain": blob(case["domain"]), "aad": blob(case["aad"]),
        "pad": bytes([case["pad"]]), "size": case["size"],
    }
    d = dict(c)
    change = case["change"]
    if change == "move":
        d["domain"], d["aad"] = c["domain"] + c["aad"][:1], c["aad"][1:]
    elif change == "pad":
        d["pad"] = bytes([c["pad"][0] ^ 1])
    elif change == "size":
        d["size"] += 1
    elif change == "constant":
        d["constant"] += "\0" if isinstance(constant, str) else b"\0"
    else:
        d[change] += b"\0"
    a, b = encode(c, case["is_async"]), encode(d, not case["is_async"])
    for x, got in ((c, a), (d, b)):
        expect(got == R.encode_constant(
            x["constant"], size=x["size"], domain=x["domain"], aad=x["aad"], pad=x["pad"],
        ), "a domain constant is not the documented hash")
    n = min(len(a), len(b))
    expect(c == d or n < 8 or a[:n] != b[:n], "two different domain constants agree")


def nontrivial(case):
    return bool(case["call"]["items"]) and neighbour(
        resolve(case["call"]), case["neighbour"]) != resolve(case["call"])


def labels(case):
    yield case["call"]["hasher"]
    yield "keyed" if case["call"]["key"] is not None else "no key"
    n = case["neighbour"]
    yield f"neighbour: {n['op']} {n['v']['op'] if 'v' in n else ''}"


PARTS = [
    Sweep("large", large, evaluate, nontrivial=nontrivial),
    Part("digests", cases, evaluate, 3000, nontrivial=nontrivial, labels=labels),
    Part("constants", constants, evaluate_constant, 1000, labels=lambda c: [c["change"]]),
]
