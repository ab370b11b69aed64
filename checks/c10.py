"""C10: canonical encoding is unambiguous and strict."""

import itertools

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.harness import Discard, Part, Sweep, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing and fuzzing: round trips and pairwise distinctness "
    "of generated inputs; mutated, structured and exhaustively enumerated byte "
    "strings against a strict reference decoder"
)
RULE = (
    "a case is a sequence of items with encoding parameters, or a byte string "
    "to decode; non-trivial when there is at least one item, respectively when "
    "the byte string is not empty. Distinct by the whole case."
)

ERROR = aiootp._exceptions.CanonicalEncodingError

widths = st.one_of(st.sampled_from([1, 2, 3, 4, 8]), st.integers(1, 40))
pads = st.one_of(st.sampled_from([0, 0, 1, 255, 8]), st.integers(0, 255))
blocksizes = st.one_of(
    st.integers(1, 20), st.sampled_from([1, 72, 104, 136, 144, 168, 255, 256]))
items = st.lists(
    st.one_of(S.blobs(0, 6), S.blobs(0, 6), S.blobs(0, 40),
              S.sized_blobs(S.near([127, 136, 168, 255, 256, 300], spread=1))),
    max_size=6,
)


@st.composite
def parameters(draw):
    width = draw(widths)
    blocksize = draw(blocksizes)
    if width == 1:
        blocksize = min(blocksize, 255)
    return {"blocksize": blocksize, "pad": draw(pads), "int_bytes": width}


def kwargs(p):
    return {"blocksize": p["blocksize"], "pad": bytes([p["pad"]]), "int_bytes": p["int_bytes"]}


def fits(values, p):
    return p["int_bytes"] > 1 or all(len(v) < 256 for v in values)


def pack(is_async, values, p):
    if is_async:
        return sut.run(aiootp.acanonical_pack(*values, **kwargs(p)))
    return aiootp.canonical_pack(*values, **kwargs(p))


def unpack(is_async, data):
    if is_async:
        return sut.run(aiootp.acanonical_unpack(data))
    return aiootp.canonical_unpack(data)


# ------------------------------------------------------------- round trip

variants = st.one_of(
    st.fixed_dictionaries({"op": st.just("none")}),
    st.fixed_dictionaries({"op": st.sampled_from(
        ["move", "move-back", "merge", "split", "swap", "drop", "dup", "append-empty",
         "prepend-empty", "extend", "extend-pad", "cut"]),
        "i": st.integers(0, 5), "n": st.integers(1, 4)}),
)


def vary(values, v, pad):
    values = list(values)
    op = v["op"]
    if op == "append-empty":
        return values + [b""]
    if op == "prepend-empty":
        return [b""] + values
    if op == "none" or not values:
        return values
    i = v["i"] % len(values)
    j = (i + 1) % len(values)
    n = v["n"]
    if op == "move":
        values[i], values[j] = values[i][:-n], values[i][-n:] + values[j] if i != j else values[i]
    elif op == "move-back" and i != j:
        values[i], values[j] = values[i] + values[j][:n], values[j][n:]
    elif op == "merge" and j > i:
        values[i:j + 1] = [values[i] + values[j]]
    elif op == "split":
        values[i:i + 1] = [values[i][:n], values[i][n:]]
    elif op == "swap":
        values[i], values[j] = values[j], values[i]
    elif op == "drop":
        del values[i]
    elif op == "dup":
        values.insert(i, values[i])
    elif op == "extend":
        values[i] += b"\x00" * n
    elif op == "extend-pad":
        values[i] += bytes([pad]) * n
    elif op == "cut":
        values[i] = values[i][:-n]
    return values


pair_cases = st.fixed_dictionaries({
    "items": items, "p": parameters(), "variant": variants,
    "q": st.one_of(st.none(), parameters()), "pack": st.booleans(), "unpack": st.booleans(),
})


def evaluate_pair(case):
    first = [blob(b) for b in case["items"]]
    p = case["p"]
    q = case["q"] or p
    second = vary(first, case["variant"], p["pad"])
    if not fits(first, p) or not fits(second, q):
        raise Discard
    a = pack(case["pack"], first, p)
    b = pack(not case["pack"], second, q)
    for values, data, par in ((first, a, p), (second, b, q)):
        expect(len(data) % par["blocksize"] == 0, "the encoding does not fill its blocks")
        got = unpack(case["unpack"], data)
        expect(list(got) == values, lambda: f"{values!r:.100} unpacked to {list(got)!r:.100}")
        expect(R.canonical_pack(*values, **kwargs(par)) == data,
               "the encoding is not the documented one")
    expect((a == b) == (first == second and p == q), "different inputs have the same encoding")


# ------------------------------------------------------------------ fuzz

edits = st.lists(st.one_of(
    st.fixed_dictionaries({"op": st.just("set"), "at": st.integers(0, 60),
                           "to": st.one_of(st.integers(0, 9), st.integers(0, 255))}),
    st.fixed_dictionaries({"op": st.just("bump"), "at": st.integers(0, 60),
                           "by": st.sampled_from([1, 255, 2, 128])}),
    st.fixed_dictionaries({"op": st.just("cut"), "n": st.integers(1, 40)}),
    st.fixed_dictionaries({"op": st.just("cut-front"), "n": st.integers(1, 9)}),
    st.fixed_dictionaries({"op": st.just("insert"), "at": st.integers(0, 60), "data": S.blobs(1, 9)}),
    st.fixed_dictionaries({"op": st.just("delete"), "at": st.integers(0, 60),
                           "n": st.integers(1, 9)}),
    st.fixed_dictionaries({"op": st.just("append"), "data": S.blobs(1, 20)}),
    st.fixed_dictionaries({"op": st.just("append-pad"), "n": st.integers(1, 200)}),
), min_size=1, max_size=3)


def edit(data, e, pad):
    op = e["op"]
    at = e.get("at", 0) % (len(data) + 1)
    if op == "set" and at < len(data):
        return data[:at] + bytes([e["to"]]) + data[at + 1:]
    if op == "bump" and at < len(data):
        return data[:at] + bytes([(data[at] + e["by"]) % 256]) + data[at + 1:]
    if op == "cut":
        return data[:-e["n"]]
    if op == "cut-front":
        return data[e["n"]:]
    if op == "insert":
        return data[:at] + blob(e["data"]) + data[at:]
    if op == "delete":
        return data[:at] + data[at + e["n"]:]
    if op == "append":
        return data + blob(e["data"])
    if op == "append-pad":
        return data + bytes([pad]) * e["n"]
    return data


mutants = st.fixed_dictionaries({
    "items": items, "p": parameters(), "edits": edits, "is_async": st.booleans(),
})

# byte strings laid out like an encoding, with fields of generated values
numbers = st.one_of(st.integers(0, 6), st.sampled_from(
    [127, 128, 255, 256, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1]))
structured = st.fixed_dictionaries({
    "width": st.one_of(st.integers(1, 3), st.integers(1, 3), st.sampled_from([0, 4, 8, 9, 255])),
    "block": st.one_of(st.just(1), st.just(1), numbers),
    "block_width": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 9)),
    "pad": st.one_of(st.just("00"), st.sampled_from(["", "01", "ff", "0000"])),
    "items": st.lists(st.binary(max_size=4).map(bytes.hex), max_size=3),
    # which number is a lie (0 the count, 1.. the sizes), and what it says
    "lie": st.one_of(st.none(), st.tuples(st.integers(0, 5), numbers).map(list)),
    "tail": st.one_of(st.just(""), st.sampled_from(["00", "0000", "01", "ff", "0001"])),
    "is_async": st.booleans(),
})


def judge(data, is_async):
    try:
        wanted = R.canonical_unpack(data)
    except R.NotCanonical:
        wanted = None
    try:
        got = unpack(is_async, data)
    except ERROR:
        expect(wanted is None, lambda: (
            f"a valid encoding of {wanted!r:.80} is refused: {data.hex()[:80]}"
        ))
        return
    except Exception as error:  # noqa: BLE001
        raise Violation(
            f"refused with {type(error).__name__} instead of the encoding error: "
            f"{data.hex()[:120]}",
        ) from error
    expect(wanted is not None, lambda: (
        f"{data.hex()[:120]} is no encoding, but unpacks to {list(got)!r:.80}"
    ))
    expect(list(got) == wanted, lambda: f"unpacked to {list(got)!r:.80}, not {wanted!r:.80}")


def evaluate_mutant(case):
    values, p = [blob(b) for b in case["items"]], case["p"]
    if not fits(values, p):
        raise Discard
    data = R.canonical_pack(*values, **kwargs(p))
    for e in case["edits"]:
        data = edit(data, e, p["pad"])
    judge(data, case["is_async"])


def layout(case):
    width = case["width"]
    cap = 256**width
    block_width = width if case["block_width"] is None else case["block_width"]
    fields = [(case["block"] % 256**block_width).to_bytes(block_width, "big")]
    fields += [bytes.fromhex(x) for x in (case["pad"], *case["items"])]
    said = [len(fields)] + [len(f) for f in fields]
    if case["lie"]:
        said[case["lie"][0] % len(said)] = case["lie"][1]
    said = [(n % cap).to_bytes(width, "big") for n in said]
    return bytes([width]) + said[0] + b"".join(
        n + f for n, f in zip(said[1:], fields)) + bytes.fromhex(case["tail"])


def evaluate_structured(case):
    judge(layout(case), case["is_async"])


def short_strings(tier):
    """All byte strings of length <= 1, then longer ones over few bytes."""
    yield {"first": "", "alphabet": 256, "length": 0}
    yield {"first": "", "alphabet": 256, "length": 1}
    for first in range(256):
        yield {"first": f"{first:02x}", "alphabet": 256, "length": 1}
    top = 9 if tier == "quick" else 12
    for first in itertools.product(range(3), repeat=2):
        for length in range(top - 2):
            yield {"first": bytes(first).hex(), "alphabet": 3, "length": length}
    for length in range(5 if tier == "quick" else 8):
        # one-byte widths, two metadata items: most of these come far
        yield {"first": "010301", "alphabet": 5, "length": length + 1}
        yield {"first": "0103010101", "alphabet": 5, "length": length + 1}


def evaluate_short(case):
    head = bytes.fromhex(case["first"])
    for tail in itertools.product(range(case["alphabet"]), repeat=case["length"]):
        judge(head + bytes(tail), False)


# ------------------------------------------------------------------ large


def large(tier):
    """Numbers of items and sizes around where a field grows by a byte."""
    for width in (2, 3, 4, 8):
        counts = (1, 62, 63, 64, 126, 253, 254, 255, 256, 257, 300, 1000)
        for count in counts + ((65533,) if width == 2 else (65533, 65534, 65537)):
            for size in (0, 1, 5) if count < 2000 else (0,):
                yield {"count": count, "size": size, "width": width, "is_async": bool(count & 1)}
        sizes = (4095, 4096, 32767, 32768, 65535)
        for size in sizes + ((65536, 65537, 2**17 + 1, 2**20, 2**20 + 1) if width > 2 else ()):
            for count in (1, 3):
                yield {"count": count, "size": size, "width": width, "is_async": bool(size & 1)}
    for count in (100, 252, 253):
        yield {"count": count, "size": 255, "width": 1, "is_async": bool(count & 1)}


def evaluate_large(case):
    count, size, width = case["count"], case["size"], case["width"]
    values = [(bytes([i % 251]) * size) for i in range(count - 1)] + [blob({"s": [count, size]})]
    seen = {}
    p = {"blocksize": 1 + size % 7, "pad": 0, "int_bytes": width}
    others = [values, values[:-1], values[1:], [*values[:-1], values[-1] + b"\0"], [*values[:-1], values[-1][:-1]],
              [*values[:-1], values[-1][:1]]]
    for other in others if count < 2000 else others[:2]:
        if width == 1 and any(len(v) > 255 for v in other):
            continue
        if width == 2 and (len(other) + 2 > 65535 or any(len(v) > 65535 for v in other)):
            continue
        data = pack(case["is_async"], other, p)
        expect(data == R.canonical_pack(*other, **kwargs(p)), lambda: (
            f"the encoding of {len(other)} items, the last of {len(other[-1:] and other[-1])} bytes, is not the "
            "documented one"))
        expect(seen.setdefault(data, other) == other, "different inputs have the same encoding")
        got = unpack(not case["is_async"], data)
        expect(list(got) == other, lambda: f"{len(other)} items unpacked to {len(got)} other ones")
    judge(data[:-1 - case["size"] % 3], case["is_async"])
    judge(data + b"\1" * p["blocksize"], case["is_async"])


def accepted(case, data):
    try:
        R.canonical_unpack(data)
    except R.NotCanonical:
        return "no encoding"
    return "an encoding"


def mutant_labels(case):
    data = R.canonical_pack(*map(blob, case["items"]), **kwargs(case["p"]))
    for e in case["edits"]:
        data = edit(data, e, case["p"]["pad"])
    yield accepted(case, data)
    for e in case["edits"]:
        yield e["op"]


def pair_labels(case):
    yield f"variant {case['variant']['op']}"
    yield f"{len(case['items'])} items"
    if case["q"] not in (None, case["p"]):
        yield "other parameters"


PARTS = [
    Sweep("short-strings", short_strings, evaluate_short,
          nontrivial=lambda c: bool(c["first"]) or c["length"]),
    Sweep("large", large, evaluate_large),
    Part("pairs", pair_cases, evaluate_pair, 1500,
         nontrivial=lambda c: bool(c["items"]), labels=pair_labels),
    Part("mutants", mutants, evaluate_mutant, 3000, labels=mutant_labels),
    Part("structured", structured, evaluate_structured, 2500,
         labels=lambda c: [accepted(c, layout(c))]),
]
