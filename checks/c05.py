"""C05: stream blocks are authenticated in order; refusals change nothing."""

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib.ciph import CIPHERS, buffer, call, drain, finalize, open_stream
from lib.harness import Part, Sweep, Violation, expect
from lib.strategies import blob

TECHNIQUE = (
    "stateful property-based testing: generated histories of genuine "
    "and bad packets against a model of the next expected block"
)
RULE = (
    "a case is a history of genuine and bad packets offered to a decrypting "
    "stream; non-trivial when at least one bad packet was offered or the "
    "message was ended early. Distinct by the whole case."
)

BAD = st.one_of(
    st.fixed_dictionaries({"kind": st.just("flip"), "at": st.integers(0, 287),
                           "mask": st.integers(1, 255)}),
    st.fixed_dictionaries({"kind": st.just("replay"), "back": st.integers(0, 5)}),
    st.fixed_dictionaries({"kind": st.just("future"), "ahead": st.integers(1, 5)}),
    st.fixed_dictionaries({"kind": st.just("foreign"), "i": st.integers(0, 5)}),
    st.fixed_dictionaries({"kind": st.just("foreign-id"), "i": st.integers(0, 5)}),
    st.fixed_dictionaries({"kind": st.just("foreign-block"), "i": st.integers(0, 5)}),
    st.fixed_dictionaries({"kind": st.just("noise"), "seed": st.integers(0, 99)}),
    st.fixed_dictionaries({"kind": st.just("zeros")}),
    st.fixed_dictionaries({"kind": st.just("cut"), "n": st.integers(1, 279)}),
    st.fixed_dictionaries({"kind": st.just("extend"), "n": st.integers(1, 279)}),
    st.fixed_dictionaries({"kind": st.just("empty")}),
)

OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("good"), "n": st.integers(1, 3)}),
    st.fixed_dictionaries({"op": st.just("bad"), "bad": BAD}),
    st.fixed_dictionaries({"op": st.just("bad"), "bad": BAD}),
    st.fixed_dictionaries({"op": st.just("mixed"), "n": st.integers(1, 3), "bad": BAD,
                           "after": st.integers(0, 2)}),
    st.fixed_dictionaries({"op": st.just("iterate")}),
    st.fixed_dictionaries({"op": st.just("test-id"), "bad": st.one_of(st.none(), BAD),
                           "size": st.sampled_from([16, 17, 24, 31, 32, 15, 33]),
                           "aad": S.blobs(0, 12), "other_aad": st.booleans()}),
)


def cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "key": S.keys, "aad": S.aads,
        "data": S.payloads(name, 6), "other": S.payloads(name, 4),
        "same_salt": st.booleans(),
        "ops": st.lists(OPS, max_size=8),
        "end": st.sampled_from(["finish", "finish", "finish", "cut", "overrun"]),
        "is_async": st.booleans(), "enc": st.booleans(),
    })


def seal(cipher, is_async, data, aad, salt):
    stream = open_stream(cipher, "stream_encrypt", is_async, salt=salt, aad=aad)
    buffer(stream, is_async, data)
    packets = drain(stream, is_async) + finalize(stream, is_async)
    return stream, packets


def bad_packet(bad, nxt, packets, foreign):
    """A packet (id, block) that is not the next genuine one, or None."""
    kind = bad["kind"]
    good_id, good = packets[min(nxt, len(packets) - 1)]
    whole = good_id + good
    if kind == "flip":
        i = bad["at"] % len(whole)
        whole = whole[:i] + bytes([whole[i] ^ bad["mask"]]) + whole[i + 1:]
    elif kind == "replay":
        if not nxt:
            return None
        whole = b"".join(packets[(nxt - 1 - bad["back"]) % nxt])
    elif kind == "future":
        if nxt + bad["ahead"] >= len(packets):
            return None
        whole = b"".join(packets[nxt + bad["ahead"]])
    elif kind.startswith("foreign"):
        fid, fblock = foreign[bad["i"] % len(foreign)]
        whole = {
            "foreign": fid + fblock, "foreign-id": fid + good,
            "foreign-block": good_id + fblock,
        }[kind]
    elif kind == "noise":
        whole = blob({"s": [bad["seed"], len(whole)]})
    elif kind == "zeros":
        whole = bytes(len(whole))
    elif kind == "cut":
        whole = whole[:max(0, len(whole) - bad["n"])]
    elif kind == "extend":
        # (a whole further packet would be judged on its own)
        whole += bytes(bad["n"] % len(whole) or 1)
    elif kind == "empty":
        whole = b""
    if nxt < len(packets) and whole == b"".join(packets[nxt]):
        return None
    return whole


def refuse(what, call_it):
    try:
        call_it()
    except Exception as error:  # noqa: BLE001
        return error
    raise Violation(f"{what} was accepted")


def evaluate(case):
    name, aad, is_async = case["cipher"], blob(case["aad"]), case["is_async"]
    cipher = CIPHERS[name](blob(case["key"]))
    data = blob(case["data"])
    salt = b"one salt" if case["same_salt"] else None
    writer, packets = seal(cipher, case["enc"], data, aad, salt)
    _, foreign = seal(cipher, not case["enc"], blob(case["other"]), aad, salt)
    tag = writer.shmac.result
    size = len(b"".join(packets[0]))
    reader = open_stream(
        cipher, "stream_decrypt", is_async, salt=writer.salt, aad=aad, iv=writer.iv,
    )
    nxt, out = 0, []

    def check_prefix():
        got = b"".join(out)
        expect(data.startswith(got), "plaintext came out that is not the message's")

    for op in case["ops"]:
        if op["op"] == "good":
            group = packets[nxt:nxt + op["n"]]
            if group:
                buffer(reader, is_async, b"".join(i + b for i, b in group))
                nxt += len(group)
        elif op["op"] == "bad":
            bad = bad_packet(op["bad"], nxt, packets, foreign)
            if bad is not None:
                refuse(f"a bad packet ({op['bad']['kind']})",
                       lambda: buffer(reader, is_async, bad))
        elif op["op"] == "mixed":
            group = packets[nxt:nxt + op["n"]]
            bad = bad_packet(op["bad"], nxt + len(group), packets, foreign)
            if group and bad:
                after = packets[nxt + len(group):][:op["after"]]
                sent = b"".join(i + b for i, b in group) + bad + b"".join(
                    i + b for i, b in after)
                refuse(f"a bad packet ({op['bad']['kind']}) after good ones",
                       lambda: buffer(reader, is_async, sent))
                if len(sent) % size == 0:
                    nxt += len(group)
        elif op["op"] == "iterate":
            if nxt:
                out += drain(reader, is_async)
                check_prefix()
        elif nxt < len(packets):
            test_id(case, op, reader, packets, foreign, nxt, is_async)

    if case["end"] == "cut" and nxt < len(packets):
        if nxt:
            try:
                out += finalize(reader, is_async)
            except Exception:  # noqa: BLE001, S110
                pass
            refuse("a message cut short",
                   lambda: call(reader.shmac, "test_shmac", is_async, tag))
        return
    for bid, block in packets[nxt:]:
        buffer(reader, is_async, bid + block)
        out += drain(reader, is_async)
    check_prefix()
    if case["end"] == "overrun":
        for extra in (foreign[-1], packets[-1], packets[0]):
            refuse("a packet after the last one",
                   lambda: buffer(reader, is_async, b"".join(extra)))
    out += finalize(reader, is_async)
    expect(b"".join(out) == data, lambda: (
        f"after refusals {len(data)} bytes came out as {len(b''.join(out))} other bytes"
    ))
    refuse("a wrong final tag", lambda: call(
        reader.shmac, "test_shmac", is_async, tag[:-1] + bytes([tag[-1] ^ 1])))
    call(reader.shmac, "test_shmac", is_async, tag)


def test_id(case, op, reader, packets, foreign, nxt, is_async):
    """The tag object's own block-identifier interface."""
    block, aad, size = packets[nxt][1], blob(op["aad"]), op["size"]
    if not 16 <= size <= 32:
        refuse(f"a block identifier of {size} bytes", lambda: call(
            reader.shmac, "next_block_id", is_async, block, size=size, aad=aad))
        return
    good = call(reader.shmac, "next_block_id", is_async, block, size=size, aad=aad)
    expect(len(good) == size, "a block identifier has another size than asked for")
    call(reader.shmac, "test_next_block_id", is_async, good, block, aad)
    for short in range(16, size):
        refuse("the beginning of a block identifier", lambda: call(
            reader.shmac, "test_next_block_id", is_async, good[:short], block, aad))
    # bytes moved between the block and its associated data
    for n in (1, len(aad)):
        if n <= len(aad) and n:
            refuse("a block identifier for other data and another block", lambda: call(
                reader.shmac, "test_next_block_id", is_async, good, aad[-n:] + block, aad[:-n]))
    for n in (1, len(block) - 1, len(block)):
        refuse("a block identifier for other data and another block", lambda: call(
            reader.shmac, "test_next_block_id", is_async, good, block[n:], aad + block[:n]))
    for at in {0, len(aad) // 2, len(aad) - 1} if aad else ():
        refuse("a block identifier for other data", lambda: call(
            reader.shmac, "test_next_block_id", is_async, good, block, flipped(aad, at)))
    for at in {0, len(block) // 2, len(block) - 1}:
        refuse("a block identifier for another block", lambda: call(
            reader.shmac, "test_next_block_id", is_async, good, flipped(block, at), aad))
    if op["other_aad"]:
        refuse("a block identifier for other data", lambda: call(
            reader.shmac, "test_next_block_id", is_async, good, block, aad + b"\0"))
    if op["bad"] is not None:
        bad = bad_packet(op["bad"], nxt, packets, foreign)
        n = R.spec(case["cipher"]).block_id
        if bad is not None and bad[n:] != block:
            refuse("an identifier for another block", lambda: call(
                reader.shmac, "test_next_block_id", is_async, good, bad[n:], aad))


def flipped(data, at):
    return data[:at] + bytes([data[at] ^ 1 << at % 8]) + data[at + 1:]


def far(tier):
    """Bad packets late in long messages, and long associated data."""
    for name in S.CIPHERS:
        s = R.spec(name)
        for blocks in (200, 255, 256, 257, 300) + ((1100,) if tier == "thorough" else ()):
            for at, bad in enumerate(({"kind": "flip", "at": 7, "mask": 1}, {"kind": "flip", "at": s.block + s.block_id - 1, "mask": 128},
                                      {"kind": "replay", "back": 0}, {"kind": "replay", "back": 255}, {"kind": "future", "ahead": 1},
                                      {"kind": "foreign-block", "i": 3}, {"kind": "cut", "n": 1})):
                yield {
                    "cipher": name, "key": {"s": [3, 64]}, "aad": {"h": ""}, "data": {"s": [4, (blocks + 3) * s.block]},
                    "other": {"s": [5, 5 * s.block]}, "same_salt": True, "ops": [
                        {"op": "good", "n": blocks}, {"op": "bad", "bad": bad}, {"op": "mixed", "n": 1, "bad": bad, "after": 1}, {"op": "iterate"}],
                    "end": ["finish", "cut", "overrun"][at % 3], "is_async": bool(at & 1), "enc": bool(at & 2),
                }
        for size in (15, 16, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 70000):
            for is_async in (False, True):
                yield {
                    "cipher": name, "key": {"s": [3, 64]}, "aad": {"s": [1, size]}, "data": {"s": [4, 2 * s.block]}, "other": {"h": ""},
                    "same_salt": False, "ops": [{"op": "test-id", "bad": None, "size": 16 + size % 17, "aad": {"s": [size, size]}, "other_aad": True}] * 2 + [
                        {"op": "good", "n": 1}, {"op": "test-id", "bad": {"kind": "noise", "seed": 1}, "size": 24, "aad": {"s": [1, size]}, "other_aad": True}],
                    "end": "finish", "is_async": is_async, "enc": False,
                }


def identifiers(tier):
    """Identifiers of things which aren't of the size of a block."""
    for name in S.CIPHERS:
        for size in (0, 1, 31, 32, 33, 64, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 4096, 5000, 65536, 70000):
            for is_async in (False, True):
                yield {"cipher": name, "size": size, "is_async": is_async}


def evaluate_identifiers(case):
    cipher, is_async = CIPHERS[case["cipher"]](bytes(range(64))), case["is_async"]
    writer, packets = seal(cipher, is_async, b"some text", b"aad", None)
    reader = open_stream(cipher, "stream_decrypt", is_async, salt=writer.salt, aad=b"aad", iv=writer.iv)
    block = blob({"s": [case["size"], case["size"]]})
    good = call(reader.shmac, "next_block_id", is_async, block)
    call(reader.shmac, "test_next_block_id", is_async, good, block)
    others = [block + b"\0", block[:-1], b"\0" + block, *(flipped(block, at) for at in {0, len(block) // 3, len(block) - 1} if block)]
    for other in others:
        if other != block:
            refuse(f"the identifier of {len(block)} other bytes", lambda: call(reader.shmac, "test_next_block_id", is_async, good, other))
    buffer(reader, is_async, b"".join(i + b for i, b in packets))
    out = b"".join(drain(reader, is_async) + finalize(reader, is_async))
    expect(out == b"some text", "asking for identifiers changes what comes out")


def positions(tier):
    """Every byte of a packet, in the first and in a later position."""
    for name in S.CIPHERS:
        s = R.spec(name)
        step = 1 if name == "Slick256" or tier == "thorough" else 3
        for at in range(0, s.block + s.block_id, step):
            for nxt in (0, 1):
                ops = [{"op": "good", "n": 1}] * nxt + [
                    {"op": "bad", "bad": {"kind": "flip", "at": at, "mask": 1 << at % 8}},
                ]
                yield {
                    "cipher": name, "key": {"s": [3, 64]}, "aad": {"h": ""},
                    "data": {"s": [4, s.block]}, "other": {"h": ""}, "same_salt": False,
                    "ops": ops, "end": "finish", "is_async": bool(at & 1),
                    "enc": bool(nxt),
                }


def nontrivial(case):
    return case["end"] != "finish" or any(
        o["op"] in ("bad", "mixed", "test-id") for o in case["ops"])


def labels(case):
    yield f"end={case['end']} {'async' if case['is_async'] else 'sync'}"
    for o in case["ops"]:
        yield f"{o['op']} {o['bad']['kind']}" if o.get("bad") else o["op"]


PARTS = [
    Sweep("every-position", positions, evaluate, nontrivial, labels),
    Sweep("far", far, evaluate, nontrivial, labels),
    Sweep("identifiers", identifiers, evaluate_identifiers),
    Part("chunky", cases("Chunky2048"), evaluate, 500, nontrivial=nontrivial, labels=labels),
    Part("slick", cases("Slick256"), evaluate, 700, nontrivial=nontrivial, labels=labels),
]
