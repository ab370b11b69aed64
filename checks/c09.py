"""C09: ciphertext size reveals nothing but the padded length."""

import json

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import CIPHERS, buffer, call, drain, finalize, open_stream
from lib.harness import Part, Sweep, expect
from lib.strategies import blob

TECHNIQUE = (
    "property-based testing: every payload length over several blocks and "
    "generated contents, keys, salts and associated data against the size "
    "arithmetic; round trip of the padding for generated endings"
)
RULE = (
    "a case is one payload sealed through one interface, or one payload padded "
    "and unpadded; every case is non-trivial, distinct by the whole case."
)
HOWS = ("bytes", "token", "stream", "json")


def cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "key": S.keys, "salt": st.one_of(st.none(), S.salts),
        "aad": S.aads, "data": S.payloads(name, 9), "how": st.sampled_from(HOWS),
        "is_async": st.booleans(),
        "chunks": st.lists(st.integers(0, 700), max_size=4),
    })


def evaluate(case):
    name, aad, data = case["cipher"], blob(case["aad"]), blob(case["data"])
    salt = None if case["salt"] is None else blob(case["salt"])
    is_async, how = case["is_async"], case["how"]
    cipher = CIPHERS[name](blob(case["key"]))
    s = R.spec(name)
    size = len(data)
    if how == "json":
        value = data.hex()
        size = len(json.dumps(value).encode())
        got = len(call(cipher, "json_encrypt", is_async, value, salt=salt, aad=aad))
    elif how == "token":
        token = call(cipher, "make_token", is_async, data, aad=aad)
        raw = R.ciphertext_size(name, size)
        expect(len(token) == -(-raw * 4 // 3), lambda: (
            f"a token of {size} bytes has {len(token)} characters for {raw} bytes"
        ))
        return
    elif how == "stream":
        stream = open_stream(cipher, "stream_encrypt", is_async, salt=salt, aad=aad)
        packets, rest = [], data
        for n in case["chunks"]:
            buffer(stream, is_async, rest[:n])
            rest = rest[n:]
            packets += drain(stream, is_async)
        buffer(stream, is_async, rest)
        packets += drain(stream, is_async) + finalize(stream, is_async)
        expect(all(len(b) == s.block and len(i) == s.block_id for i, b in packets),
               "a packet has another size")
        got = s.overhead + sum(len(b) for _, b in packets)
    else:
        got = len(call(cipher, "bytes_encrypt", is_async, data, salt=salt, aad=aad))
    wanted = R.ciphertext_size(name, size)
    expect(got == wanted, lambda: (
        f"{how}: a payload of {size} bytes became {got} bytes instead of {wanted}"
    ))


def every_length(tier):
    blocks = 4 if tier == "quick" else 12
    for name in S.CIPHERS:
        block = R.spec(name).block
        for size in range(blocks * block + 2):
            how = HOWS[size % 3]
            yield {
                "cipher": name, "key": {"s": [size % 7, 64]}, "salt": None,
                "aad": {"h": ""}, "data": {"s": [size, size]}, "how": "bytes",
                "is_async": bool(size & 1), "chunks": [],
            }
            yield {
                "cipher": name, "key": {"s": [size % 7, 64]}, "salt": None,
                "aad": {"h": ""}, "data": {"r": [size % 256, size]}, "how": how,
                "is_async": not size & 1, "chunks": [size // 2, 1],
            }


# ---------------------------------------------------------------- padding


def padding_cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "data": S.payloads(name, 3),
        "end": st.one_of(st.just({"h": ""}), S.blobs(1, 3)),
        "pad": st.booleans(), "depad": st.booleans(),
    })


def evaluate_padding(case):
    name, data = case["cipher"], blob(case["data"]) + blob(case["end"])
    padding = CIPHERS[name](b"k" * 64)._padding
    s = R.spec(name)
    padded = call(padding, "pad_plaintext", case["pad"], data)
    expect(len(padded) % s.block == 0, "padding does not fill whole blocks")
    expect(len(padded) + s.overhead == R.ciphertext_size(name, len(data)),
           lambda: f"{len(data)} bytes padded to {len(padded)}")
    got = call(padding, "depad_plaintext", case["depad"], padded)
    expect(got == data, lambda: f"{len(data)} bytes unpadded to {len(got)} other bytes")


def every_ending(tier):
    """Each value of the last byte with each residue of the length."""
    for name in S.CIPHERS:
        block = R.spec(name).block
        step = 1 if block == 32 else (16 if tier == "quick" else 3)
        for last in range(0, 256, 1 if block == 32 else 5):
            for size in range(last % step, block + 1, step):
                yield {
                    "cipher": name, "data": {"r": [last, size]}, "end": {"h": f"{last:02x}"},
                    "pad": bool(size & 1), "depad": bool(last & 1),
                }


def large(tier):
    """Sizes around powers of two, and those which fill the last block exactly."""
    for name in S.CIPHERS:
        block, header = S.GEOMETRY[name]
        for power in range(10, 22 if tier == "quick" else 24):
            full = (1 << power) // block * block - header
            sizes = {(1 << power) + d for d in (-1, 0, 1)}
            sizes |= {full + d for d in (-1, 0, 1)} | {full + block + d for d in (-1, 0, 1)}
            for size in sorted(sizes):
                yield {
                    "cipher": name, "data": {"s": [size % 997, size]}, "end": {"h": ""},
                    "pad": bool(size & 1), "depad": bool(size & 2),
                }


def large_sealed(tier):
    for name in S.CIPHERS:
        block, header = S.GEOMETRY[name]
        top = (20 if block > 32 else 17) + (2 if tier == "thorough" else 0)
        for power in range(12, top + 1):
            full = (1 << power) // block * block - header
            for size in (full - 1, full, full + 1, full + block):
                yield {
                    "cipher": name, "key": {"s": [power, 64]}, "salt": None, "aad": {"h": ""},
                    "data": {"s": [size % 997, size]}, "how": HOWS[(size + power) % 3],
                    "is_async": bool(size & 1), "chunks": [size // 2, 1],
                }


def labels(case):
    yield f"{case['how']} {'async' if case['is_async'] else 'sync'}"


PARTS = [
    Sweep("every-length", every_length, evaluate, labels=labels),
    Sweep("every-ending", every_ending, evaluate_padding),
    Sweep("large", large, evaluate_padding),
    Sweep("large-sealed", large_sealed, evaluate, labels=labels),
    Part("chunky", cases("Chunky2048"), evaluate, 300, labels=labels),
    Part("slick", cases("Slick256"), evaluate, 400, labels=labels),
    Part("chunky-padding", padding_cases("Chunky2048"), evaluate_padding, 300),
    Part("slick-padding", padding_cases("Slick256"), evaluate_padding, 300),
]
