"""C03: ciphertexts match the documented construction byte for byte."""

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import CIPHERS, buffer, call, drain, finalize, open_stream
from lib.harness import Part, Sweep, expect
from lib.strategies import blob

TECHNIQUE = (
    "property-based differential testing against an independent "
    "reference implementation of the construction, both directions"
)
RULE = (
    "a case is one message with all inputs of the construction, checked in "
    "both directions against the reference implementation; every case is "
    "non-trivial (it compares at least one full ciphertext). Distinct by the "
    "whole case."
)
ASSUMPTIONS = (
    "hashlib's SHAKE-128 is correct; the reference in lib/refmodel.py is the "
    "documented construction (it reproduces the repository's published vectors)",
)

timestamps = st.one_of(
    st.integers(0, 2**32 - 1), st.sampled_from([0, 1, 2**31, 2**32 - 1, 10**8]),
)


def cases(name):
    s = R.spec(name)
    return st.fixed_dictionaries({
        "cipher": st.just(name), "key": S.keys, "salt": S.salts, "iv": S.ivs,
        "aad": S.aads, "data": S.payloads(name), "timestamp": timestamps,
        "siv": S.sized_blobs(st.just(s.siv)), "filler": S.blobs(1, 40),
        "frac": st.integers(0, 10**9 - 1),
        "enc": st.booleans(), "dec": st.booleans(),
        "via": st.sampled_from(["bytes", "bytes", "stream"]),
        "id_size": st.sampled_from([16, 17, 24, 31, 32]),
        "id_aad": S.blobs(0, 20),
    })


def evaluate(case):
    name, s = case["cipher"], R.spec(case["cipher"])
    key, salt, aad, data = (blob(case[k]) for k in ("key", "salt", "aad", "data"))
    cipher = CIPHERS[name](key)
    now = (R.EPOCH_S + case["timestamp"]) * 10**9 + case["frac"]

    # what the library makes is what the construction defines
    sut.wall.freeze(now)
    try:
        if case["via"] == "bytes":
            made = call(cipher, "bytes_encrypt", case["enc"], data, salt=salt, aad=aad)
        else:
            stream = open_stream(cipher, "stream_encrypt", case["enc"], salt=salt, aad=aad)
            buffer(stream, case["enc"], data)
            packets = drain(stream, case["enc"]) + finalize(stream, case["enc"])
            made = (
                stream.shmac.result + stream.salt + stream.iv
                + b"".join(block for _, block in packets)
            )
    finally:
        sut.wall.real()
    expect(made[s.tag:s.tag + 8] == salt, "the given salt is not in its place")
    iv = made[s.tag + 8:s.tag + 16]
    padded, genuine = R.decrypt(name, key, aad, made)
    expect(genuine, "the reference does not authenticate the library's ciphertext")
    expect(padded[:4] == R.be(case["timestamp"], 4), lambda: (
        f"the header holds timestamp {padded[:4].hex()}, not the time of encryption"
    ))
    expect(R.unpad(name, padded) == data, "the reference recovers another plaintext")
    blocks, tag = R.encrypt_blocks(name, key, salt, aad, iv, padded)
    again = tag + salt + iv + b"".join(b for _, b in blocks)
    expect(again == made, "the reference makes another ciphertext of the same inputs")
    if case["via"] == "stream":
        expect([i for i, _ in blocks] == [i for i, _ in packets],
               "the stream's block identifiers are not those of the construction")

    # what the construction defines opens in the library
    iv = blob(case["iv"])
    padded = R.pad_plaintext(name, data, case["timestamp"], blob(case["siv"]), blob(case["filler"]))
    blocks, tag = R.encrypt_blocks(name, key, salt, aad, iv, padded)
    foreign = tag + salt + iv + b"".join(b for _, b in blocks)
    got = call(cipher, "bytes_decrypt", case["dec"], foreign, aad=aad)
    expect(got == data, "a ciphertext of the reference opens to other data")
    if case["via"] == "stream":
        session = R.Session(name, key, salt, aad, iv)
        stream = open_stream(cipher, "stream_decrypt", case["dec"], salt=salt, aad=aad, iv=iv)
        out = []
        for bid, block in blocks:
            custom = call(stream.shmac, "next_block_id", case["dec"], block,
                          size=case["id_size"], aad=blob(case["id_aad"]))
            expect(
                custom == session.block_id(
                    block, case["id_size"], blob(case["id_aad"]), before=True),
                "a block identifier is not the one the construction defines",
            )
            buffer(stream, case["dec"], bid + block)
            out += drain(stream, case["dec"])
            session.transform(block, False)
        out += finalize(stream, case["dec"])
        expect(b"".join(out) == data, "a stream of the reference opens to other data")
        call(stream.shmac, "test_shmac", case["dec"], tag)


def residues(tier):
    """Every payload length modulo the block, both ciphers."""
    for name, (block, _) in S.GEOMETRY.items():
        for n in range(0, block + 3 if tier == "quick" else 4 * block):
            yield {
                "cipher": name, "key": {"s": [n, 64 + n % 120]}, "salt": {"s": [n, 8]},
                "iv": {"s": [n + 1, 8]}, "aad": {"s": [n, n % 200]},
                "data": {"s": [n, n]}, "timestamp": n * 977, "frac": n,
                "siv": {"s": [n, R.spec(name).siv]}, "filler": {"s": [n, 9]},
                "enc": bool(n % 2), "dec": bool(n // 2 % 2),
                "via": "stream" if n % 3 == 0 else "bytes",
                "id_size": 16 + n % 17, "id_aad": {"h": ""},
            }


def large(tier):
    """Long associated data, keys and payloads, of sizes around powers of two."""
    sizes = [255, 256, 257, 65535, 65536, 65537, 10**5] + [2**24, 2**24 + 1] * (tier == "thorough")
    for name in S.GEOMETRY:
        for turn, field in enumerate(("aad", "key", "data", "id_aad")):
            for n, size in enumerate(sizes):
                if field == "data" and size > 65537:
                    continue
                yield {
                    "cipher": name, "key": {"s": [n, 64]}, "salt": {"s": [n, 8]}, "iv": {"s": [n + 1, 8]},
                    "aad": {"s": [n, 5]}, "data": {"s": [n, 40]}, "timestamp": n * 977, "frac": n,
                    "siv": {"s": [n, R.spec(name).siv]}, "filler": {"s": [n, 9]},
                    "enc": bool((n + turn) % 2), "dec": bool((n + turn) // 2 % 2),
                    "via": "stream" if (n + turn) % 3 == 0 or field == "id_aad" else "bytes",
                    "id_size": 16 + n % 17, "id_aad": {"h": ""}, field: {"s": [n, size]},
                }


def labels(case):
    yield f"{case['via']} enc={'a' if case['enc'] else 's'} dec={'a' if case['dec'] else 's'}"
    yield f"blocks={R.ciphertext_size(case['cipher'], len(blob(case['data']))) // R.spec(case['cipher']).block}"


PARTS = [
    Sweep("every-residue", residues, evaluate, labels=labels),
    Sweep("large", large, evaluate, labels=labels),
    Part("chunky", cases("Chunky2048"), evaluate, 700, labels=labels),
    Part("slick", cases("Slick256"), evaluate, 600, labels=labels),
]
