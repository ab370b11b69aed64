"""C04: streaming in any chunking equals one-shot (de|en)cryption."""

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import CIPHERS, buffer, call, drain, finalize, open_stream
from lib.harness import Part, Sweep, expect
from lib.strategies import blob

TECHNIQUE = (
    "property-based metamorphic testing: generated chunkings and "
    "interleavings against one-shot encryption and the reference "
    "implementation"
)
RULE = (
    "a case is a message cut into chunks with an interleaving of buffering "
    "and iterating on both sides; non-trivial when the message spans at least "
    "two blocks or at least two chunks were buffered. Distinct by the case."
)

takes = st.one_of(st.just(-1), st.just(-1), st.just(0), st.integers(1, 3))


def chunk_sizes(block, header):
    return st.one_of(
        st.integers(0, 5), S.near([block - header, block, 2 * block, 3 * block]),
        st.integers(0, 2 * block), st.just(0),
    )


def cases(name):
    block, header = S.GEOMETRY[name]
    return st.fixed_dictionaries({
        "cipher": st.just(name), "key": S.keys, "salt": st.one_of(st.none(), S.salts),
        "aad": S.aads,
        "chunks": st.lists(
            st.tuples(S.sized_blobs(chunk_sizes(block, header)), takes).map(list),
            max_size=7,
        ),
        "groups": st.lists(
            st.tuples(st.integers(1, 4), takes).map(list), max_size=6,
        ),
        "enc": st.booleans(), "dec": st.booleans(),
    })


def take(stream, is_async, count):
    """Iterates the stream: everything (-1), or `count` items."""
    if count == 0:
        return []
    if count < 0:
        return drain(stream, is_async)
    if is_async:
        async def some():
            out = []
            agen = stream.__aiter__()
            while len(out) < count:
                try:
                    out.append(await agen.__anext__())
                except StopAsyncIteration:
                    break
            await agen.aclose()
            return out

        return sut.run(some())
    out = []
    generator = iter(stream)
    for item in generator:
        out.append(item)
        if len(out) == count:
            break
    generator.close()
    return out


def evaluate(case):
    name, s = case["cipher"], R.spec(case["cipher"])
    key, aad = blob(case["key"]), blob(case["aad"])
    salt = case["salt"] and blob(case["salt"])
    cipher = CIPHERS[name](key)
    plaintext = b"".join(blob(c) for c, _ in case["chunks"])

    stream = open_stream(cipher, "stream_encrypt", case["enc"], salt=salt, aad=aad)
    packets = []
    for chunk, count in case["chunks"]:
        buffer(stream, case["enc"], blob(chunk))
        packets += take(stream, case["enc"], count)
    packets += finalize(stream, case["enc"])
    tag = stream.shmac.result
    expect(salt is None or stream.salt == salt, "the stream has another salt")
    sealed = tag + stream.salt + stream.iv + b"".join(b for _, b in packets)
    expect(
        len(sealed) == R.ciphertext_size(name, len(plaintext)),
        lambda: f"{len(plaintext)} bytes streamed into {len(sealed)}",
    )
    expect(all(len(b) == s.block and len(i) == s.block_id for i, b in packets),
           "the stream emitted a block or identifier of another size")
    padded, genuine = R.decrypt(name, key, aad, sealed)
    expect(genuine, "the assembled stream is not an authentic ciphertext")
    expect(R.unpad(name, padded) == plaintext, "the stream encrypted other data")
    got = call(cipher, "bytes_decrypt", not case["dec"], sealed, aad=aad)
    expect(got == plaintext, "one-shot decryption of the stream gives other data")

    # the other direction: a one-shot ciphertext, streamed in
    single = call(cipher, "bytes_encrypt", not case["enc"], plaintext, salt=salt, aad=aad)
    ids = R.Session(name, key, single[s.tag:s.tag + 8], aad, single[s.tag + 8:s.overhead])
    pairs = []
    for block in R.split(single[s.overhead:], s.block):
        pairs.append((ids.block_id(block, before=True), block))
        ids.transform(block, False)
    for source, source_tag, head in (
        (packets, tag, (stream.salt, stream.iv)),
        (pairs, single[:s.tag], (single[s.tag:s.tag + 8], single[s.tag + 8:s.overhead])),
    ):
        reader = open_stream(
            cipher, "stream_decrypt", case["dec"], salt=head[0], aad=aad, iv=head[1],
        )
        left, out, groups = list(source), [], list(case["groups"])
        while left:
            size, count = groups.pop(0) if groups else (len(left), -1)
            group, left = left[:size], left[size:]
            buffer(reader, case["dec"], b"".join(i + b for i, b in group))
            out += take(reader, case["dec"], count)
        out += finalize(reader, case["dec"])
        expect(b"".join(out) == plaintext, lambda: (
            f"{len(plaintext)} bytes were streamed back as {len(b''.join(out))} other bytes"
        ))
        call(reader.shmac, "test_shmac", case["dec"], source_tag)


def two_chunks(tier):
    """All cuts of a two-block message into two chunks (small cipher)."""
    name = "Slick256"
    top = 52 if tier == "quick" else 116
    for size in (19, 20, 21, 51, 52, top):
        for cut in range(size + 1):
            yield {
                "cipher": name, "key": {"s": [size, 64]}, "salt": None, "aad": {"h": ""},
                "chunks": [[{"s": [1, cut]}, cut % 3 - 1], [{"s": [2, size - cut]}, cut % 2 - 1]],
                "groups": [[1 + cut % 2, cut % 3 - 1]],
                "enc": bool(cut & 1), "dec": bool(cut & 2),
            }
    for size in (235, 236, 237, 492):
        for cut in range(0, size + 1, 7 if tier == "quick" else 1):
            yield {
                "cipher": "Chunky2048", "key": {"s": [size, 64]}, "salt": None,
                "aad": {"h": ""},
                "chunks": [[{"s": [1, cut]}, cut % 3 - 1], [{"s": [2, size - cut]}, -1]],
                "groups": [[1, -1]], "enc": bool(cut & 1), "dec": bool(cut & 2),
            }


def large(tier):
    """Long messages whose chunks meet, or just miss, block fills."""
    for name, (block, header) in S.GEOMETRY.items():
        for power in (13, 15, 16) if block > 32 else (10, 12, 13):
            size = 1 << power
            for first in (size - header - 1, size - header, size - header + 1, size - 1, size, size + 1):
                for second in (0, 1, block, size):
                    yield {
                        "cipher": name, "key": {"s": [power, 64]}, "salt": None, "aad": {"h": ""},
                        "chunks": [[{"s": [first % 997, first]}, first % 3 - 1], [{"s": [1, second]}, -1]],
                        "groups": [[1 + size // block // 2, -1], [1, second % 3 - 1]],
                        "enc": bool(first & 1), "dec": bool(first & 2),
                    }


def nontrivial(case):
    total = sum(len(blob(c)) for c, _ in case["chunks"])
    block, header = S.GEOMETRY[case["cipher"]]
    return len(case["chunks"]) > 1 or header + total >= block


def labels(case):
    yield f"chunks={len(case['chunks'])}"
    yield f"enc={'a' if case['enc'] else 's'} dec={'a' if case['dec'] else 's'}"
    if any(not blob(c) for c, _ in case["chunks"]):
        yield "with an empty chunk"
    if any(n == 0 for _, n in case["chunks"]):
        yield "buffered without iterating"


PARTS = [
    Sweep("two-chunks", two_chunks, evaluate, nontrivial, labels),
    Sweep("large", large, evaluate, nontrivial, labels),
    Part("chunky", cases("Chunky2048"), evaluate, 450, nontrivial=nontrivial, labels=labels),
    Part("slick", cases("Slick256"), evaluate, 600, nontrivial=nontrivial, labels=labels),
]
