"""C08: authentication objects and streams enforce their life cycle."""

import asyncio
import threading

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import CIPHERS, buffer, call, drain, finalize, open_stream
from lib.harness import Part, Violation, expect
from lib.strategies import blob

TECHNIQUE = (
    "stateful property-based testing: generated call histories, also "
    "concurrent ones, against a small model of the open and closed states"
)
RULE = (
    "a case is a history of calls on one stream and its authentication "
    "object; non-trivial when it contains at least one call out of order or "
    "two concurrent calls. Distinct by the whole case."
)

OPS = (
    "buffer", "buffer", "iterate", "result", "test-right", "test-wrong", "block-id",
    "buffer-bad", "finalize",
)
LATE = (
    "buffer", "iterate", "result", "test-right", "test-wrong", "block-id", "finalize",
    "tag-finalize", "test-short", "test-other",
)


def cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "aad": S.blobs(0, 8), "is_async": st.booleans(),
        "side": st.sampled_from(["encrypt", "decrypt"]),
        "data": st.lists(S.payloads(name, 2), max_size=4),
        "ops": st.lists(st.sampled_from(OPS[:-1]), max_size=10),
        "after": st.lists(st.sampled_from(LATE), min_size=1, max_size=8),
        "abandon": st.sampled_from([None, None, None, 0, 1]),
    })


def refuse(what, call_it):
    try:
        got = call_it()
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{what} was accepted: {got!r:.60}")


def evaluate(case):
    if case["side"] == "encrypt":
        Encrypting(case).play()
    else:
        Decrypting(case).play()


class History:
    """The calls both kinds of stream have in common, with their model."""

    def __init__(self, case):
        self.case = case
        self.name, self.is_async = case["cipher"], case["is_async"]
        self.aad = blob(case["aad"])
        self.cipher = CIPHERS[self.name](b"life cycle key " * 5)
        self.s = R.spec(self.name)
        self.closed = False
        self.tag = None
        self.prepare()

    def play(self):
        for op in self.case["ops"]:
            getattr(self, "open_" + op.replace("-", "_"))()
        self.finish()
        self.closed = True
        self.tag = self.stream.shmac.result
        expect(type(self.tag) is bytes and len(self.tag) == self.s.tag,
               "the tag has another size")
        for op in self.case["after"]:
            getattr(self, "closed_" + op.replace("-", "_"))()
            expect(self.stream.shmac.result == self.tag, f"the tag changed after {op}")
        self.judge()

    # calls on the open stream that come too early

    def open_result(self):
        refuse("asking for the tag before the end", lambda: self.stream.shmac.result)

    def open_test_right(self):
        wanted = self.expected_tag()
        refuse("testing a tag before the end", lambda: call(
            self.stream.shmac, "test_shmac", self.is_async, wanted))

    def open_test_wrong(self):
        refuse("testing a tag before the end", lambda: call(
            self.stream.shmac, "test_shmac", self.is_async, bytes(self.s.tag)))

    def open_block_id(self):
        a = call(self.stream.shmac, "next_block_id", self.is_async, bytes(self.s.block))
        b = call(self.stream.shmac, "next_block_id", self.is_async, bytes(self.s.block))
        expect(a == b, "asking for a block identifier changed the state")

    def expected_tag(self):
        return bytes(self.s.tag)

    # calls on the closed stream

    def closed_result(self):
        expect(self.stream.shmac.result == self.tag, "the tag changed")

    def closed_iterate(self):
        try:
            got = drain(self.stream, self.is_async)
        except Exception:  # noqa: BLE001
            return
        expect(not got, "a finalized stream emitted more")

    def closed_finalize(self):
        refuse("finalizing a second time", lambda: finalize(self.stream, self.is_async))

    def closed_tag_finalize(self):
        refuse("finalizing the tag a second time",
               lambda: call(self.stream.shmac, "finalize", self.is_async))

    def closed_test_right(self):
        call(self.stream.shmac, "test_shmac", self.is_async, self.tag)

    def closed_test_wrong(self):
        flipped = self.tag[:-1] + bytes([self.tag[-1] ^ 1])
        refuse("a wrong tag", lambda: call(
            self.stream.shmac, "test_shmac", self.is_async, flipped))

    def closed_test_short(self):
        for wrong in (self.tag[:-1], self.tag + b"\0", b"", self.tag[:1]):
            refuse("a tag of another size", lambda: call(
                self.stream.shmac, "test_shmac", self.is_async, wrong))

    def closed_test_other(self):
        for wrong in (self.tag.hex(), bytearray(self.tag), None, int.from_bytes(self.tag, "big")):
            refuse("a tag of another type", lambda: call(
                self.stream.shmac, "test_shmac", self.is_async, wrong))

    def closed_block_id(self):
        refuse("a block identifier after the end", lambda: call(
            self.stream.shmac, "next_block_id", self.is_async, bytes(self.s.block)))


class Encrypting(History):
    def prepare(self):
        self.stream = open_stream(self.cipher, "stream_encrypt", self.is_async, aad=self.aad)
        self.parts = [blob(d) for d in self.case["data"]]
        self.message = b""
        self.packets = []

    def open_buffer(self):
        if self.parts:
            part = self.parts.pop(0)
            buffer(self.stream, self.is_async, part)
            self.message += part

    def open_buffer_bad(self):
        for wrong in (None, "text", 7):
            refuse("plaintext of another type", lambda: buffer(self.stream, self.is_async, wrong))

    def open_iterate(self):
        self.packets += drain(self.stream, self.is_async)

    def finish(self):
        abandon = self.case["abandon"]
        if abandon is not None:
            # the end of the stream, left before it was complete, closes it
            first = self.begin_end(abandon)
            self.packets += first
            if first and b"".join(b for _, b in self.packets):
                self.check_abandoned()
            self.prepare()
            for op in self.case["ops"]:
                getattr(self, "open_" + op.replace("-", "_"))()
        self.packets += finalize(self.stream, self.is_async)

    def begin_end(self, count):
        if not self.is_async:
            gen = self.stream.finalize()
            return [next(gen)] if count else []

        async def some():
            gen = self.stream.afinalize()
            return [await gen.__anext__()] if count else []

        return sut.run(some())

    def check_abandoned(self):
        refuse("plaintext after the end was begun",
               lambda: buffer(self.stream, self.is_async, b"more"))
        self.closed_finalize()

    def closed_buffer(self):
        for more in (b"more", b"", bytes(self.s.block)):
            refuse("plaintext after the end", lambda: buffer(self.stream, self.is_async, more))

    def judge(self):
        sealed = self.tag + self.stream.salt + self.stream.iv + b"".join(
            b for _, b in self.packets)
        got = self.cipher.bytes_decrypt(sealed, aad=self.aad)
        expect(got == self.message, "calls out of order changed the message")


class Decrypting(History):
    def prepare(self):
        data = b"".join(map(blob, self.case["data"]))
        writer = self.cipher.stream_encrypt(aad=self.aad)
        writer.buffer(data)
        self.left = [i + b for i, b in [*writer, *writer.finalize()]]
        self.data, self.right = data, writer.shmac.result
        self.stream = open_stream(
            self.cipher, "stream_decrypt", self.is_async, salt=writer.salt,
            iv=writer.iv, aad=self.aad)
        self.used = 0
        self.out = []

    def expected_tag(self):
        return self.right

    def open_buffer(self):
        if self.left:
            buffer(self.stream, self.is_async, self.left.pop(0))
            self.used += 1

    def open_buffer_bad(self):
        for wrong in (b"", bytes(self.s.block), None, bytes(self.s.block + self.s.block_id)):
            refuse("bad ciphertext", lambda: buffer(self.stream, self.is_async, wrong))

    def open_iterate(self):
        if self.used:
            self.out += drain(self.stream, self.is_async)
        else:
            try:
                got = drain(self.stream, self.is_async)
            except Exception:  # noqa: BLE001
                return
            expect(not got, "plaintext came out of nothing")

    def finish(self):
        while self.left:
            self.open_buffer()
        self.out += finalize(self.stream, self.is_async)

    def closed_buffer(self):
        for more in (bytes(self.s.block + self.s.block_id), b"", b"more"):
            refuse("ciphertext after the end", lambda: buffer(self.stream, self.is_async, more))

    def judge(self):
        expect(b"".join(self.out) == self.data, "calls out of order changed the plaintext")
        expect(self.tag == self.right, "calls out of order changed the tag")


# ------------------------------------------------------------- concurrent


def crowd_cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "where": st.sampled_from(["task", "task", "thread"]),
        "sizes": st.lists(st.one_of(st.integers(0, 40), S.payload_sizes(
            *S.GEOMETRY[name], blocks=3)), min_size=1, max_size=6),
        "ends": st.integers(1, 3), "order": st.randoms(use_true_random=False).map(
            lambda r: [r.random() for _ in range(10)]),
    })


def evaluate_crowd(case):
    """Several tasks or threads buffer into and finalize one stream."""
    name = case["cipher"]
    cipher = CIPHERS[name](b"life cycle key " * 5)
    chunks = [bytes([n + 1]) * size for n, size in enumerate(case["sizes"])]
    jobs = [("buffer", n) for n in range(len(chunks))] + [("end", n) for n in range(case["ends"])]
    jobs = [j for _, j in sorted(zip(case["order"], jobs))]
    accepted, ended, errors = [], [], []
    if case["where"] == "task":
        stream = sut.run(cipher.astream_encrypt())

        async def job(kind, n):
            try:
                if kind == "buffer":
                    await stream.abuffer(chunks[n])
                    accepted.append(n)
                else:
                    ended.append([p async for p in stream.afinalize()])
            except Exception as error:  # noqa: BLE001
                errors.append((kind, n, error))

        async def together():
            await asyncio.gather(*(job(*j) for j in jobs))

        sut.run(asyncio.wait_for(together(), 60))
    else:
        stream = cipher.stream_encrypt()
        gate = threading.Barrier(len(jobs))

        def job(kind, n):
            gate.wait()
            try:
                if kind == "buffer":
                    stream.buffer(chunks[n])
                    accepted.append(n)
                else:
                    ended.append(list(stream.finalize()))
            except Exception as error:  # noqa: BLE001
                errors.append((kind, n, error))

        threads = [threading.Thread(target=job, args=j, daemon=True) for j in jobs]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    expect(len(ended) == 1, lambda: f"{len(ended)} of {case['ends']} endings succeeded: {errors!r:.200}")
    expect(len(accepted) + len(ended) + len(errors) == len(jobs), "a call was lost")
    sealed = stream.shmac.result + stream.salt + stream.iv + b"".join(b for _, b in ended[0])
    got = cipher.bytes_decrypt(sealed)
    # every accepted chunk is in the message, whole; nothing else is
    seen, rest = [], got
    while rest:
        n = rest[0] - 1
        expect(0 <= n < len(chunks) and rest.startswith(chunks[n]), "chunks were mixed")
        seen.append(n)
        rest = rest[len(chunks[n]):]
    wanted = sorted(n for n in accepted if chunks[n])
    expect(sorted(seen) == wanted, lambda: f"accepted {wanted}, but the message holds {seen}")


def nontrivial(case):
    return bool(case["after"]) or any(o not in ("buffer", "iterate") for o in case["ops"])


def labels(case):
    yield f"{case['side']} {'async' if case['is_async'] else 'sync'}"
    for o in set(case["ops"]):
        yield f"open: {o}"
    for o in set(case["after"]):
        yield f"closed: {o}"


PARTS = [
    Part("chunky", cases("Chunky2048"), evaluate, 350, nontrivial=nontrivial, labels=labels),
    Part("slick", cases("Slick256"), evaluate, 450, nontrivial=nontrivial, labels=labels),
    Part("chunky-crowd", crowd_cases("Chunky2048"), evaluate_crowd, 120,
         labels=lambda c: [c["where"]]),
    Part("slick-crowd", crowd_cases("Slick256"), evaluate_crowd, 120,
         labels=lambda c: [c["where"]]),
]
