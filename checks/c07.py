"""C07: no two encryptions ever share randomness or key stream."""

import os
import random
from concurrent.futures import ThreadPoolExecutor
import asyncio
from base64 import urlsafe_b64decode

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import CIPHERS, buffer, drain, finalize, open_stream
from lib.harness import Part, Violation, expect
from lib.strategies import blob

TECHNIQUE = (
    "metamorphic property-based testing: the same generated encryption "
    "repeated across calls, objects, tasks, threads and forked processes must "
    "share nothing; generated histories of reused key material must be refused"
)
RULE = (
    "a case repeats one encryption (same key, salt, associated data, payload "
    "and clock reading) several times in generated ways; non-trivial when it "
    "is repeated at least twice, or reuses key material at least once. "
    "Distinct by the whole case."
)
ASSUMPTIONS = (
    "two unrelated 8-byte strings are taken to differ (2^-64 per comparison)",
)

HOWS = ("bytes", "json", "token", "stream")
WHERE = ("call", "object", "task", "thread", "fork")


def cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "key": S.keys,
        "salt": st.one_of(st.none(), S.salts, S.salts), "aad": S.aads,
        "data": S.payloads(name, 3),
        "frozen": st.booleans(), "reseed": st.booleans(),
        "runs": st.lists(st.fixed_dictionaries({
            "how": st.sampled_from(HOWS), "is_async": st.booleans(),
            "where": st.sampled_from(WHERE[:4]),
        }), min_size=1, max_size=5),
        "forks": st.sampled_from([0, 0, 0, 2, 3]),
    })


async def aone(cipher, how, data, salt, aad):
    if how == "bytes":
        return await cipher.abytes_encrypt(data, salt=salt, aad=aad)
    if how == "json":
        return await cipher.ajson_encrypt(data.hex(), salt=salt, aad=aad)
    if how == "token":
        token = await cipher.amake_token(data, aad=aad)
        return urlsafe_b64decode(token + b"=" * (-len(token) % 4))
    stream = await cipher.astream_encrypt(salt=salt, aad=aad)
    await stream.abuffer(data)
    blocks = [b async for _, b in stream] + [b async for _, b in stream.afinalize()]
    return stream.shmac.result + stream.salt + stream.iv + b"".join(blocks)


def one(cipher, how, data, salt, aad):
    if how == "bytes":
        return cipher.bytes_encrypt(data, salt=salt, aad=aad)
    if how == "json":
        return cipher.json_encrypt(data.hex(), salt=salt, aad=aad)
    if how == "token":
        token = cipher.make_token(data, aad=aad)
        return urlsafe_b64decode(token + b"=" * (-len(token) % 4))
    stream = cipher.stream_encrypt(salt=salt, aad=aad)
    stream.buffer(data)
    blocks = [b for _, b in stream] + [b for _, b in stream.finalize()]
    return stream.shmac.result + stream.salt + stream.iv + b"".join(blocks)


def fork_one(cipher, how, data, salt, aad):
    """Encrypts in a forked copy of this very process."""
    read, write = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(read)
            with os.fdopen(write, "wb") as pipe:
                pipe.write(one(cipher, how, data, salt, aad))
        finally:
            os._exit(0)
    os.close(write)
    with os.fdopen(read, "rb") as pipe:
        got = pipe.read()
    os.waitpid(pid, 0)
    return got


POOL = ThreadPoolExecutor(4)


def evaluate(case):
    name, key, aad, data = case["cipher"], blob(case["key"]), blob(case["aad"]), blob(case["data"])
    salt = None if case["salt"] is None else blob(case["salt"])
    cipher = CIPHERS[name](key)
    if case["frozen"]:
        sut.wall.freeze(R.EPOCH_NS + 10**17)
    state = random.getstate()
    out = []
    try:
        if case["forks"]:
            for _ in range(case["forks"]):
                out.append(("bytes", fork_one(cipher, "bytes", data, salt, aad)))
        pending = []
        for r in case["runs"]:
            if case["reseed"]:
                random.seed(0)
            how, where = r["how"], r["where"]
            target = CIPHERS[name](key) if where == "object" else cipher
            if where == "task":
                pending.append(("task", how, target))
            elif where == "thread":
                pending.append(("thread", how, POOL.submit(one, target, how, data, salt, aad)))
            elif r["is_async"]:
                out.append((how, sut.run(aone(target, how, data, salt, aad))))
            else:
                out.append((how, one(target, how, data, salt, aad)))

        async def together():
            return await asyncio.gather(
                *(aone(c, how, data, salt, aad) for kind, how, c in pending if kind == "task"))

        tasks = sut.run(together())
        hows = [how for kind, how, _ in pending if kind == "task"]
        out += list(zip(hows, tasks))
        out += [(how, f.result()) for kind, how, f in pending if kind == "thread"]
    finally:
        random.setstate(state)
        sut.wall.real()
    compare(name, key, aad, salt, out)


def compare(name, key, aad, salt, out):
    s = R.spec(name)
    t = s.tag
    ivs, siv_keys, fillers, chunks = set(), set(), set(), {}
    for n, (how, ct) in enumerate(out):
        iv = ct[t + 8:t + 16]
        if salt is not None and how != "token":
            expect(ct[t:t + 8] == salt, "the salt that was given is not used")
        expect(iv not in ivs, "two encryptions have the same IV")
        ivs.add(iv)
        for i in list(range(0, t - 7, 8)) + list(range(s.overhead, len(ct) - 7, 8)):
            chunk = ct[i:i + 8]
            if chunk in chunks:
                raise Violation(
                    f"encryptions {chunks[chunk]} and {n} share 8 bytes of ciphertext",
                )
            chunks[chunk] = n
        padded, ok = R.decrypt(name, key, aad, ct)
        if not ok:
            continue  # another construction: not for this property to judge
        siv = padded[4:4 + s.siv]
        expect(siv not in siv_keys, "two encryptions have the same inner random key")
        siv_keys.add(siv)
        sentinel = padded[-1] or s.block
        filler = padded[-sentinel:-1]
        if len(filler) >= 8:
            filler = filler[-8:]
            expect(filler not in fillers, "two encryptions have the same random padding")
            fillers.add(filler)


# ---------------------------------------------------------- key material

REUSE = ("same-tag-object", "new-tag-object", "other-mode", "decrypt", "cross-sync")


def reuse_cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "is_async": st.booleans(),
        "salt": st.one_of(st.none(), S.salts), "aad": S.blobs(0, 8),
        "data": S.payloads(name, 3), "pulled": st.integers(0, 4),
        "attempts": st.lists(st.sampled_from(REUSE), min_size=1, max_size=4),
        "given_iv": st.booleans(),
    })


def bundle_of(cipher, is_async, **kw):
    made = cipher._KeyAADBundle(cipher._kdfs, **kw)
    return sut.run(made.async_mode()) if is_async else made.sync_mode()


def encipher(cipher, blocks, shmac, is_async):
    junction = cipher._Junction
    if not is_async:
        return junction.bytes_encipher((b for b in blocks), shmac=shmac)

    async def source():
        for b in blocks:
            yield b

    return junction.abytes_encipher(source(), shmac=shmac)


def pull(gen, is_async):
    return sut.run(gen.__anext__()) if is_async else next(gen)


def evaluate_reuse(case):
    name, is_async, aad, data = (
        case["cipher"], case["is_async"], blob(case["aad"]), blob(case["data"]))
    key = b"reused key material " * 4
    cipher = CIPHERS[name](key)
    salt = None if case["salt"] is None else blob(case["salt"])
    s = R.spec(name)
    padded = R.pad_plaintext(name, data, 7, b"\x05" * s.siv, b"\x09" * s.block)
    blocks = R.split(padded, s.block)
    if case["given_iv"]:
        # an IV chosen by the caller is for decryption only
        bundle = bundle_of(cipher, is_async, salt=salt, aad=aad, iv=b"chosenIV")
        refuse("encryption with a chosen IV", lambda: encipher(
            cipher, blocks, cipher._StreamHMAC(bundle)._for_encryption(), is_async))
    bundle = bundle_of(cipher, is_async, salt=salt, aad=aad)
    shmac = cipher._StreamHMAC(bundle)._for_encryption()
    gen = encipher(cipher, blocks, shmac, is_async)
    out = [pull(gen, is_async) for _ in range(min(case["pulled"], len(blocks)))]
    for attempt in case["attempts"]:
        def again(attempt=attempt):
            if attempt == "same-tag-object":
                second = encipher(cipher, blocks, shmac, is_async)
            elif attempt == "new-tag-object":
                other = cipher._StreamHMAC(bundle)._for_encryption()
                second = encipher(cipher, blocks, other, is_async)
            elif attempt == "other-mode":
                shmac._for_decryption()
                second = None
            elif attempt == "decrypt":
                cipher._StreamHMAC(bundle)._for_decryption()
                second = None
            else:
                second = encipher(cipher, blocks, shmac, not is_async)
            if second is not None:
                drain(second, is_async if attempt != "cross-sync" else not is_async)
        refuse(f"a second use of one message's key material ({attempt})", again)
    out += drain(gen, is_async)
    tag = sut.run(shmac.afinalize()) if is_async else shmac.finalize()
    sealed = tag + bundle.salt + bundle.iv + b"".join(out)
    got, ok = R.decrypt(name, key, aad, sealed)
    if ok:
        expect(got == padded, "refused reuses changed the first message")
    expect(
        cipher.bytes_decrypt(sealed, aad=aad) == data,
        "refused reuses changed the first message",
    )


def reread_cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "is_async": st.booleans(), "aad": S.blobs(0, 8), "data": S.payloads(name, 3),
        "pulled": st.integers(0, 4), "attempts": st.lists(st.sampled_from(REUSE), min_size=1, max_size=4),
    })


def decipher(cipher, blocks, shmac, is_async):
    junction = cipher._Junction
    if not is_async:
        return junction.bytes_decipher((b for b in blocks), shmac=shmac)

    async def source():
        for b in blocks:
            yield b

    return junction.abytes_decipher(source(), shmac=shmac)


def evaluate_reread(case):
    """Key material prepared to read one message reads no second one."""
    name, is_async, aad, data = case["cipher"], case["is_async"], blob(case["aad"]), blob(case["data"])
    cipher = CIPHERS[name](b"reused key material " * 4)
    s, sealed = R.spec(name), cipher.bytes_encrypt(data, aad=aad)
    blocks = R.split(sealed[s.tag + 16:], s.block)
    bundle = bundle_of(cipher, is_async, salt=sealed[s.tag:s.tag + 8], aad=aad, iv=sealed[s.tag + 8:s.tag + 16])
    shmac = cipher._StreamHMAC(bundle)._for_decryption()
    gen = decipher(cipher, blocks, shmac, is_async)
    out = [pull(gen, is_async) for _ in range(min(case["pulled"], len(blocks)))]
    for attempt in case["attempts"]:
        def again(attempt=attempt):
            if attempt == "same-tag-object":
                second = decipher(cipher, blocks, shmac, is_async)
            elif attempt == "new-tag-object":
                second = decipher(cipher, blocks, cipher._StreamHMAC(bundle)._for_decryption(), is_async)
            elif attempt == "other-mode":
                shmac._for_encryption()
                second = None
            elif attempt == "decrypt":
                cipher._StreamHMAC(bundle)._for_encryption()
                second = None
            else:
                second = decipher(cipher, blocks, shmac, not is_async)
            if second is not None:
                drain(second, is_async if attempt != "cross-sync" else not is_async)
        refuse(f"a second use of the key material of one message read ({attempt})", again)
    out += drain(gen, is_async)
    tag = sut.run(shmac.afinalize()) if is_async else shmac.finalize()
    expect(tag == sealed[:s.tag], "refused reuses changed the tag of the message read")
    expect(R.unpad(name, b"".join(out)) == data, "refused reuses changed the message read")


def refuse(what, call_it):
    try:
        call_it()
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{what} was accepted")


def nontrivial(case):
    return len(case["runs"]) + case["forks"] > 1


def labels(case):
    for r in case["runs"]:
        yield f"{r['where']} {r['how']}"
    if case["forks"]:
        yield "forked"


def reuse_labels(case):
    yield from case["attempts"]


PARTS = [
    Part("chunky", cases("Chunky2048"), evaluate, 300, nontrivial=nontrivial, labels=labels),
    Part("slick", cases("Slick256"), evaluate, 400, nontrivial=nontrivial, labels=labels),
    Part("chunky-reuse", reuse_cases("Chunky2048"), evaluate_reuse, 250, labels=reuse_labels),
    Part("slick-reuse", reuse_cases("Slick256"), evaluate_reuse, 300, labels=reuse_labels),
    Part("chunky-reread", reread_cases("Chunky2048"), evaluate_reread, 100, labels=reuse_labels),
    Part("slick-reread", reread_cases("Slick256"), evaluate_reread, 150, labels=reuse_labels),
]
