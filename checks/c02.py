"""C02: altered or misdirected ciphertexts are never accepted."""

from base64 import urlsafe_b64encode

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib.ciph import CIPHERS, call
from lib.harness import Discard, Part, Sweep, Violation, expect
from lib.strategies import blob

TECHNIQUE = (
    "property-based testing and mutation fuzzing: generated forgeries "
    "of genuine ciphertexts and wrong contexts must all be refused; "
    "every byte position swept"
)
RULE = (
    "a case is a genuine ciphertext with a list of forgery attempts; "
    "non-trivial when at least one attempt differs from the genuine message "
    "and its context. Attempts that reproduce it are discarded. Distinct by "
    "the whole case."
)
JSON_VALUE = {"k": [1, "two", None], "": True}


def edits():
    pos = st.one_of(st.integers(0, 80), st.integers(-300, -1), st.integers(0, 1500))
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("flip"), "at": pos, "mask": st.integers(1, 255)}),
        st.fixed_dictionaries({"op": st.just("flip2"), "at": pos, "by": st.integers(1, 700),
                               "mask": st.integers(1, 255)}),
        st.fixed_dictionaries({"op": st.just("cut"), "n": st.one_of(
            st.integers(1, 40), st.sampled_from([32, 64, 256, 512]), st.integers(1, 1000))}),
        st.fixed_dictionaries({"op": st.just("cut-front"), "n": st.one_of(
            st.integers(1, 60), st.sampled_from([32, 256]))}),
        st.fixed_dictionaries({"op": st.just("extend"), "data": S.blobs(1, 40)}),
        st.fixed_dictionaries({"op": st.just("extend-block"), "data": S.sized_blobs(
            st.sampled_from([32, 256]))}),
        st.fixed_dictionaries({"op": st.just("prepend"), "data": S.blobs(1, 40)}),
        st.fixed_dictionaries({"op": st.just("swap"), "i": st.integers(0, 9), "j": st.integers(0, 9)}),
        st.fixed_dictionaries({"op": st.just("drop"), "i": st.integers(0, 9)}),
        st.fixed_dictionaries({"op": st.just("dup"), "i": st.integers(0, 9)}),
        st.fixed_dictionaries({"op": st.just("splice"), "what": st.sampled_from(
            ["tag", "salt", "iv", "salt+iv", "header", "blocks", "first-block", "last-block"])}),
        st.fixed_dictionaries({"op": st.just("swap-salt-iv")}),
        st.fixed_dictionaries({"op": st.just("zero-tag"), "byte": st.sampled_from([0, 255])}),
        st.fixed_dictionaries({"op": st.just("empty")}),
    )


def contexts():
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("key-flip"), "at": st.integers(0, 600),
                               "mask": st.integers(1, 255)}),
        st.fixed_dictionaries({"op": st.just("key-extend"), "data": S.blobs(1, 20)}),
        st.fixed_dictionaries({"op": st.just("key-cut"), "n": st.integers(1, 200)}),
        st.fixed_dictionaries({"op": st.just("aad-flip"), "at": st.integers(0, 1000),
                               "mask": st.integers(1, 255)}),
        st.fixed_dictionaries({"op": st.just("aad-extend"), "data": S.blobs(1, 20)}),
        st.fixed_dictionaries({"op": st.just("aad-cut"), "n": st.integers(1, 200)}),
        st.fixed_dictionaries({"op": st.just("aad-other"), "data": S.aads}),
        st.fixed_dictionaries({"op": st.just("other-cipher")}),
        st.fixed_dictionaries({"op": st.just("aad-from-header")}),
    )


def attempts(name):
    return st.lists(
        st.fixed_dictionaries({
            "edits": st.lists(edits(), min_size=0, max_size=2),
            "context": st.one_of(st.none(), st.none(), contexts()),
            "is_async": st.booleans(),
            "how": st.sampled_from(["bytes", "bytes", "token", "token-str", "json", "stream"]),
            "reopen": st.booleans(),
        }).filter(lambda a: a["edits"] or a["context"]),
        min_size=1, max_size=4,
    )


def cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "key": S.keys, "aad": S.aads,
        "data": st.one_of(st.none(), S.payloads(name, 5)),
        "other": S.payloads(name, 5),
        "same_salt": st.booleans(),
        "attempts": attempts(name),
    })


def apply_edit(name, ct, other, e):
    s = R.spec(name)
    op = e["op"]
    if op == "empty":
        return b""
    if not ct:
        return ct
    if op == "flip":
        i = e["at"] % len(ct)
        return ct[:i] + bytes([ct[i] ^ e["mask"]]) + ct[i + 1:]
    if op == "flip2":
        for at in (e["at"], e["at"] + e["by"]):
            i = at % len(ct)
            ct = ct[:i] + bytes([ct[i] ^ e["mask"]]) + ct[i + 1:]
        return ct
    if op == "cut":
        return ct[:max(0, len(ct) - e["n"])]
    if op == "cut-front":
        return ct[e["n"]:]
    if op.startswith("extend"):
        return ct + blob(e["data"])
    if op == "prepend":
        return blob(e["data"]) + ct
    head, body = ct[:s.overhead], ct[s.overhead:]
    blocks = R.split(body, s.block)
    if op in ("swap", "drop", "dup") and blocks:
        i = e["i"] % len(blocks)
        if op == "swap":
            j = e["j"] % len(blocks)
            blocks[i], blocks[j] = blocks[j], blocks[i]
        elif op == "drop":
            del blocks[i]
        else:
            blocks.insert(i, blocks[i])
        return head + b"".join(blocks)
    if op == "swap-salt-iv":
        t = s.tag
        return ct[:t] + ct[t + 8:t + 16] + ct[t:t + 8] + ct[t + 16:]
    if op == "zero-tag":
        return bytes([e["byte"]]) * s.tag + ct[s.tag:]
    if op == "splice":
        t = s.tag
        cuts = {
            "tag": (0, t), "salt": (t, t + 8), "iv": (t + 8, t + 16),
            "salt+iv": (t, t + 16), "header": (0, t + 16), "blocks": (t + 16, None),
            "first-block": (t + 16, t + 16 + s.block),
        }
        if e["what"] == "last-block":
            return ct[:-s.block] + other[-s.block:]
        a, b = cuts[e["what"]]
        return ct[:a] + other[a:b] + (b"" if b is None else ct[b:])
    return ct


def apply_context(case, context):
    name, key, aad = case["cipher"], blob(case["key"]), blob(case["aad"])
    if context is None:
        return name, key, aad
    op = context["op"]
    if op == "key-flip":
        i = context["at"] % len(key)
        key = key[:i] + bytes([key[i] ^ context["mask"]]) + key[i + 1:]
    elif op == "key-extend":
        key += blob(context["data"])
    elif op == "key-cut":
        key = key[:max(64, len(key) - context["n"])]
    elif op == "aad-flip" and aad:
        i = context["at"] % len(aad)
        aad = aad[:i] + bytes([aad[i] ^ context["mask"]]) + aad[i + 1:]
    elif op == "aad-extend":
        aad += blob(context["data"])
    elif op == "aad-cut":
        aad = aad[:max(0, len(aad) - context["n"])]
    elif op == "aad-other":
        aad = blob(context["data"])
    elif op == "other-cipher":
        name = "Slick256" if name == "Chunky2048" else "Chunky2048"
    return name, key, aad


def stream_open(cipher, name, is_async, forged, aad):
    """
    Opens `forged` as a stream with block ids a forger can compute only
    for its own transcript: the tag test must refuse it at the latest.
    """
    from lib import sut

    s = R.spec(name)
    tag, salt, iv = forged[:s.tag], forged[s.tag:s.tag + 8], forged[s.tag + 8:s.tag + 16]
    blocks = R.split(forged[s.tag + 16:], s.block)
    if len(iv) != 8 or not blocks or len(blocks[-1]) != s.block:
        call(cipher, "bytes_decrypt", is_async, forged, aad=aad)
        return
    stream = (
        sut.run(cipher.astream_decrypt(salt=salt, aad=aad, iv=iv))
        if is_async else cipher.stream_decrypt(salt=salt, aad=aad, iv=iv)
    )
    for block in blocks:
        bid = call(stream.shmac, "next_block_id", is_async, block)
        if is_async:
            sut.run(stream.abuffer(bid + block))
        else:
            stream.buffer(bid + block)
    if is_async:
        sut.run(sut.aconsume(stream.afinalize()))
        sut.run(stream.shmac.atest_shmac(tag))
    else:
        list(stream.finalize())
        stream.shmac.test_shmac(tag)


def evaluate(case):
    name, key, aad = case["cipher"], blob(case["key"]), blob(case["aad"])
    cipher = CIPHERS[name](key)
    is_json = case["data"] is None
    salt = b"fixedslt" if case["same_salt"] else None
    if is_json:
        genuine = cipher.json_encrypt(JSON_VALUE, salt=salt, aad=aad)
    else:
        genuine = cipher.bytes_encrypt(blob(case["data"]), salt=salt, aad=aad)
    other = cipher.bytes_encrypt(blob(case["other"]), salt=salt, aad=aad)
    tried = 0
    for attempt in case["attempts"]:
        forged = genuine
        for e in attempt["edits"]:
            forged = apply_edit(name, forged, other, e)
        context = apply_context(case, attempt["context"])
        if forged in (genuine, other) and context == (name, key, aad):
            continue
        tried += 1
        target = cipher
        if context[:2] != (name, key):
            target = CIPHERS[context[0]](context[1])
        how = attempt["how"]
        try:
            if how == "stream":
                stream_open(target, context[0], attempt["is_async"], forged, context[2])
                got = "a passing authentication"
            elif how == "json":
                got = call(target, "json_decrypt", attempt["is_async"], forged, aad=context[2])
            elif how == "bytes":
                got = call(target, "bytes_decrypt", attempt["is_async"], forged, aad=context[2])
            else:
                token = urlsafe_b64encode(forged).rstrip(b"=")
                if how == "token-str":
                    token = token.decode()
                got = call(target, "read_token", attempt["is_async"], token, aad=context[2])
        except Exception:  # noqa: BLE001
            pass
        else:
            raise Violation(f"a forged message was accepted ({how}): {got!r:.80}")
        if attempt["reopen"]:
            reopen(cipher, genuine, aad, case, is_json, attempt["is_async"])
    if not tried:
        raise Discard
    reopen(cipher, genuine, aad, case, is_json, False)
    expect(
        call(cipher, "bytes_decrypt", True, other, aad=aad) == blob(case["other"]),
        "the other genuine message no longer opens",
    )


def reopen(cipher, genuine, aad, case, is_json, is_async):
    if is_json:
        got = call(cipher, "json_decrypt", is_async, genuine, aad=aad)
        expect(got == JSON_VALUE, "the genuine JSON no longer opens")
    else:
        got = call(cipher, "bytes_decrypt", is_async, genuine, aad=aad)
        expect(got == blob(case["data"]), "the genuine message no longer opens")


def positions(tier):
    """Every single byte of short ciphertexts, forged through each form."""
    sizes = {"Chunky2048": 304, "Slick256": 72}
    masks = (1, 0x80) if tier == "quick" else (1, 2, 4, 8, 16, 32, 64, 128, 255)
    for name, size in sizes.items():
        for at in range(size):
            for n, mask in enumerate(masks):
                yield sweep_case(name, {"op": "flip", "at": at, "mask": mask},
                                 bool((at + n) % 2), ["bytes", "token", "stream"][(at + n) % 3])
        for n in range(1, size + 1):
            yield sweep_case(name, {"op": "cut", "n": n}, bool(n % 2), "bytes")
        for n in range(1, size + 1):
            yield sweep_case(name, {"op": "cut-front", "n": n}, bool(n % 2), "bytes")
        for n in range(1, 2 * R.spec(name).block + 1):
            yield sweep_case(name, {"op": "extend", "data": {"r": [0, n]}}, bool(n % 2), "bytes")


def sweep_case(name, edit, is_async, how):
    return {
        "cipher": name, "key": {"s": [1, 64]}, "aad": {"h": ""}, "data": {"s": [2, 11]},
        "other": {"s": [3, 13]}, "same_salt": False,
        "attempts": [{"edits": [edit], "context": None, "is_async": is_async,
                      "how": how, "reopen": False}],
    }


def labels(case):
    for a in case["attempts"]:
        yield f"how={a['how']} {'async' if a['is_async'] else 'sync'}"
        for e in a["edits"]:
            yield f"edit={e['op']}"
        if a["context"]:
            yield f"context={a['context']['op']}"


PARTS = [
    Sweep("every-position", positions, evaluate, labels=labels),
    Part("chunky-forgeries", cases("Chunky2048"), evaluate, 700, labels=labels),
    Part("slick-forgeries", cases("Slick256"), evaluate, 900, labels=labels),
]
