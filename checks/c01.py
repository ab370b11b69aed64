"""C01: decrypting returns exactly what was encrypted."""

import json

from hypothesis import strategies as st

from lib import strategies as S
from lib.ciph import CIPHERS, call
from lib.harness import Part, Sweep, expect
from lib.strategies import blob

TECHNIQUE = (
    "property-based testing (Hypothesis): round trip over generated "
    "histories of messages, plus every payload length over the first "
    "blocks"
)
RULE = (
    "a case is a history of messages over one key; non-trivial when at least "
    "one payload is not empty. Distinct by the whole case."
)


def message(name):
    common = dict(
        salt=st.one_of(st.none(), S.salts), aad=S.aads,
        enc=st.booleans(), dec=st.booleans(), rebuild=st.booleans(),
    )
    return st.one_of(
        st.fixed_dictionaries(dict(common, kind=st.just("bytes"), data=S.payloads(name))),
        st.fixed_dictionaries(dict(common, kind=st.just("bytes"), data=S.payloads(name))),
        st.fixed_dictionaries(dict(common, kind=st.just("json"), data=S.json_trees())),
        st.fixed_dictionaries(
            dict(common, kind=st.sampled_from(["token", "token-str"]), data=S.payloads(name)),
        ),
    )


def history(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name),
        "key": S.keys,
        "messages": st.lists(message(name), min_size=1, max_size=3),
        "order": st.integers(0, 5),
    })


def encrypt(cipher, m):
    aad, salt, kind = blob(m["aad"]), m["salt"] and blob(m["salt"]), m["kind"]
    if kind == "json":
        return call(cipher, "json_encrypt", m["enc"], m["data"], salt=salt, aad=aad)
    data = blob(m["data"])
    if kind == "bytes":
        return call(cipher, "bytes_encrypt", m["enc"], data, salt=salt, aad=aad)
    return call(cipher, "make_token", m["enc"], data, aad=aad)


def check(cipher, m, sealed):
    aad, kind = blob(m["aad"]), m["kind"]
    if kind == "json":
        got = call(cipher, "json_decrypt", m["dec"], sealed, aad=aad)
        expect(S.same_json(got, m["data"]), lambda: f"JSON came back as {got!r}")
        return
    data = blob(m["data"])
    if kind == "bytes":
        got = call(cipher, "bytes_decrypt", m["dec"], sealed, aad=aad)
    else:
        if kind == "token-str":
            sealed = sealed.decode()
        got = call(cipher, "read_token", m["dec"], sealed, aad=aad)
    expect(
        type(got) is bytes and got == data,
        lambda: f"{len(data)} payload bytes came back as {len(got)} other bytes",
    )


def evaluate(case):
    cls, key = CIPHERS[case["cipher"]], blob(case["key"])
    cipher = cls(key)
    messages = case["messages"]
    sealed = []
    for m in messages:
        sealed.append(encrypt(cipher, m))
    order = list(range(len(messages)))
    for i in range(len(order) - 1, 0, -1):
        j = case["order"] % (i + 1)
        order[i], order[j] = order[j], order[i]
    for i in order + order[:1]:
        m = messages[i]
        check(cls(key) if m["rebuild"] else cipher, m, sealed[i])


def lengths(tier):
    """Every payload length over the first blocks, all four pairings."""
    for name, (block, _) in S.GEOMETRY.items():
        top = (2 if name == "Chunky2048" else 5) * block
        if tier == "thorough":
            top *= 4
        for n in range(0, top + 2):
            forms = [(n & 1, n >> 1 & 1)] if tier == "quick" else [
                (0, 0), (0, 1), (1, 0), (1, 1),
            ]
            for enc, dec in forms:
                yield {
                    "cipher": name, "key": {"s": [n, 64]}, "order": 0,
                    "messages": [{
                        "kind": "bytes", "data": {"s": [n, n]}, "salt": None,
                        "aad": {"h": ""}, "enc": bool(enc), "dec": bool(dec),
                        "rebuild": True,
                    }],
                }


def long(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "key": S.keys, "order": st.just(0),
        "messages": st.lists(
            st.fixed_dictionaries(dict(
                kind=st.just("bytes"),
                data=st.builds(lambda s, n: {"s": [s, n]}, st.integers(0, 999),
                               st.integers(2000, 120_000)),
                salt=st.none(), aad=st.one_of(
                    st.just({"h": ""}),
                    st.builds(lambda s, n: {"s": [s, n]}, st.integers(0, 999), st.integers(1000, 70_000)),
                ),
                enc=st.booleans(), dec=st.booleans(), rebuild=st.booleans(),
            )), min_size=1, max_size=1,
        ),
    })


def large(tier):
    """Sizes around powers of two and around block fills near them."""
    for name, (block, header) in S.GEOMETRY.items():
        top = (20 if block > 32 else 18) + (2 if tier == "thorough" else 0)
        for power in range(13, top + 1):
            full = (1 << power) // block * block - header
            for size in (full - 1, full, full + 1, 1 << power, full + block):
                yield {
                    "cipher": name, "key": {"s": [power, 64]}, "order": 0,
                    "messages": [{
                        "kind": ("bytes", "bytes", "token")[size % 3], "data": {"s": [size % 997, size]},
                        "salt": None, "aad": {"h": ""}, "enc": bool(size & 1), "dec": bool(size & 2),
                        "rebuild": True,
                    }],
                }


def wide(kind, size):
    return {
        "list": lambda: [n % 251 for n in range(size)],
        "dict": lambda: {str((n * 7919) % size): n for n in range(size)},
        "text": lambda: "a\u00e9\u2602\U0001f512" * (size // 4) + "a" * (size % 4),
        "lists": lambda: [[] for _ in range(size)],
        "deep": lambda: json.loads("[" * size + "]" * size),
        "digits": lambda: [10**size + 7, -(10**size), 10.0**(size % 300)],
    }[kind]()


def wide_cases(tier):
    sizes = {"list": [255, 256, 257, 1025, 70000], "dict": [255, 256, 257, 1025, 40000], "text": [255, 257, 70000],
             "lists": [257, 5000], "deep": [50, 300], "digits": [30, 400, 4000]}
    for n, (kind, size) in enumerate((k, s) for k in sizes for s in sizes[k]):
        for cipher in S.CIPHERS:
            if cipher == "Slick256" and size > 40000 and tier == "quick":
                continue
            for enc, dec in ((n & 1, n >> 1 & 1), (1 - n & 1, n & 1)):
                yield {"cipher": cipher, "kind": kind, "size": size, "enc": bool(enc), "dec": bool(dec)}


def evaluate_wide(case):
    """Large JSON values, with their order."""
    cipher = CIPHERS[case["cipher"]](b"k" * 64)
    value = wide(case["kind"], case["size"])
    text = json.dumps(value)
    sealed = call(cipher, "json_encrypt", case["enc"], value)
    expect(json.dumps(value) == text, "encrypting changes the value")
    got = call(cipher, "json_decrypt", case["dec"], sealed)
    expect(json.dumps(got) == text, lambda: f"JSON came back as {str(got)[:80]}..({len(str(got))})")


def nontrivial(case):
    return any(
        m["data"] not in ("", None, {"h": ""}) and (m["kind"] == "json" or blob(m["data"]))
        for m in case["messages"]
    )


def labels(case):
    yield case["cipher"]
    for m in case["messages"]:
        yield f"{m['kind']} enc={'a' if m['enc'] else 's'} dec={'a' if m['dec'] else 's'}"


PARTS = [
    Sweep("every-length", lengths, evaluate, nontrivial, labels),
    Sweep("large", large, evaluate, nontrivial, labels),
    Sweep("wide-json", wide_cases, evaluate_wide, labels=lambda c: [c["kind"]]),
    Part("chunky-histories", history("Chunky2048"), evaluate, 700,
         nontrivial=nontrivial, labels=labels),
    Part("slick-histories", history("Slick256"), evaluate, 700,
         nontrivial=nontrivial, labels=labels),
    Part("chunky-long", long("Chunky2048"), evaluate, 25,
         nontrivial=nontrivial, labels=labels),
    Part("slick-long", long("Slick256"), evaluate, 6,
         nontrivial=nontrivial, labels=labels),
]
