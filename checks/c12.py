"""C12: key derivation separates domain, key, payload, caller data, function."""

import os

from hypothesis import strategies as st

from checks.c10 import variants, vary
from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import call
from lib.harness import Part, Sweep, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing: generated histories of updates, copies "
    "and derivations over several objects against a reference implementation, "
    "and metamorphic variation of every input"
)
RULE = (
    "a case is a history over a growing set of derivation objects, or a pair "
    "of neighbouring derivations; non-trivial when at least one update or copy "
    "is made, respectively when the pair differs. Distinct by the whole case."
)
ASSUMPTIONS = ("two unrelated strings of 8 or more bytes are taken to differ",)

FUNCTIONS = ("sha3_256", "sha3_512", "shake_128", "shake_256")
small = S.blobs(0, 10)
datas = st.lists(st.one_of(small, small, S.sized_blobs(
    S.near([72, 136, 151, 168, 336], spread=1))), max_size=3)
keys = st.one_of(S.blobs(1, 20), S.keys, st.just({"h": "00"}))
sizes = st.one_of(st.integers(8, 40), S.near([64, 136, 168, 336]), st.integers(1, 400))

derivation = st.fixed_dictionaries({
    "op": st.just("derive"), "who": st.integers(0, 5), "f": st.sampled_from(FUNCTIONS),
    "data": datas, "aad": small, "size": sizes, "is_async": st.booleans(),
})
OPS = st.one_of(
    derivation, derivation,
    st.fixed_dictionaries({"op": st.just("update"), "who": st.integers(0, 5),
                           "data": datas, "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("copy"), "who": st.integers(0, 5)}),
    st.fixed_dictionaries({"op": st.just("rebuild"), "who": st.integers(0, 5)}),
    st.fixed_dictionaries({"op": st.just("fork"), "who": st.integers(0, 5)}),
)
histories = st.fixed_dictionaries({
    "domain": small, "key": keys, "data": datas, "ops": st.lists(OPS, max_size=9),
})


def derive(kdf, is_async, f, *data, aad, size):
    kw = {"aad": aad}
    if f.startswith("shake"):
        kw["size"] = size
    return call(kdf, f, is_async, *data, **kw)


def reference(model, f, *data, aad, size):
    return model.derive(f, *data, aad=aad, size=size if f.startswith("shake") else None)


def evaluate_history(case):
    domain, key, data = blob(case["domain"]), blob(case["key"]), [blob(d) for d in case["data"]]

    def fresh():
        return aiootp.DomainKDF(domain, *data, key=key)

    objects = [[fresh(), R.KDF(domain, *data, key=key), []]]
    for op in case["ops"]:
        kdf, model, log = objects[op["who"] % len(objects)]
        if op["op"] == "update":
            values = [blob(d) for d in op["data"]]
            if not values:
                try:
                    call(kdf, "update", op["is_async"])
                except Exception:  # noqa: BLE001, S112
                    continue
                raise Violation("an update without data was accepted")
            got = call(kdf, "update", op["is_async"], *values)
            expect(got is kdf, "an update does not return its object")
            model.update(*values)
            log.append(values)
        elif op["op"] == "copy":
            if len(objects) < 6:
                objects.append([kdf.copy(), model.copy(), list(log)])
        elif op["op"] == "rebuild":
            # an equal history on a new object gives an equal object
            again = fresh()
            for values in log:
                again.update(*values)
            objects[op["who"] % len(objects)][0] = again
        elif op["op"] == "fork":
            expect(in_child(lambda: kdf.sha3_256(aad=b"child")) == kdf.sha3_256(aad=b"child"),
                   "another process derives another key")
        else:
            check_derive(kdf, model, op)
    probe = {"f": "shake_256", "data": [], "aad": {"h": ""}, "size": 32, "is_async": False}
    for kdf, model, _ in objects:
        check_derive(kdf, model, probe)


def check_derive(kdf, model, op):
    values, aad = [blob(d) for d in op["data"]], blob(op["aad"])
    got = derive(kdf, op["is_async"], op["f"], *values, aad=aad, size=op["size"])
    wanted = reference(model, op["f"], *values, aad=aad, size=op["size"])
    expect(got == wanted, lambda: (
        f"{op['f']} gives {got.hex()[:32]}.. instead of {wanted.hex()[:32]}.."
    ))


def in_child(function):
    read, write = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(read)
            with os.fdopen(write, "wb") as pipe:
                pipe.write(function())
        finally:
            os._exit(0)
    os.close(write)
    with os.fdopen(read, "rb") as pipe:
        got = pipe.read()
    os.waitpid(pid, 0)
    return got


# ------------------------------------------------------------ neighbours

neighbours = st.one_of(
    st.fixed_dictionaries({"op": st.sampled_from(["data", "call", "update"]), "v": variants}),
    st.fixed_dictionaries({"op": st.sampled_from(
        ["domain", "key", "aad", "domain-key", "domain-data", "data-call", "aad-call",
         "split-update", "merge-update", "update-data", "function", "size", "key-zero"]),
        "n": st.integers(1, 3)}),
)
pairs = st.fixed_dictionaries({
    "domain": small, "key": keys, "data": datas,
    "updates": st.lists(datas.filter(bool), max_size=2),
    "call": datas, "aad": small, "f": st.sampled_from(FUNCTIONS),
    "size": st.integers(8, 80), "neighbour": neighbours, "is_async": st.booleans(),
})


def vary_call(c, n):
    c = dict(c)
    op = n["op"]
    k = n.get("n", 1)
    if op in ("data", "call"):
        c[op] = vary(c[op], n["v"], 0)
    elif op == "update" and c["updates"]:
        changed = vary(c["updates"][0], n["v"], 0)
        c["updates"] = ([changed] if changed else []) + c["updates"][1:]
    elif op in ("domain", "key", "aad"):
        c[op] += b"\1" * k
    elif op == "key-zero":
        c["key"] += b"\0" * k
    elif op == "domain-key":
        c["key"], c["domain"] = c["key"] + c["domain"][:k], c["domain"][k:]
    elif op == "domain-data":
        c["data"], c["domain"] = [c["domain"], *c["data"]], b""
    elif op == "data-call":
        c["data"], c["call"] = [], c["data"] + c["call"]
    elif op == "aad-call":
        c["aad"], c["call"] = b"", [c["aad"], *c["call"]]
    elif op == "split-update" and c["updates"] and len(c["updates"][0]) > 1:
        u = c["updates"][0]
        c["updates"] = [u[:1], u[1:], *c["updates"][1:]]
    elif op == "merge-update" and len(c["updates"]) > 1:
        c["updates"] = [c["updates"][0] + c["updates"][1]]
    elif op == "update-data" and c["updates"]:
        c["data"], c["updates"] = c["data"] + c["updates"][0], c["updates"][1:]
    elif op == "function":
        c["f"] = FUNCTIONS[(FUNCTIONS.index(c["f"]) + k) % 4]
    elif op == "size":
        c["size"] += k
    return c


def resolve(case):
    return {
        "domain": blob(case["domain"]), "key": blob(case["key"]),
        "data": [blob(d) for d in case["data"]],
        "updates": [[blob(d) for d in u] for u in case["updates"]],
        "call": [blob(d) for d in case["call"]], "aad": blob(case["aad"]),
        "f": case["f"], "size": case["size"] if case["f"].startswith("shake") else 0,
    }


def compute(c, is_async):
    kdf = aiootp.DomainKDF(c["domain"], *c["data"], key=c["key"])
    for values in c["updates"]:
        call(kdf, "update", is_async, *values)
    return derive(kdf, is_async, c["f"], *c["call"], aad=c["aad"], size=c["size"] or 40)


def evaluate_pair(case):
    first = resolve(case)
    second = vary_call(first, case["neighbour"])
    if not second["f"].startswith("shake"):
        second["size"] = 0
    a, b = compute(first, case["is_async"]), compute(second, not case["is_async"])
    if first == second:
        expect(a == b, "equal derivations give different keys")
    else:
        n = min(len(a), len(b))
        expect(a[:n] != b[:n], lambda: (
            f"changing {case['neighbour']['op']} does not change the key"
        ))


def large(tier):
    """Much data, many pieces of it, many updates, long keys and outputs."""
    lengths = (1000, 4096, 4097, 32768, 65535, 65536, 65537, 2**17 + 1, 2**20)
    counts = (16, 17, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1000)
    one = {"h": "61"}
    base = {"domain": {"h": "64"}, "key": {"s": [1, 64]}, "data": [], "updates": [], "call": [],
            "aad": {"h": ""}, "size": 40}
    last = [{"op": "cut", "n": 1}, {"op": "extend", "n": 1}, {"op": "drop", "n": 1}]
    for i, f in enumerate(FUNCTIONS):
        for n, length in enumerate(lengths):
            long = {"s": [i, length]}
            is_async = bool(n + i & 1)
            for where, op in (("data", "data"), ("call", "call"), ("updates", "update")):
                value = [[long]] if where == "updates" else [long]
                for v in last[:2]:
                    yield {**base, where: value, "f": f, "is_async": is_async,
                           "neighbour": {"op": op, "v": {**v, "i": 0}}}
            for where in ("domain", "key", "aad"):
                yield {**base, where: long, "f": f, "is_async": is_async, "neighbour": {"op": where, "n": 1}}
            if f.startswith("shake"):
                yield {**base, "size": length, "f": f, "is_async": is_async, "neighbour": {"op": "size", "n": 1}}
        for count in counts:
            for where, op in (("data", "data"), ("call", "call"), ("updates", "update")):
                value = [[one] * count] if where == "updates" else [one] * count
                for v in last:
                    yield {**base, where: value, "f": f, "is_async": bool(count & 1),
                           "neighbour": {"op": op, "v": {**v, "i": count - 1}}}
            yield {**base, "updates": [[one]] * count, "f": f, "is_async": bool(count & 1),
                   "neighbour": {"op": "update", "v": {"op": "cut", "i": 0, "n": 1}}}


def evaluate_large(case):
    """As the reference has it, and as no neighbour has it."""
    first = resolve(case)
    for c, is_async in ((first, case["is_async"]), (vary_call(first, case["neighbour"]), not case["is_async"])):
        model = R.KDF(c["domain"], *c["data"], key=c["key"])
        for values in c["updates"]:
            model.update(*values)
        size = (c["size"] or 40) if c["f"].startswith("shake") else 0
        expect(compute(c, is_async) == reference(model, c["f"], *c["call"], aad=c["aad"], size=size),
               lambda: f"{c['f']} gives another key than its definition")
    evaluate_pair(case)


def differs(case):
    first = resolve(case)
    return vary_call(first, case["neighbour"]) != first


def history_labels(case):
    for op in case["ops"]:
        yield op["op"]


PARTS = [
    Sweep("large", large, evaluate_large, nontrivial=differs, labels=lambda c: [c["neighbour"]["op"]]),
    Part("histories", histories, evaluate_history, 700, labels=history_labels,
         nontrivial=lambda c: any(o["op"] in ("copy", "update") for o in c["ops"])),
    Part("neighbours", pairs, evaluate_pair, 2000, nontrivial=differs,
         labels=lambda c: [c["neighbour"]["op"]]),
]
