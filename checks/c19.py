"""C19: curve key objects are faithful and signatures bind message and key."""

from cryptography.hazmat.primitives.asymmetric import ed25519, x25519
from hypothesis import strategies as st

from lib import strategies as S
from lib.ciph import call
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing against a model (which key the object holds) "
    "and differential testing against the curve library; generated edits of "
    "messages, keys and signatures"
)
RULE = (
    "a case is a history of one key object, or a signature with attempts to verify "
    "it; non-trivial when the object is given a key at least twice, respectively when "
    "something is altered. Distinct by the whole case."
)

KINDS = {
    "X25519": (aiootp.X25519, x25519.X25519PrivateKey, x25519.X25519PublicKey),
    "Ed25519": (aiootp.Ed25519, ed25519.Ed25519PrivateKey, ed25519.Ed25519PublicKey),
}
seeds = st.one_of(
    st.builds(lambda s: {"s": [s, 32]}, st.integers(0, 2**20)),
    st.sampled_from([{"r": [0, 32]}, {"r": [255, 32]}, {"r": [1, 32]}]),
    S.sized_blobs(st.just(32)),
)
values = st.one_of(
    st.fixed_dictionaries({"form": st.sampled_from(["bytes", "bytes", "object"]), "key": seeds}),
    st.fixed_dictionaries({"form": st.sampled_from(["bad-size", "bad-size"]),
                           "key": S.sized_blobs(st.sampled_from([0, 1, 31, 33, 64]))}),
    st.fixed_dictionaries({"form": st.sampled_from(["other-curve", "text", "none", "self", "wrong-half"]),
                           "key": seeds}),
)
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.sampled_from(["secret", "public"]), "value": values,
                           "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("generate"), "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["assign", "delete"]),
                           "name": st.sampled_from(["secret_key", "public_key", "secret_bytes",
                                                    "public_bytes", "_secret_key", "_public_key"]),
                           "key": seeds}),
    st.fixed_dictionaries({"op": st.sampled_from(["use", "use", "use-own"]), "key": seeds,
                           "data": S.blobs(0, 40), "is_async": st.booleans(),
                           "object": st.booleans()}),
)
histories = st.fixed_dictionaries({
    "kind": st.sampled_from(sorted(KINDS)), "ops": st.lists(OPS, min_size=3, max_size=10),
})


def public_of(kind, secret):
    return KINDS[kind][1].from_private_bytes(secret).public_key().public_bytes_raw()


def given_value(kind, which, value):
    """(the argument, the raw key it stands for or None when it must be refused)"""
    _, secret_type, public_type = KINDS[kind]
    raw = blob(value["key"])
    form = value["form"]
    if form in ("bytes", "object"):
        if which == "public":
            raw = public_of(kind, raw)
        make = secret_type.from_private_bytes if which == "secret" else public_type.from_public_bytes
        return (raw if form == "bytes" else make(raw)), raw
    if form == "bad-size":
        return raw, None
    if form == "other-curve":
        other = KINDS["Ed25519" if kind == "X25519" else "X25519"]
        secret = other[1].from_private_bytes(raw)
        return (secret if which == "secret" else secret.public_key()), None
    if form == "wrong-half":
        secret = secret_type.from_private_bytes(raw)
        return (secret.public_key() if which == "secret" else secret), None
    if form == "self":
        return KINDS[kind][0]().import_secret_key(raw), None
    return {"text": "k" * 32, "none": None}[form], None


class Model:
    secret = public = None


def evaluate(case):
    kind = case["kind"]
    cls, secret_type, public_type = KINDS[kind]
    obj, model = cls(), Model()
    compare(kind, obj, model)
    for op in case["ops"]:
        step(kind, obj, model, op)
        compare(kind, obj, model)


def attempt(function):
    try:
        return True, function()
    except Exception as error:  # noqa: BLE001
        return False, error


def step(kind, obj, model, op):
    name = op["op"]
    if name in ("secret", "public"):
        argument, raw = given_value(kind, name, op["value"])
        worked, got = attempt(lambda: call(obj, f"import_{name}_key", op["is_async"], argument))
        allowed = raw is not None and model.public is None
        expect(worked == allowed, lambda: (
            f"importing a valid {name} key into an empty object fails: {got!r}" if allowed
            else "the key of an object is replaced" if model.public
            else f"a {op['value']['form']} {name} key is imported"
        ))
        if worked:
            expect(got is obj, "importing does not return the object")
            if name == "secret":
                model.secret, model.public = raw, public_of(kind, raw)
            else:
                model.public = raw
    elif name == "generate":
        worked, got = attempt(lambda: call(obj, "generate", op["is_async"]))
        expect(worked == (model.public is None), lambda: (
            f"generating a key fails: {got!r}" if not worked else "the key of an object is replaced"
        ))
        if worked:
            model.secret = obj.secret_bytes
            expect(len(model.secret) == 32, "a generated key has not 32 bytes")
            model.public = public_of(kind, model.secret)
    elif name in ("assign", "delete"):
        if name == "assign":
            worked, _ = attempt(lambda: setattr(
                obj, op["name"], KINDS[kind][1].from_private_bytes(blob(op["key"]))))
        else:
            worked, _ = attempt(lambda: delattr(obj, op["name"]))
        expect(not worked, lambda: f"{name} of {op['name']} is allowed")
    else:
        use(kind, obj, model, op)


def use(kind, obj, model, op):
    """A private operation: works exactly when there is a secret key."""
    if kind == "X25519":
        peer = KINDS[kind][1].from_private_bytes(blob(op["key"])).public_key()
        if op["op"] == "use-own" and model.public:
            peer = KINDS[kind][2].from_public_bytes(model.public)
        argument = peer if op["object"] else peer.public_bytes_raw()
        worked, got = attempt(lambda: call(obj, "exchange", op["is_async"], argument))
        wanted = model.secret and KINDS[kind][1].from_private_bytes(model.secret).exchange(peer)
    else:
        data = blob(op["data"])
        worked, got = attempt(lambda: call(obj, "sign", op["is_async"], data))
        wanted = model.secret and KINDS[kind][1].from_private_bytes(model.secret).sign(data)
    expect(worked == (model.secret is not None), lambda: (
        f"a private operation fails with a secret key: {got!r}" if model.secret else
        "a private operation works without a secret key"
    ))
    if worked:
        expect(got == wanted, lambda: f"{'exchange' if kind == 'X25519' else 'sign'} gives "
                                      f"{got.hex()}, the standard algorithm {wanted.hex()}")


def compare(kind, obj, model):
    _, secret_type, public_type = KINDS[kind]
    expect(obj.has_secret_key() == (model.secret is not None), "has_secret_key is wrong")
    expect(obj.has_public_key() == (model.public is not None), "has_public_key is wrong")
    for half, wanted in (("secret", model.secret), ("public", model.public)):
        worked, got = attempt(lambda: getattr(obj, half + "_bytes"))
        if wanted is None:
            expect(not worked, lambda: f"an absent {half} key is exported")
            expect(getattr(obj, half + "_key") is None, lambda: f"an absent {half} key is present")
        else:
            expect(worked and got == wanted, lambda: f"the {half} key is exported as {got!r}")
            wrapped = getattr(obj, half + "_key")
            raw = wrapped.private_bytes_raw() if half == "secret" else wrapped.public_bytes_raw()
            expect(raw == wanted, lambda: f"the {half} key object is another")


# ------------------------------------------------------------ signatures

#   things given as the key to verify with that are none
NO_KEYS = {"empty": b"", "short": bytes(31), "long": bytes(33), "text": "", "zero": 0, "false": False,
           "list": [], "own kind": aiootp.Ed25519()}
ORDER = 2**252 + 27742317777372353535851937790883648493
tries = st.one_of(
    st.fixed_dictionaries({"what": st.just("same")}),
    st.fixed_dictionaries({"what": st.just("message"),
                           "how": st.sampled_from(["flip", "append", "cut", "prepend", "empty", "double"]),
                           "at": st.integers(0, 500)}),
    st.fixed_dictionaries({"what": st.just("signature"),
                           "how": st.sampled_from(["flip", "flip", "flip", "append", "cut", "empty",
                                                   "order", "negate", "halves", "zero"]),
                           "at": st.integers(0, 511)}),
    st.fixed_dictionaries({"what": st.just("key"), "key": seeds, "flip": st.booleans(),
                           "at": st.integers(0, 255)}),
    st.fixed_dictionaries({"what": st.just("key"), "as": st.sampled_from(sorted(NO_KEYS))}),
).flatmap(lambda t: st.fixed_dictionaries({
    **{k: st.just(v) for k, v in t.items()}, "is_async": st.booleans(),
    "by": st.sampled_from(["signer", "public-only", "argument-bytes", "argument-object"]),
}))
signatures = st.fixed_dictionaries({
    "key": seeds, "data": st.one_of(S.blobs(0, 40), S.sized_blobs(S.near([64, 128, 1000], spread=1))),
    "is_async": st.booleans(), "tries": st.lists(tries, min_size=1, max_size=5),
})


def edited(value, how, at):
    if how == "flip" and value:
        at %= 8 * len(value)
        return value[:at // 8] + bytes([value[at // 8] ^ 1 << at % 8]) + value[at // 8 + 1:]
    if how in ("append", "flip"):
        return value + bytes([at % 256])
    if how == "cut":
        return value[:-1 - at % 40]
    if how == "prepend":
        return bytes([at % 256]) + value
    if how == "empty":
        return b""
    if how == "zero":
        return bytes(64)
    if how == "halves":
        return value[32:] + value[:32]
    if how in ("order", "negate"):
        s = int.from_bytes(value[32:], "little")
        s = s + ORDER if how == "order" else ORDER - s
        return value[:32] + s.to_bytes(32, "little")
    return value + value


def evaluate_signature(case):
    secret, data = blob(case["key"]), blob(case["data"])
    signer = aiootp.Ed25519().import_secret_key(secret)
    signature = call(signer, "sign", case["is_async"], data)
    expect(signature == ed25519.Ed25519PrivateKey.from_private_bytes(secret).sign(data),
           "the signature is not the standard one")
    public = signer.public_bytes
    for attempted in case["tries"]:
        d, s, k = data, signature, public
        if attempted["what"] == "message":
            d = edited(d, attempted["how"], attempted["at"])
        elif attempted["what"] == "signature":
            s = edited(s, attempted["how"], attempted["at"])
        elif "as" in attempted:
            k = NO_KEYS[attempted["as"]]
        elif attempted["what"] == "key":
            k = edited(k, "flip", attempted["at"]) if attempted["flip"] else public_of(
                "Ed25519", blob(attempted["key"]))
        worked, got = attempt(lambda: verify(attempted, signer, k, s, d))
        same = (d, s, k) == (data, signature, public)
        expect(worked == same, lambda: (
            f"the right signature is refused: {got!r}" if same else
            f"accepted with another {attempted['what']}"
        ))
        expect(not worked or got is None, "verifying returns something")


def large(tier):
    """Long messages, altered far behind their start."""
    sizes = [1000, 4096, 4097, 8193, 65535, 65536, 65537, 10**6] + [2**24 + 1] * (tier == "thorough")
    for size in sizes:
        for is_async in (False, True):
            tries = [{"what": "same"}] + [
                {"what": "message", "how": how, "at": at} for how, at in (
                    ("flip", 8 * size - 1), ("flip", 4 * size), ("append", 0), ("cut", 0), ("prepend", 0),
                    ("double", 0), ("flip", 0))]
            yield {"key": {"s": [size, 32]}, "data": {"s": [size % 997, size]}, "is_async": is_async, "tries": [
                {**t, "is_async": n % 2 == 0, "by": ("signer", "argument-bytes", "public-only")[n % 3]}
                for n, t in enumerate(tries)]}


def verify(attempted, signer, public, signature, data):
    by, is_async = attempted["by"], attempted["is_async"]
    if "as" in attempted:
        verifier = signer if by != "public-only" else aiootp.Ed25519().import_public_key(signer.public_bytes)
        return call(verifier, "verify", is_async, signature, data, public_key=public)
    if by == "signer" and public == signer.public_bytes:
        return call(signer, "verify", is_async, signature, data)
    if by in ("argument-bytes", "argument-object"):
        if by == "argument-object":
            public = ed25519.Ed25519PublicKey.from_public_bytes(public)
        other = aiootp.Ed25519().generate() if attempted["is_async"] else signer
        return call(other, "verify", is_async, signature, data, public_key=public)
    return call(aiootp.Ed25519().import_public_key(public), "verify", is_async, signature, data)


def labels(case):
    for op in case["ops"]:
        yield f"{op['op']} {op['value']['form']}" if "value" in op else op["op"]


PARTS = [
    Sweep("large", large, evaluate_signature),
    Part("objects", histories, evaluate, 2000, 30000, labels=labels,
         nontrivial=lambda c: sum(o["op"] in ("secret", "public", "generate") for o in c["ops"]) > 1),
    Part("signatures", signatures, evaluate_signature, 1800, 30000,
         nontrivial=lambda c: any(t["what"] != "same" for t in c["tries"]),
         labels=lambda c: [f"{t['what']} {t.get('how', '')}".strip() for t in c["tries"]]),
]
