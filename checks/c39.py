"""C39: invalid parameters are refused before anything happens."""

import inspect
import os
from fractions import Fraction

from hypothesis import find, settings
from hypothesis import strategies as st

from checks import c38
from lib import strategies as S
from lib import sut, twins
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp
from lib.twins import plain, value

TECHNIQUE = (
    "property-based testing: generated calls of the public constructors and operations with "
    "one invalid argument must raise; metamorphic histories of valid calls with refused ones "
    "between them, in synchronous and asynchronous form, must have the outcomes and effects of "
    "the same history without the refused calls"
)
RULE = (
    "a case is one call with an invalid argument whose other arguments are accepted, or a history "
    "with at least one refused and one accepted call. Distinct by the whole case."
)
ASSUMPTIONS = (
    "which arguments are invalid is a stated table: values of a type without the bytes, text, "
    "number or file name that is asked for, and sizes and costs outside the documented limits",
    "which exception is raised is not judged",
)


def named(*names):
    return st.sampled_from(names).map(lambda name: {"w": name})


FILLED = ("one", "minus", "true", "big", "float", "nan", "text", "digits", "text of 64", "subclass", "list", "ints",
          "dict", "tuple", "set", "class", "thing", "function")
EMPTY = ("none", "zero", "no text", "no list")
not_bytes = named(*FILLED, *EMPTY)
not_bytes_or_empty = named(*FILLED)  # an empty value may stand for a default
not_key = named(*(n for n in FILLED if n not in ("list", "tuple", "ints", "set")))
not_text = named(*(n for n in FILLED if n not in ("text", "digits", "text of 64", "subclass")), "none", "zero", "bytes", "no list")
not_time = named("text", "digits", "bytes", "8 bytes", "list", "ints", "dict", "tuple", "set", "class", "thing", "function", "nan")
not_size = named("none", "float", "nan", "text", "digits", "bytes", "list", "dict", "tuple", "set", "class", "thing", "function")
not_json = named("bytes", "8 bytes", "bytearray", "set", "class", "thing", "function")
not_path = named("float", "nan", "list", "dict", "tuple", "set", "class", "thing", "function")


EDGES = {}  # the extreme values of some of the strategies below


def edged(strategy, nodes):
    EDGES[id(strategy)] = (strategy, nodes)
    return strategy


def either(*strategies):
    """One of the strategies, which keeps their extreme values."""
    return edged(st.one_of(*strategies), [node for one in strategies for node in EDGES.get(id(one), (one, ()))[1]])


def sized(*spans):
    """Byte strings whose size is in one of the spans."""
    ends = [{"r": [7, size]} for span in spans for size in sorted({*span})]
    return edged(st.one_of(*(S.sized_blobs(st.one_of(st.integers(low, high), st.sampled_from([low, high]))) for low, high in spans)), ends)


def numbers(*items):
    """Some numbers, or numbers of the spans."""
    spans = [(item, item) if isinstance(item, int) else item for item in items]
    ends = [{"v": number} for span in spans for number in sorted({*span})]
    return edged(plain(st.one_of(*(st.integers(*span) for span in spans))), ends)


# not only values without bytes: where a constant is asked for, what may still change is refused
not_constant = either(not_bytes, named("array of 64", "array of 8", "bytearray", "view"))
SALT = either(not_bytes_or_empty, named("array of 8", "view"), sized((1, 7), (9, 40)))
SMALL_KEY = either(not_bytes, sized((0, 63)))
WORD = either(not_constant, sized((0, 11)))
POINT = either(not_bytes, sized((0, 31), (33, 64)))
flat = st.just({"h": "00" * 32})  # a public key without a shared secret


def among(bad, good=twins.data):
    """Several byte strings, one of them bad."""
    return st.tuples(st.lists(good, max_size=2), bad, st.lists(good, max_size=1)).map(
        lambda parts: {"t": [*parts[0], parts[1], *parts[2]]})


# ----------------------------------------------------------------- histories

TAG = not_text
DECRYPT = {0: either(not_bytes, S.blobs(0, 20)), "aad": not_bytes, "ttl": not_time}
REFUSED = {
    "cipher": {
        "bytes_encrypt": {0: not_bytes, "salt": SALT, "aad": not_constant},
        "json_encrypt": {0: not_json, "salt": SALT, "aad": not_constant},
        "make_token": {0: not_constant, "aad": not_constant},
        "bytes_decrypt": DECRYPT, "json_decrypt": DECRYPT, "read_token": DECRYPT,
    },
    "encrypting": {"buffer": {0: not_bytes}, "id": {0: either(numbers((1, 15), (33, 99), -1), named("text", "float", "list"))}},
    "decrypting": {"buffer": {0: either(not_bytes, S.blobs(1, 31))}, "spill": {0: plain(st.integers(0, 3999))}, "tag": {0: either(not_bytes, S.blobs(0, 23))}},
    "kdf": {
        "update": {0: either(among(not_bytes), st.just({"t": []}))},
        **{n: {0: among(not_bytes), "aad": not_bytes} for n in ("sha3_256", "sha3_512")},
        **{n: {0: among(not_bytes), "aad": not_bytes, "size": either(not_size, numbers((-5, 0)))} for n in ("shake_128", "shake_256")},
    },
    "clock": {"test_timestamp": {1: not_time}, "make_timestamp": {"size": either(not_size, numbers((-9, 0)))}},
    "permutation": {"update_increment": {0: either(named("text", "none", "thing"), numbers(0, (-9, -1)))},
                    "invert": {0: named("text", "none", "thing", "dict")}},
    "ids": {"read": {0: either(named("none", "one", "text", "thing", "float"), named("function", "class"))}},
    "keys": {
        "import_secret_key": {0: POINT}, "import_public_key": {0: POINT}, "sign": {0: not_bytes},
        "verify": {0: either(not_bytes, sized((0, 63), (65, 80))), 1: not_bytes, "public_key": either(not_bytes_or_empty, sized((1, 31), (33, 40)))},
        "exchange": {0: either(POINT, flat)},
    },
    "exchange": {
        "client send": {0: POINT}, "client receive": {0: either(POINT, flat)},
        "server receive": {0: among(either(POINT, flat), twins.Keys.seeds)},
    },
    "files": {"write": {1: not_bytes}, "append": {1: not_bytes}},
    "salts": {"make": {"salt": either(not_bytes_or_empty, sized((1, 31)))}, "update": {"salt": either(not_bytes, sized((0, 31)))},
              "find": {"key": either(not_bytes, sized((0, 1))), "size": either(not_size, numbers(-1, 0, 17, (18, 99)))}},
    "database": {
        **{n: {0: TAG} for n in ("set_tag", "query_tag", "pop_tag", "save_tag", "rollback_tag", "metatag", "delete_metatag", "filename")},
        **{n: {0: not_json if n == "json_encrypt" else not_bytes, "filename": not_text, "aad": not_bytes} for n in (
            "bytes_encrypt", "json_encrypt", "make_token")},
        **{n: {**DECRYPT, "filename": not_text} for n in ("bytes_decrypt", "json_decrypt", "read_token")},
    },
}
WITHOUT = {"keys": ("generate",), "database": ("delete_database",), "salts": ()}


def refused_step(kind, name):
    """One call of an operation with one argument it must refuse."""
    op = twins.KINDS[kind].ops[name]

    def spoil(parts):
        step, where, bad = parts
        step = {**step, "args": list(step["args"]), "named": dict(step["named"])}
        step["args" if isinstance(where, int) else "named"][where] = bad
        return {**step, "refused": where}
    return st.one_of(*(st.tuples(op.strategy(name, False), st.just(where), bad).map(spoil)
                       for where, bad in REFUSED[kind][name].items()))


def history(kind):
    found = twins.KINDS[kind]
    skip = WITHOUT.get(kind, ())
    good = S.weighted(*((op.strategy(n, False), op.weight) for n, op in found.ops.items() if n not in skip))
    bad = st.one_of(*(refused_step(kind, name) for name in REFUSED[kind]))
    return st.fixed_dictionaries({
        "kind": st.just(kind), "setup": found.setup, "is_async": st.booleans(),
        "steps": st.lists(S.weighted((good, 3), (bad, 2)), min_size=found.shortest, max_size=found.longest + 3),
    })


LAST = {"labels": [], "nontrivial": False}


def told(node):
    return f"the right value as {node['as']}" if "as" in node else node["w"] if "w" in node else c38.short(node.get("v", node.get("t", node)))


def undisturbed(case):
    seen, left = c38.play(case, case["is_async"])
    steps = case["steps"]
    kept = [at for at, step in enumerate(steps) if "refused" not in step]
    for at, step in enumerate(steps):
        if "refused" in step:
            where = step["refused"]
            node = step["args" if isinstance(where, int) else "named"][where]
            expect(seen[at][0] == "error", lambda: (
                f"call {at + 1}, {step['op']} of {case['kind']}, accepts {told(node)} as argument {where} and gives {c38.short(seen[at][1])}"))
    LAST["labels"] = sorted({f"{case['kind']}.{step['op'].strip()}: argument {step['refused']}" for step in steps if "refused" in step})
    LAST["nontrivial"] = len(kept) < len(steps) and any(seen[at][0] == "value" for at in kept)
    if len(kept) == len(steps):
        return
    alone, wanted = c38.play({**case, "steps": [steps[at] for at in kept]}, case["is_async"])
    for at, one in zip(kept, alone):
        expect(seen[at] == one, lambda: (
            f"call {at + 1}, {steps[at]['op']} of {case['kind']}, gives {c38.short(seen[at])} after refused calls and "
            f"{c38.short(one)} without them"))
    expect(left == wanted, lambda: (
        f"{case['kind']} is left as {c38.short(left)} with refused calls and as {c38.short(wanted)} without them"))


# ------------------------------------------------------------------- entries

class Entry:
    """A constructor or function: good and bad values of its parameters."""

    def __init__(self, name, call, **parameters):
        self.name, self.call, self.parameters = name, call, parameters

    def cases(self):
        def one(where):
            good = {n: pair[0] for n, pair in self.parameters.items()}
            return st.fixed_dictionaries({
                "entry": st.just(self.name), "is_async": st.booleans(), "where": st.just(where),
                "good": st.fixed_dictionaries(good), "bad": self.parameters[where][1]})
        return st.one_of(*(one(where) for where, pair in self.parameters.items() if pair[1] is not None))

    def extremes(self):
        """Each extreme bad value of each parameter, the others being simple."""
        plan = settings(database=None, derandomize=True, max_examples=50)
        good = {n: find(pair[0], lambda node: True, settings=plan) for n, pair in self.parameters.items()}
        for where, pair in self.parameters.items():
            for node in EDGES.get(id(pair[1]), (None, ()))[1]:
                for is_async in (False, True):
                    yield {"entry": self.name, "is_async": is_async, "where": where, "good": good, "bad": node}

    def recasts(self):
        """The right bytes or number of each parameter, given as something else."""
        def filled(node):
            return not {"h", "s", "r"} & {*node} or len(blob(node)) > 0

        plan = settings(database=None, derandomize=True, max_examples=200)
        good = {n: find(pair[0], filled, settings=plan) for n, pair in self.parameters.items()}
        for where, pair in self.parameters.items():
            if pair[1] is None:
                continue
            kinds = ()
            if {"h", "s", "r"} & {*good[where]} or good[where] == {"v": "..."}:
                kinds = (*FROZEN, *(CHANGING if (self.name, where) in CONSTANT else ()))
            elif type(good[where].get("v")) is int and where != "config_id" and self.name != "random_sleep":
                kinds = NUMBERS
            for kind in kinds:
                for is_async in (False, True):
                    yield {"entry": self.name, "is_async": is_async, "where": where, "good": good, "bad": {"as": kind}}


def pick(names):
    return plain(st.sampled_from(names))


def cipher(kw):
    return getattr(aiootp, kw.pop("kind"))(kw.pop("key"))


class Recast(str):
    """What a right value is to be turned into: the same content as something else."""


NUMBERS = ("float", "fraction", "digits", "one in a list")
FROZEN, CHANGING = ("ints", "text", "number"), ("bytearray", "view")
CONSTANT = {  # where a constant is asked for: elsewhere all which holds bytes is good
    *((name, where) for name in ("stream_encrypt", "stream_decrypt") for where in ("salt", "aad", "iv")),
    *((f"passcrypt.{name}", where) for name in ("new", "hash_passphrase", "verify") for where in ("passphrase", "salt")),
    ("cipher", "key"),
}
KINDS = {"bytearray": bytearray, "view": memoryview, "ints": list, "text": lambda right: right.decode("latin-1"),
         "number": lambda right: int.from_bytes(right, "big"), "float": float, "fraction": Fraction, "digits": str,
         "one in a list": lambda right: [right]}


def recast(right, kind):
    return KINDS[kind](right)


def make_stream(is_async, scratch, kw):
    made = cipher(kw)
    return made.astream_encrypt(**kw) if is_async else made.stream_encrypt(**kw)


def read_stream(is_async, scratch, kw):
    made = cipher(kw)
    writer = made.stream_encrypt(salt=bytes(8), aad=b"aad").buffer(b"text")
    sent = b"".join(b"".join(pair) for pair in writer.finalize())
    right = {"salt": bytes(8), "aad": b"aad", "iv": writer.iv}
    given = {**right, **{k: recast(right[k], v) if isinstance(v, Recast) else v for k, v in kw.items() if v is not Ellipsis}}

    async def read():
        stream = await made.astream_decrypt(**given)
        await stream.abuffer(sent)
        return [block async for block in stream.afinalize()]
    return read() if is_async else list(made.stream_decrypt(**given).buffer(sent).finalize())


def database(is_async, scratch, kw):
    path = kw.pop("path")
    kw["path"] = scratch if path == "scratch" else path
    return aiootp.AsyncDatabase(**kw) if is_async else aiootp.Database(**kw)


def profile(is_async, scratch, kw):
    credentials = kw.pop("credentials")
    credentials = credentials if isinstance(credentials, tuple) else (credentials,)
    if is_async:
        return aiootp.AsyncDatabase.agenerate_profile(*credentials, path=scratch, **kw)
    return aiootp.Database.generate_profile(*credentials, path=scratch, **kw)


def kdf(is_async, scratch, kw):
    return aiootp.DomainKDF(kw["domain"], *kw["data"], key=kw["key"])


def passcrypt(method):
    def call(is_async, scratch, kw):
        costs = {n: kw.pop(n) for n in ("mb", "cpu", "cores", "tag_size", "salt_size")}
        made = aiootp.Passcrypt(**costs)
        if method is None:
            return made
        return getattr(made, ("a" if is_async else "") + method)(**kw)
    return call


HASH = []


def verify(is_async, scratch, kw):
    if not HASH:
        HASH.append(aiootp.Passcrypt(mb=1, cpu=1, cores=1, tag_size=16).hash_passphrase(b"passphrase of the case", aad=b"aad"))
    right = {"composed_passcrypt_hash": HASH[0], "passphrase": b"passphrase of the case", "aad": b"aad"}
    given = {n: right[n] if v is Ellipsis else recast(right[n], v) if isinstance(v, Recast) else v for n, v in kw.items()}
    return (aiootp.Passcrypt.averify if is_async else aiootp.Passcrypt.verify)(**given)


def phrase(is_async, scratch, kw):
    return (aiootp.amnemonic if is_async else aiootp.mnemonic)(**kw)


def made_of(classes, *names):
    def call(is_async, scratch, kw):
        cls = classes[kw.pop("kind")]
        size = kw["config_id"]
        if isinstance(kw.get("key"), list) and kw["key"][:1] == ["key"]:
            kw["key"] = blob({"s": [1, max(0, cls.key_size(size) + kw["key"][1])]})
        return cls(**kw)
    return call


IDS = twins.Ids.CLASSES
PERMUTATIONS = twins.Permutation.KINDS


def function(place, name):
    def call(is_async, scratch, kw):
        positional = [value for _, value in sorted((n, v) for n, v in kw.items() if n.startswith("_"))]
        spread = [item for v in positional for item in (v if isinstance(v, tuple) else (v,))]
        return getattr(place, ("a" if is_async else "") + name)(*spread, **{n: v for n, v in kw.items() if not n.startswith("_")})
    return call


def in_thread(is_async, scratch, kw):
    """Work which leaves a trace where it ran."""
    run = aiootp.asynchs.Threads.anew if is_async else aiootp.asynchs.Threads.new
    return run(os.mkdir, os.path.join(scratch, "ran"), probe_delay=kw["probe_delay"])


SETTINGS = {
    "mb": (plain(st.just(1)), either(not_size, numbers(0, -1, 2**32, (2**25, 2**40)))),
    "cpu": (plain(st.just(1)), either(not_size, numbers(0, -1, 257, (257, 2**20)))),
    "cores": (plain(st.just(1)), either(not_size, numbers(0, -1, 257, (257, 2**20)))),
    "tag_size": (plain(st.just(16)), either(not_size, numbers(-1, 0, (1, 15)))),
    "salt_size": (plain(st.just(4)), either(not_size, numbers(-1, 0, 3, 257, (257, 999)))),
}
FIXED = {n: (pair[0], None) for n, pair in SETTINGS.items()}
OFF = pick([["key", by] for by in (-2, -1, 1, 2, 8, 64)])  # keys which are too short or long
COSTS = {n: SETTINGS[n] for n in ("mb", "cpu", "cores")}
good_word = S.blobs(12, 20)
good_key = S.sized_blobs(st.integers(64, 80))
kinds = (pick(S.CIPHERS), None)
eight = st.just({"s": [3, 8]})
little = S.blobs(0, 4)
RANGE = named("one", "none", "thing", "function", "float", "class")
DELAY = pick([None, 0.001, 0.0001])
NO_DELAY = either(not_time, numbers(0, (-9, -1)), pick([-0.5, 0.0, -0.0, -1e-300]))
ENTRIES = [
    Entry("cipher", lambda is_async, scratch, kw: cipher(kw), kind=kinds, key=(good_key, either(SMALL_KEY, named("array of 64")))),
    Entry("stream_encrypt", make_stream, kind=kinds, key=(good_key, None), salt=(eight, SALT), aad=(little, not_constant)),
    Entry("stream_decrypt", read_stream, kind=kinds, key=(good_key, None), salt=(plain(st.just("...")), SALT),
          aad=(plain(st.just("...")), not_constant), iv=(plain(st.just("...")), either(not_constant, sized((0, 7), (9, 30)))), ttl=(
              plain(st.sampled_from([None, 5])), not_time)),
    Entry("DomainKDF", kdf, domain=(little, not_bytes), data=(twins.several(little), among(not_bytes, little)), key=(good_key, not_bytes)),
    Entry("database", database, key=(good_key, SMALL_KEY), path=(pick(["scratch"]), not_path)),
    Entry("profile", profile, credentials=(twins.several(little), among(not_bytes, little)), username=(little, not_bytes), passphrase=(
        good_word, either(not_bytes, S.blobs(0, 0))), salt=(little, not_bytes), aad=(little, not_bytes), **COSTS),
    Entry("passcrypt", passcrypt(None), **SETTINGS),
    Entry("passcrypt.new", passcrypt("new"), **FIXED, passphrase=(good_word, WORD), salt=(S.blobs(4, 12), either(not_constant, sized((0, 3), (257, 300)))),
          aad=(little, not_bytes)),
    Entry("passcrypt.hash_passphrase", passcrypt("hash_passphrase"), **FIXED, passphrase=(good_word, WORD), aad=(little, not_bytes)),
    Entry("passcrypt.verify", verify, composed_passcrypt_hash=(pick(["..."]), either(not_bytes, sized((0, 36)))), passphrase=(pick(["..."]), WORD),
          aad=(pick(["..."]), not_bytes), ttl=(plain(st.none()), not_time), mb_allowed=(st.just({"r2": [1, 5]}), RANGE),
          cpu_allowed=(st.just({"r2": [1, 5]}), RANGE), cores_allowed=(st.just({"r2": [1, 5]}), RANGE)),
    Entry("mnemonic", phrase, passphrase=(good_word, either(not_bytes_or_empty, sized((1, 11)))), size=(plain(st.integers(1, 8)), either(
        not_size, numbers(0, (-9, -1)))), salt=(S.blobs(4, 12), not_bytes_or_empty),
        words=(plain(st.just(["one", "two"])), named("one", "thing", "class", "function", "float")), **COSTS),
    Entry("SequenceID", made_of(IDS), kind=(pick(["SequenceID"]), None), key=(pick([["key", 0]]), either(not_key, OFF)),
          config_id=(plain(st.integers(1, 12)), either(numbers(0, (-9, -1), (4097, 9999)), named("text", "float", "none", "thing", "list")))),
    Entry("GUID", made_of(IDS), kind=(pick(["GUID"]), None), key=(pick([["key", 0]]), either(not_key, OFF)),
          config_id=(plain(st.integers(12, 20)), either(numbers(0, (-9, 11), (4097, 9999)), named("text", "float", "none", "thing", "list"))),
          node_id=(S.blobs(1, 1), either(not_bytes, sized((2, 9), (0, 0))))),
    Entry("RawGUID", made_of(IDS), kind=(pick(["RawGUID"]), None), config_id=(plain(st.integers(12, 20)), either(
        numbers(0, (-9, 11), (4097, 9999)), named("text", "float", "none", "thing", "list"))),
        node_id=(S.blobs(1, 1), either(not_bytes, sized((2, 9), (0, 0))))),
    Entry("permutation", made_of(PERMUTATIONS), kind=(pick(sorted(PERMUTATIONS)), None), key=(pick([["key", 0]]), either(not_key, OFF)),
          config_id=(plain(st.integers(1, 12)), either(numbers(0, (-9, -1), (4097, 9999)), named("text", "float", "none", "thing", "list")))),
    Entry("clock", lambda is_async, scratch, kw: aiootp.asynchs.Clock(kw["units"], epoch=kw["epoch"]), units=(pick(twins.Clocks.UNITS), either(
        named("none", "one", "bytes", "thing"), pick(["", "second", "weeks", "SECONDS"]))), epoch=(pick([0, 10**18]), not_size)),
    Entry("csprng", function(aiootp, "csprng"), _0=(plain(st.integers(0, 70)), either(not_size, numbers((-9, -1))))),
    Entry("random_sleep", function(aiootp.randoms.simple, "random_sleep"), _0=(pick([0, 0.0001]), either(not_time, numbers((-9, -1))))),
    Entry("hash_bytes", function(aiootp, "hash_bytes"), _0=(twins.several(little), among(not_bytes, little)), key=(good_key, either(
        named(*FILLED), named("no bytes"))), pad=(S.blobs(1, 1), either(not_bytes, sized((0, 0), (2, 4))))),
    Entry("canonical_pack", function(aiootp, "canonical_pack"), _0=(twins.several(little), among(not_bytes, little)), pad=(S.blobs(1, 1), either(
        not_bytes, sized((0, 0), (2, 4)))), blocksize=(plain(st.integers(1, 9)), either(not_size, numbers(0, (-9, -1)))),
        int_bytes=(plain(st.integers(1, 9)), either(not_size, numbers(0, (-9, -1))))),
    Entry("xi_mix", function(aiootp.generics.transform, "xi_mix"), _0=(S.blobs(16, 16), named("one", "text", "float", "thing", "list")), size=(
        plain(st.integers(1, 8)), either(not_size, numbers(0, (-9, -1))))),
    Entry("thread", in_thread, probe_delay=(DELAY, NO_DELAY)),
    Entry("pool", function(aiootp.asynchs.Threads, "submit"), _0=(st.just({"w": "function"}), None), probe_delay=(DELAY, NO_DELAY)),
    Entry("verifier", lambda is_async, scratch, kw: aiootp.PackageVerifier(kw["key"], path=scratch), key=(S.blobs(32, 32), POINT)),
]
BY_NAME = {entry.name: entry for entry in ENTRIES}


async def attempt(entry, is_async, scratch, kw):
    result = entry.call(is_async, scratch, kw)
    if inspect.isawaitable(result):
        result = await result
    return result


def outcome(entry, case, scratch, bad):
    kw = {n: Ellipsis if node == {"v": "..."} else value(node) for n, node in case["good"].items()}
    if bad and "as" in case["bad"]:
        right = kw[case["where"]]
        kw[case["where"]] = Recast(case["bad"]["as"]) if right is Ellipsis else recast(right, case["bad"]["as"])
    elif bad:
        kw[case["where"]] = value(case["bad"])
    try:
        return ["value", sut.run(attempt(entry, case["is_async"], scratch, kw))]
    except Exception as error:  # noqa: BLE001
        return ["error", type(error).__name__]


def tree(root):
    return sorted(os.path.relpath(os.path.join(at, name), root) for at, folders, files in os.walk(root) for name in folders + files)


def refuses(case):
    entry = BY_NAME[case["entry"]]
    scratch = sut.scratch()
    try:
        kind, result = outcome(entry, case, scratch, True)
        expect(kind == "error", lambda: (
            f"{case['entry']} accepts {told(case['bad'])} as {case['where'].strip('_')} and gives {c38.short(result)}"))
        left = tree(scratch)
        expect(not left, lambda: f"{case['entry']} refuses {told(case['bad'])} as {case['where'].strip('_')} and leaves {left}")
        kind, _ = outcome(entry, case, scratch, False)
        LAST["nontrivial"] = kind == "value"
        LAST["labels"] = [f"{case['entry']}: {case['where'].strip('_')}" if kind == "value" else f"{case['entry']}: good values refused"]
    finally:
        sut.remove_scratch(scratch)


def part(name, strategy, check, quick):
    return Part(name, strategy, check, quick=quick, nontrivial=lambda case: LAST["nontrivial"], labels=lambda case: LAST["labels"])


SLOW = ("profile", "passcrypt.new", "passcrypt.hash_passphrase", "passcrypt.verify", "mnemonic")
COUNTS = {"cipher": 200, "encrypting": 150, "decrypting": 200, "kdf": 200, "clock": 100, "permutation": 100, "ids": 100,
          "keys": 200, "exchange": 250, "files": 100, "salts": 150, "database": 200}
PARTS = [
    part("entries", st.one_of(*(e.cases() for e in ENTRIES if e.name not in SLOW)), refuses, 1500),
    Sweep("extremes", lambda tier: [case for entry in ENTRIES for case in entry.extremes()], refuses,
          nontrivial=lambda case: LAST["nontrivial"], labels=lambda case: LAST["labels"]),
    Sweep("the right value as something else", lambda tier: [case for entry in ENTRIES for case in entry.recasts()], refuses,
          nontrivial=lambda case: LAST["nontrivial"], labels=lambda case: LAST["labels"]),
    part("costly entries", st.one_of(*(BY_NAME[n].cases() for n in SLOW)), refuses, 150),
    *(part(name, history(name), undisturbed, COUNTS[name]) for name in REFUSED),
]
