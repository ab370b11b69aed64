"""
A table of the operations which exist in a synchronous and an asynchronous
form. An operation belongs to a kind of object; a case names a kind, how to
build the object and which operations to call with which arguments.

Arguments are JSON: a byte string (see strategies), {"w": name} for one of
the odd values below, {"v": value} for a plain value and {"t": [...]} for a
tuple of arguments.
"""

import asyncio
import collections
import inspect
import io
import os
import pathlib

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut, work
from lib.strategies import blob, is_blob
from lib.sut import aiootp

from aiootp._permutations.affine_permutation import AffinePermutation  # noqa: E402
from aiootp._permutations.affine_xor_chain import AffineXORChain  # noqa: E402
from aiootp._permutations.fast_affine_xor_chain import FastAffineXORChain  # noqa: E402


class Text(str):
    """A string which is not exactly a `str`."""


class Thing:
    """Nothing any operation has a use for."""


ODD = {
    "none": None, "zero": 0, "one": 1, "minus": -1, "true": True, "big": 2**80, "float": 1.5, "whole": 8.0,
    "text": "some text", "no text": "", "digits": "12", "bytes": b"some bytes", "no bytes": b"",
    "8 bytes": bytes(range(8)), "text of 64": "t" * 64, "bytearray": bytearray(b"some bytes"),
    "view": memoryview(bytes(8)), "list": [1, 2], "no list": [], "dict": {"a": 1}, "tuple": (1, 2),
    "set": frozenset([3]), "class": int, "thing": Thing(), "subclass": Text("some text"), "nan": float("nan"),
    "ints": [0, 255, 3, 4, 5, 6, 7, 8], "array of 64": bytearray(64), "array of 8": bytearray(8),
    "function": len,
}
odd = st.sampled_from(sorted(ODD)).map(lambda name: {"w": name})


def value(node):
    """What an argument node stands for."""
    if is_blob(node):
        return blob(node)
    if "w" in node:
        return ODD[node["w"]]
    if "r2" in node:
        return range(*node["r2"])
    if "t" in node:
        return tuple(value(n) for n in node["t"])
    return node["v"]


def plain(strategy):
    return strategy.map(lambda v: {"v": v})


def several(strategy, low=0, high=3):
    return st.lists(strategy, min_size=low, max_size=high).map(lambda v: {"t": v})


small = plain(st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 2, 8, 64, 136, 168, 255, 256, 257, 300])))
data = st.one_of(S.blobs(0, 12), S.sized_blobs(S.near([32, 64, 128, 136, 168, 256], spread=1)))
texts = plain(st.one_of(st.sampled_from(["a", "b", "", "é", "a\x00", "file.txt"]), st.text(max_size=6)))
json_values = plain(S.json_trees(5))
flags = plain(st.booleans())


class Op:
    """One operation: its arguments, and how it is called."""

    def __init__(self, method, *positional, pure=True, show=None, whole=False, weight=2, **named):
        self.method = method
        self.positional = positional
        self.named = named
        self.pure = pure
        self.show = show
        self.whole = whole
        self.weight = weight

    def strategy(self, name, odds):
        def pick(strategy):
            return S.weighted((strategy, 14), (odd, 1)) if odds else strategy
        return st.fixed_dictionaries({
            "op": st.just(name), "args": st.tuples(*map(pick, self.positional)).map(list),
            "named": st.fixed_dictionaries({}, optional={n: pick(s) for n, s in self.named.items()})
            if not self.whole else st.fixed_dictionaries({n: pick(s) for n, s in self.named.items()}),
        })


class Env:
    """The object of a case, in one of its forms."""

    def __init__(self, kind, setup, is_async):
        self.is_async = is_async
        self.folder = None
        self.kind = kind
        self.objects = kind.build(self, setup)

    def close(self):
        if self.folder is not None:
            sut.remove_scratch(self.folder)

    def scratch(self):
        self.folder = sut.scratch()
        return self.folder

    def effects(self):
        return self.kind.effects(self)


class Kind:
    """A family of objects and its operations."""

    setup = st.just({})
    ops = {}
    shortest, longest = 2, 8

    def build(self, env, setup):
        return None

    def effects(self, env):
        return None

    def target(self, env, op, args):
        """The function to call and the arguments it gets."""
        name = ("a" if env.is_async else "") + op.method
        return getattr(env.objects, name), args

    async def perform(self, env, step):
        """The outcome of one step, awaited in the asynchronous form."""
        op = self.ops[step["op"]]
        args = []
        try:
            for node in step["args"]:
                args.extend(value(node) if "t" in node else [value(node)])
            named = {n: value(node) for n, node in step["named"].items()}
            function, args = self.target(env, op, args)
            result = function(*args, **named)
            if env.is_async and asyncio.iscoroutine(result):
                result = await result
            if inspect.isasyncgen(result):
                result = [item async for item in result]
            elif inspect.isgenerator(result):
                result = list(result)
        except Exception as error:  # noqa: BLE001
            return ["error", type(error).__name__]
        return ["value", op.show(result) if op.show else view(result)]


def view(result):
    """A result in a comparable form which tells types apart."""
    if result is None or isinstance(result, (bool, int, float, str)):
        return [type(result).__name__, repr(result)]
    if isinstance(result, (bytes, bytearray)):
        return [type(result).__name__, bytes(result).hex()]
    if isinstance(result, (list, tuple, set, frozenset)) or type(result).__name__ == "deque":
        return [type(result).__name__, [view(item) for item in result]]
    if hasattr(result, "timestamp"):
        return [type(result).__name__, [[n, view(getattr(result, n))] for n in ("timestamp", "token", "node_id", "ticker")]]
    if isinstance(result, dict):
        return ["dict", [[view(k), view(v)] for k, v in result.items()]]
    return ["object", type(result).__name__.replace("Async", "")]


async def first(iterator, count):
    """At most `count` items of a sync or async iterator."""
    items = []
    if hasattr(iterator, "__aiter__"):
        iterator = iterator.__aiter__()
        while len(items) < count:
            try:
                items.append(await iterator.__anext__())
            except StopAsyncIteration:
                break
    else:
        iterator = iter(iterator)
        while len(items) < count:
            try:
                items.append(next(iterator))
            except StopIteration:
                break
    return items


# ------------------------------------------------------------------ ciphers

CIPHER = {"salt": S.weighted((S.salts, 5), (S.blobs(0, 10), 1)), "aad": S.aads}
ttls = plain(st.one_of(st.none(), st.integers(0, 20)))


class Cipher(Kind):
    setup = st.fixed_dictionaries({"cipher": st.sampled_from(S.CIPHERS), "key": S.keys, "text": S.payloads("Slick256", 3),
                                   "aad": S.aads, "age": st.integers(0, 10)})
    payload = st.one_of(S.payloads("Slick256", 3), S.payloads("Chunky2048", 3))
    #   a ciphertext of the case, changed at one place or not at all
    spoiled = st.tuples(st.sampled_from(["good", "good", "good", "good", "flip", "cut", "grow", "block"]), st.integers(0, 700)).map(
        lambda pair: {"v": ["sent", *pair]})
    received = S.weighted((spoiled, 5), (payload, 1))
    own = S.weighted((plain(st.just("own")), 6), (S.aads, 1))
    ops = {
        "bytes_encrypt": Op("bytes_encrypt", payload, **CIPHER),
        "json_encrypt": Op("json_encrypt", json_values, **CIPHER),
        "make_token": Op("make_token", payload, aad=S.aads),
        "bytes_decrypt": Op("bytes_decrypt", received, aad=own, ttl=ttls),
        "json_decrypt": Op("json_decrypt", received, aad=own, ttl=ttls),
        "read_token": Op("read_token", received, aad=own, ttl=ttls),
    }

    def build(self, env, setup):
        cipher = getattr(aiootp, setup["cipher"])(blob(setup["key"]))
        now = sut.wall.time_ns()
        sut.wall.freeze(now - setup["age"] * 10**9)
        aad, text = blob(setup["aad"]), blob(setup["text"])
        env.sent = {
            "bytes_decrypt": cipher.bytes_encrypt(text, aad=aad),
            "json_decrypt": cipher.json_encrypt({"data": text.hex()}, aad=aad),
            "read_token": cipher.make_token(text, aad=aad),
        }
        env.aad = aad
        sut.wall.freeze(now)
        return cipher

    def target(self, env, op, args):
        args = list(args)
        if args and isinstance(args[0], list) and args[0][:1] == ["sent"] and op.method in env.sent:
            _, how, at = args[0]
            sent = bytearray(env.sent[op.method])
            if how == "flip":
                sent[at % len(sent)] ^= 1 + at % 255
            elif how == "cut":
                del sent[len(sent) - 1 - at % len(sent):]
            elif how == "grow":
                sent += bytes(1 + at % 40)
            elif how == "block":
                del sent[at % len(sent):at % len(sent) + 32]
            args[0] = bytes(sent)
        function, args = super().target(env, op, args)
        if op.method not in env.sent:
            return function, args

        def decrypt(*a, aad="own", **kw):
            return function(*a, aad=env.aad if aad == "own" else aad, **kw)
        return decrypt, args


class Encrypting(Kind):
    """A stream and the pieces given to it."""

    setup = st.fixed_dictionaries({"cipher": st.sampled_from(S.CIPHERS), "key": S.keys, "salt": S.salts, "aad": S.aads})
    ops = {
        "buffer": Op("buffer", st.one_of(S.payloads("Slick256", 3), S.payloads("Chunky2048", 3)), pure=False),
        "finalize": Op("finalize", pure=False), "take": Op("take", pure=False),
        "next": Op("next", pure=False),
        "id": Op("id", plain(st.one_of(st.none(), st.integers(0, 40))), pure=False),
    }

    def build(self, env, setup):
        cipher = getattr(aiootp, setup["cipher"])(blob(setup["key"]))
        kw = {"salt": blob(setup["salt"]), "aad": blob(setup["aad"])}
        return sut.run(cipher.astream_encrypt(**kw)) if env.is_async else cipher.stream_encrypt(**kw)

    def effects(self, env):
        try:
            tag = view(env.objects.shmac.result)
        except Exception as error:  # noqa: BLE001
            tag = type(error).__name__
        return [tag, env.objects.salt.hex(), env.objects.iv.hex(), env.objects.aad.hex()]

    def target(self, env, op, args):
        stream = env.objects
        if op.method == "buffer":
            async def buffer(data):
                if env.is_async:
                    found = await stream.abuffer(data)
                else:
                    found = stream.buffer(data)
                return found is stream
            return later(env, buffer), args
        if op.method == "finalize":
            return (lambda: stream.afinalize()) if env.is_async else (lambda: list(stream.finalize())), args
        if op.method in ("take", "next"):
            async def take():
                return await first(stream, 1 if op.method == "next" else 10**6)
            return later(env, take), args
        return later(env, self.identify(env, stream)), args

    def identify(self, env, stream):
        async def identify(size):
            kw = {} if size is None else {"size": size}
            block = bytes(256)
            if env.is_async:
                return await stream.shmac.anext_block_id(block, **kw)
            return stream.shmac.next_block_id(block, **kw)
        return identify


def later(env, function):
    """A coroutine function as it is, or run to its end at once."""
    if env.is_async:
        return function

    def run(*args, **kw):
        coroutine = function(*args, **kw)
        try:
            coroutine.send(None)
        except StopIteration as stop:
            return stop.value
        raise RuntimeError("a synchronous call waited for something")
    return run


class Decrypting(Encrypting):
    shortest, longest = 3, 10
    setup = st.fixed_dictionaries({
        "cipher": st.sampled_from(S.CIPHERS), "key": S.keys, "salt": S.salts, "aad": S.aads,
        "text": st.one_of(S.payloads("Slick256", 3), S.payloads("Chunky2048", 3)), "ttl": st.one_of(st.none(), st.integers(0, 20)),
        "age": st.integers(0, 10), "harm": st.one_of(st.none(), st.none(), st.integers(0, 900))})
    ops = {
        "feed": Op("feed", plain(st.one_of(st.integers(1, 4), st.integers(1, 900))), pure=False),
        "feed ": Op("feed", plain(st.integers(1, 9)), pure=False),
        "buffer": Op("buffer", S.payloads("Slick256", 2), pure=False),
        "spill": Op("spill", plain(st.integers(0, 3999)), pure=False),
        "rest": Op("rest", pure=False), "finish": Op("finish", pure=False), "finish ": Op("finish", pure=False),
        "tag": Op("tag", plain(st.sampled_from(["good", "good", "bad", "short"])), pure=False),
        "check": Op("check", plain(st.integers(0, 40)), flags, pure=False),
        **{n: Encrypting.ops[n] for n in ("finalize", "take", "next")},
    }

    def build(self, env, setup):
        cipher = getattr(aiootp, setup["cipher"])(blob(setup["key"]))
        now = sut.wall.time_ns()
        sut.wall.freeze(now - setup["age"] * 10**9)
        kw = {"salt": blob(setup["salt"]), "aad": blob(setup["aad"])}
        stream = cipher.stream_encrypt(**kw).buffer(blob(setup["text"]))
        sent = bytearray(b"".join(b"".join(pair) for pair in stream.finalize()))
        sut.wall.freeze(now)
        env.unit = stream.PACKETSIZE
        env.tag = stream.shmac.result
        if setup["harm"] is not None:
            sent[setup["harm"] % len(sent)] ^= 1
        env.sent, env.at = bytes(sent), 0
        kw |= {"iv": stream.iv, "ttl": setup["ttl"]}
        return sut.run(cipher.astream_decrypt(**kw)) if env.is_async else cipher.stream_decrypt(**kw)

    def target(self, env, op, args):
        stream = env.objects
        if op.method in ("feed", "rest"):
            blocks = args[0] if op.method == "feed" else 10**6
            if type(blocks) is not int:
                raise TypeError
            # whole packets, or some odd number of bytes
            size = blocks * env.unit if blocks < 10 or blocks > 1000 else blocks
            piece = env.sent[env.at:env.at + size]
            env.at += size
            return super().target(env, Op("buffer"), [piece])
        if op.method == "spill":
            # the next packets of the stream and a part of one more
            blocks, extra = divmod(args[0], 1000)
            piece = env.sent[env.at:env.at + blocks * env.unit]
            piece = piece[:len(piece) - len(piece) % env.unit] + bytes(1 + extra % (env.unit - 1))
            return super().target(env, Op("buffer"), [piece])
        if op.method == "finish":
            piece, env.at = env.sent[env.at:], len(env.sent)

            async def finish():
                if env.is_async:
                    await stream.abuffer(piece)
                    return [block async for block in stream.afinalize()]
                return list(stream.buffer(piece).finalize())
            return later(env, finish), []
        if op.method == "tag":
            tag = {"good": env.tag, "bad": env.tag[:-1] + bytes([env.tag[-1] ^ 1]), "short": env.tag[:-1]}.get(
                args[0] if isinstance(args[0], str) else None, args[0])

            async def test():
                return (await stream.shmac.atest_shmac(tag)) if env.is_async else stream.shmac.test_shmac(tag)
            return later(env, test), []
        if op.method == "check":
            async def check(size, good):
                block = env.sent[env.unit - 256 if env.unit > 256 else 0:env.unit]
                tag = env.sent[:24] if not good else env.sent[:size if type(size) is int and size > 0 else 24]
                if env.is_async:
                    return await stream.shmac.atest_next_block_id(tag, block)
                return stream.shmac.test_next_block_id(tag, block)
            return later(env, check), args
        return super().target(env, op, args)


# ------------------------------------------------------------ key derivation

class Kdf(Kind):
    setup = st.fixed_dictionaries({"domain": data, "data": st.lists(data, max_size=2), "key": S.keys})
    ops = {
        "update": Op("update", several(data), pure=False),
        **{n: Op(n, several(data), aad=data) for n in ("sha3_256", "sha3_512")},
        **{n: Op(n, several(data), aad=data, size=small, whole=True) for n in ("shake_128", "shake_256")},
    }

    def build(self, env, setup):
        return aiootp.DomainKDF(blob(setup["domain"]), *map(blob, setup["data"]), key=blob(setup["key"]))

    def effects(self, env):
        return env.objects.sha3_512().hex()


class Functions(Kind):
    shortest, longest = 5, 16
    """Functions of their arguments alone."""

    tables = plain(st.sampled_from(["01", "0123456789abcdef", "abc", "xyz0", "", "a"]))
    numbers = plain(st.one_of(st.integers(0, 300), st.integers(0, 2**130), st.integers(-3, 3)))
    pads = st.one_of(S.blobs(1, 1), S.blobs(1, 1), S.blobs(0, 3))
    sizes = plain(st.one_of(st.integers(0, 9), st.integers(-2, 300)))
    lists = plain(st.lists(st.integers(0, 9), max_size=7))
    orders = plain(st.sampled_from(["big", "little", "big", "odd"]))
    ops = {
        "hash_bytes": Op("hash_bytes", several(data), pad=pads, key=data, size=small,
                         hasher=plain(st.sampled_from(["sha256", "sha3_512", "blake2b", "shake_128", "shake_256"]))),
        "canonical_pack": Op("canonical_pack", several(data, 0, 4), blocksize=sizes, pad=pads, int_bytes=sizes),
        "canonical_unpack": Op("canonical_unpack", data),
        "unpack packed": Op("unpack packed", several(data, 0, 4), plain(st.integers(0, 200)), plain(st.integers(0, 255))),
        "bytes_are_equal": Op("bytes_are_equal", data, data),
        "fullblock_ljust": Op("fullblock_ljust", data, sizes, pad=pads),
        "encode_key": Op("encode_key", data, sizes, pad=pads),
        "encode_items": Op("encode_items", several(data, 0, 4), int_bytes=sizes),
        "xi_mix": Op("xi_mix", data, size=sizes),
        "int_as_base": Op("int_as_base", numbers, base=sizes, table=tables),
        "base_as_int": Op("base_as_int", plain(st.text("0123456789abcdefxyz", max_size=8)), base=sizes, table=tables),
        "encode_constant": Op("encode_constant", st.one_of(texts, data), sizes, domain=data, aad=data, pad=pads),
        "bytes_to_urlsafe": Op("bytes_to_urlsafe", data),
        "urlsafe_to_bytes": Op("urlsafe_to_bytes", st.one_of(data, plain(st.text("ABab01-_=%+/", max_size=9)))),
        "bytes_to_filename": Op("bytes_to_filename", data),
        "filename_to_bytes": Op("filename_to_bytes", plain(st.text("0123456789abcdef.-/", max_size=9))),
        "bytes_to_phrase": Op("_bytes_to_phrase", data), "phrase_to_bytes": Op("_phrase_to_bytes", texts),
        "deniable_filename": Op("deniable_filename", S.sized_blobs(S.near([0, 16, 32, 34, 64])), size=plain(st.sampled_from([0, 1, 2, 8, 15, 16, 17]))),
        "filename_to_index_key": Op(
            "filename_to_index_key", plain(st.text("0123456789abcdef.-/", max_size=9)), several(data, 0, 2), size=sizes, key=data),
        "batch": Op("batch", st.one_of(data, lists), size=sizes),
        "resize": Op("resize", st.one_of(plain(st.lists(st.text(max_size=4), max_size=4)), several(data)), size=sizes),
        "collate": Op("collate", several(lists, 0, 3)),
        "unpack": Op("unpack", plain(st.lists(st.lists(st.integers(0, 9), max_size=3), max_size=3))),
        "popleft": Op("popleft", lists), "decode_items": Op("decode_items", data, plain(st.integers(0, 3)), plain(st.integers(0, 3))),
        "cycle": Op("cycle", lists), "count": Op("count", start=sizes),
        "bytes_count": Op("bytes_count", start=sizes, size=sizes, byte_order=orders),
        "bytes_range": Op("bytes_range", several(sizes, 1, 3), size=sizes, byte_order=orders),
        "keyed_choices": Op("keyed_choices", plain(st.lists(st.text(max_size=3), max_size=9)), sizes, domain=data, key=data),
        "csprng": Op("csprng", sizes, entropy=data, show=lambda out: len(out)),
        "random_sleep": Op("random_sleep", plain(st.sampled_from([0, 0.0001, 0.001])), show=lambda out: out is None),
    }
    places = None

    def build(self, env, setup):
        if Functions.places is None:
            generics, tools = aiootp.generics, aiootp._gentools
            where = [generics, generics.canon, generics.transform, generics.hashing, generics.domains.Domains, generics.ByteIO,
                     tools, aiootp._paths, aiootp.keygens.mnemonics, aiootp.randoms.rng, aiootp.randoms.simple, aiootp.randoms]
            Functions.places = where
        return self

    def target(self, env, op, args):
        name = op.method
        if name == "unpack packed":
            items, (at, byte) = args[:-2], args[-2:]
            packed = bytearray(aiootp.canonical_pack(*items))
            if type(at) is int and type(byte) is int and at < len(packed):
                packed[at] = byte
            name, args = "canonical_unpack", [bytes(packed)]
        name = "_a" + name[1:] if env.is_async and name[0] == "_" else "a" + name if env.is_async else name
        for place in self.places:
            if hasattr(place, name):
                function = getattr(place, name)
                break
        else:
            raise LookupError(f"there is no function {name}")
        if op.method == "popleft" and isinstance(args[0], list):
            args = [collections.deque(args[0])]
        if op.method == "decode_items" and isinstance(args[0], bytes):
            args = [io.BytesIO(args[0]).read, *args[1:]]
        if op.method in ("decode_items", "encode_items", "cycle", "count", "bytes_count", "bytes_range", "resize", "batch", "collate", "unpack", "popleft"):
            async def taken(*a, **kw):
                return await first(function(*a, **kw), 20)
            return later(env, taken), args
        if op.method == "random_sleep" and isinstance(args[0], (int, float)) and args[0] > 0.01:
            args = [0.001]  # not for long
        if op.method == "hash_bytes":
            def hashed(*a, **kw):
                if isinstance(kw.get("hasher"), str):
                    import hashlib
                    kw["hasher"] = getattr(hashlib, kw["hasher"], kw["hasher"])
                return function(*a, **kw)
            return hashed, args
        return function, args


# --------------------------------------------------------------- other kinds

class Clocks(Kind):
    UNITS = ["years", "months", "days", "hours", "minutes", "seconds", "deciseconds", "centiseconds", "milliseconds",
             "microseconds", "nanoseconds"]
    stamps = st.one_of(S.blobs(0, 10), plain(st.integers(-50, 50)).map(lambda n: {"v": ["ago", n["v"]]}))
    orders = plain(st.sampled_from(["big", "little", "big", "odd"]))
    sizes = plain(st.one_of(st.integers(4, 12), st.integers(-1, 12)))
    setup = st.fixed_dictionaries({"unit": st.sampled_from(UNITS), "epoch": st.sampled_from([0, 1672531200000000000, 10**18])})
    ops = {
        "time": Op("time"), "make_timestamp": Op("make_timestamp", size=sizes, byte_order=orders),
        "read_timestamp": Op("read_timestamp", stamps, byte_order=orders), "delta": Op("delta", stamps, byte_order=orders),
        "test_timestamp": Op("test_timestamp", stamps, plain(st.one_of(st.none(), st.integers(-3, 60))), byte_order=orders),
    }

    def build(self, env, setup):
        return aiootp.asynchs.Clock(setup["unit"], epoch=setup["epoch"])

    def target(self, env, op, args):
        function, args = super().target(env, op, args)
        if args and isinstance(args[0], list) and args[0][:1] == ["ago"]:
            args[0] = max(0, env.objects.time() - args[0][1]).to_bytes(9, "big")
        return function, args


class Permutation(Kind):
    KINDS = {"affine": AffinePermutation, "chain": AffineXORChain, "fast": FastAffineXORChain}
    setup = st.fixed_dictionaries({
        "kind": st.sampled_from(sorted(KINDS)), "key": st.integers(0, 2**20), "size": st.integers(1, 32)})
    numbers = plain(st.one_of(st.integers(0, 255), st.integers(0, 2**260), st.integers(-2, 2)))
    ops = {"permute": Op("permute", numbers, pure=False), "invert": Op("invert", numbers, pure=False),
           "step": Op("step", pure=False), "update_increment": Op("update_increment", numbers, pure=False),
           "uncapped_permute": Op("uncapped_permute", numbers, pure=False),
           "uncapped_invert": Op("uncapped_invert", numbers, pure=False)}

    def build(self, env, setup):
        cls = self.KINDS[setup["kind"]]
        env.size = setup["size"]
        return cls(key=blob({"s": [setup["key"], cls.key_size(env.size)]}), config_id=env.size)

    def target(self, env, op, args):
        if args and isinstance(args[0], (bytes, bytearray, memoryview, str, list, tuple)):
            # a sequence times a large number only exhausts the memory
            args = [None]
        return super().target(env, op, args)


class Ids(Kind):
    CLASSES = {"SequenceID": aiootp.SequenceID, "GUID": aiootp.GUID, "RawGUID": aiootp.randoms.ids.raw_guid.RawGUID}
    SIZES = {"SequenceID": st.integers(1, 24), "GUID": st.integers(14, 24), "RawGUID": st.integers(14, 24)}
    setup = st.one_of(*(st.fixed_dictionaries({
        "kind": st.just(name), "key": st.integers(0, 2**20), "size": size, "node": st.integers(0, 255),
    }) for name, size in SIZES.items()))
    ops = {"new": Op("new", several(plain(st.integers(0, 300)), 0, 1), pure=False),
           "read": Op("read", S.blobs(14, 24)), "read ": Op("read", S.blobs(0, 30))}

    def build(self, env, setup):
        cls = self.CLASSES[setup["kind"]]
        env.random = setup["kind"] == "RawGUID"
        env.numbered = setup["kind"] == "SequenceID"
        named = {} if env.numbered else {"node_id": bytes([setup["node"]])}
        if not env.random:
            named["key"] = blob({"s": [setup["key"], cls.key_size(setup["size"])]})
        return cls(config_id=setup["size"], **named)

    def target(self, env, op, args):
        if op.method == "new":
            args = (args or [7]) if env.numbered else []
            if args and isinstance(args[0], (bytes, bytearray, memoryview, str, list, tuple)):
                args = [None]
        function, args = super().target(env, op, args)
        return function, args


class Keys(Kind):
    """Signing and exchange keys."""

    seeds = st.integers(0, 3).map(lambda n: {"s": [n, 32]})
    raw = S.weighted((seeds, 4), (S.blobs(30, 34), 1), (S.blobs(32, 32), 2))
    setup = st.fixed_dictionaries({"kind": st.sampled_from(["Ed25519", "Ed25519", "X25519"]), "import": st.booleans()})
    ops = {
        "import_secret_key": Op("import_secret_key", raw, pure=False), "import_public_key": Op("import_public_key", raw, pure=False),
        "generate": Op("generate", pure=False, show=lambda out: type(out).__name__),
        "sign": Op("sign", data), "verify": Op("verify", st.one_of(S.blobs(64, 64), S.blobs(0, 70)), data, public_key=raw),
        "verify own": Op("verify own", data, plain(st.sampled_from([True, True, False]))), "verify given": Op(
            "verify own", data, flags, public_key=raw), "exchange": Op("exchange", raw),
    }

    def build(self, env, setup):
        env.made = False
        key = getattr(aiootp, setup["kind"])()
        return key.import_secret_key(blob({"s": [0, 32]})) if setup["import"] else key

    def effects(self, env):
        key = env.objects
        parts = [key.has_secret_key(), key.has_public_key()]
        if env.made:
            return parts
        return [*parts, *(part.hex() for on, part in (
            (parts[0], key.secret_bytes if parts[0] else b""), (parts[1], key.public_bytes if parts[1] else b"")) if on)]

    def target(self, env, op, args):
        if op.method == "generate":
            env.made = True
        if op.method == "sign" and env.made:
            # made of a random key
            def sign(*a):
                return None
            return sign, args
        if op.method == "exchange" and env.made:
            return (lambda *a: None), args
        if op.method == "verify own":
            text, good = args
            signer = aiootp.Ed25519().import_secret_key(blob({"s": [0, 32]}))
            signature = signer.sign(text if isinstance(text, bytes) else b"")
            args = [signature if good else signature[::-1], text]
            op = Op("verify")
        return super().target(env, op, args)


class Exchange(Kind):
    """Both sides of a key exchange with fixed keys."""

    shortest, longest = 4, 12

    setup = st.fixed_dictionaries({"kind": st.sampled_from(["dh2", "dh3"])})
    raw = Keys.raw
    ops = {
        "client send": Op("client send", raw, pure=False, show=lambda out: [len(part) for part in (
            out if isinstance(out, tuple) else (out,))]),
        "client receive": Op("client receive", raw, pure=False, show=lambda out: type(out).__name__),
        "server receive": Op("server receive", several(raw, 1, 2), weight=3, pure=False, show=lambda out: type(out).__name__),
        "server send": Op("server send", pure=False, show=lambda out: [len(part) for part in (
            out if isinstance(out, tuple) else (out,))]),
    }

    def build(self, env, setup):
        mine, theirs = (aiootp.X25519().import_secret_key(blob({"s": [n, 32]})) for n in (1, 2))
        if setup["kind"] == "dh2":
            return {"client": aiootp.X25519.dh2_client(), "server": theirs.dh2_server()}
        return {"client": mine.dh3_client(), "server": theirs.dh3_server()}

    def target(self, env, op, args):
        side, method = op.method.split()
        return getattr(env.objects[side], ("a" if env.is_async else "") + method), args


class Files(Kind):
    """Files of a directory."""

    NAMES = ("a", "b", "no/such", "")
    names = plain(st.sampled_from(["a", "a", *NAMES]))
    ops = {
        "write": Op("write", names, data, pure=False), "append": Op("append", names, data, pure=False),
        "read": Op("read", names, pure=False),
        "read some": Op("read", names, plain(st.integers(-1, 20)), pure=False),
    }

    def build(self, env, setup):
        env.scratch()
        return aiootp.generics.ByteIO

    def target(self, env, op, args):
        function, args = super().target(env, op, args)
        name = args[0] if args[0] in self.NAMES else "a"
        return function, [pathlib.Path(env.folder) / name, *args[1:]]

    def effects(self, env):
        found = {}
        for root, _, files in os.walk(env.folder):
            for name in files:
                with open(os.path.join(root, name), "rb") as file:
                    found[os.path.relpath(os.path.join(root, name), env.folder)] = file.read().hex()
        return found


class Salts(Files):
    """Salt files, and where they are kept."""

    shortest, longest = 3, 12
    names = plain(st.sampled_from(["a", "a", "b", "folder", "no/such", "short"]))
    salts = S.sized_blobs(S.near([0, 32, 40], spread=1))
    keys = S.sized_blobs(S.near([16, 32, 64], spread=1))
    places = plain(st.sampled_from(["root", "root", "root", "missing", "taken", "file"]))
    ops = {
        "make": Op("_make_salt_file", names, salt=salts, pure=False), "read": Op("_read_salt_file", names, pure=False),
        "update": Op("_update_salt_file", names, salt=salts, whole=True, pure=False),
        "delete": Op("_delete_salt_file", names, pure=False),
        "find": Op("_find_salt_file", names, key=keys, size=plain(st.integers(0, 17)), whole=True, pure=False, show=str),
        "place": Op("SecureSaltPath", places, key=keys, _admin=flags, pure=False, show=str),
        "place and read": Op("place and read", places, key=keys, _admin=flags, pure=False),
    }

    def build(self, env, setup):
        root = env.scratch()
        for name in ("folder", "root", "taken"):
            os.mkdir(f"{root}/{name}")
        for name in ("short", "file", "taken/secure"):
            with open(f"{root}/{name}", "wb") as file:
                file.write(b"short")
        return aiootp._paths

    def target(self, env, op, args):
        name = args[0] if isinstance(args[0], str) and args[0] not in ("..", "/") else "a"
        path = pathlib.Path(env.folder) / name
        paths = env.objects
        if op.method in ("SecureSaltPath", "place and read"):
            async def place(**kw):
                if env.is_async:
                    found = await paths.AsyncSecureSaltPath(path, **kw)
                    return found.relative_to(env.folder) if op.method != "place and read" else await paths._aread_salt_file(found)
                found = paths.SecureSaltPath(path, **kw)
                return found.relative_to(env.folder) if op.method != "place and read" else paths._read_salt_file(found)
            return later(env, place), []
        function = getattr(paths, "_a" + op.method[1:] if env.is_async else op.method)
        if op.method == "_find_salt_file":
            async def find(*a, **kw):
                found = await function(*a, **kw) if env.is_async else function(*a, **kw)
                return found.relative_to(env.folder)
            return later(env, find), [path]
        return function, [path]

    def effects(self, env):
        found = {}
        for root, folders, files in os.walk(env.folder):
            for name in folders + files:
                path = os.path.join(root, name)
                mode = os.stat(path).st_mode
                os.chmod(path, mode | 0o600)
                found[os.path.relpath(path, env.folder)] = [oct(mode), "" if name in folders else open(path, "rb").read().hex()]
                os.chmod(path, mode)
        return found


class Passphrases(Kind):
    """Hashing and checking passphrases at the lowest costs."""

    shortest, longest = 1, 4
    setup = st.fixed_dictionaries({
        "mb": st.just(1), "cpu": st.integers(1, 2), "cores": st.integers(1, 2), "tag_size": st.sampled_from([16, 20, 40]),
        "salt_size": st.sampled_from([4, 8, 16]), "pepper": S.blobs(0, 4), "age": st.integers(0, 10)})
    words = S.weighted((S.blobs(12, 20), 4), (S.blobs(9, 13), 1))
    salts = S.weighted((S.blobs(4, 12), 4), (S.blobs(0, 5), 1))
    extra = st.sampled_from([{"h": ""}, {"h": ""}, {"h": "00"}])
    costs = plain(st.sampled_from([1, 1, 1, 2, 0]))
    ranges = st.sampled_from([{"r2": [1, 3]}, {"r2": [2, 3]}, {"r2": [1, 2]}])
    ops = {
        "new": Op("new", words, salts, aad=extra), "hash_passphrase": Op("hash_passphrase", words, aad=extra),
        "verify": Op("verify", plain(st.sampled_from(["good", "good", "bad", "short"])), plain(
            st.sampled_from(["good", "good", "bad"])), aad=extra, ttl=ttls, mb_allowed=ranges, cpu_allowed=ranges, cores_allowed=ranges),
        "mnemonic": Op("mnemonic", words, plain(st.integers(1, 9)), salt=salts, words=plain(
            st.lists(st.text(max_size=2), min_size=1, max_size=5)), mb=costs, cpu=costs, cores=costs, whole=True),
    }

    def build(self, env, setup):
        settings = {n: setup[n] for n in ("mb", "cpu", "cores", "tag_size", "salt_size")}
        cls = type("Peppered", (aiootp.Passcrypt,), {"PEPPER": blob(setup["pepper"]), "__slots__": ()})
        env.age = setup["age"]
        env.made = None
        return cls(**settings)

    def target(self, env, op, args):
        if op.method == "mnemonic":
            function = aiootp.amnemonic if env.is_async else aiootp.mnemonic
            return function, args
        function, args = super().target(env, op, args)
        if op.method == "hash_passphrase":
            async def hashed(passphrase, aad=b""):
                made = await function(passphrase, aad=aad) if env.is_async else function(passphrase, aad=aad)
                return len(made), env.objects.verify(made, passphrase, aad=aad)
            return later(env, hashed), args
        if op.method != "verify":
            return function, args
        word = b"passphrase of the case"
        if env.made is None:
            sut.wall.freeze(NOW - env.age * 10**9)
            env.made = env.objects.hash_passphrase(word)
            sut.wall.freeze(NOW)
        made = {"good": env.made, "bad": env.made[:-1] + bytes([env.made[-1] ^ 1]), "short": env.made[:-1]}.get(
            args[0] if isinstance(args[0], str) else None, args[0])
        args = [made, {"good": word, "bad": word[:-1]}.get(args[1] if isinstance(args[1], str) else None, args[1])]
        return function, args


class Tasks(Kind):
    """Functions run elsewhere."""

    shortest, longest = 1, 5
    setup = st.fixed_dictionaries({"kind": st.sampled_from(["Threads", "Threads", "Threads", "Processes"])})
    jobs = plain(st.sampled_from(["add", "fail", "text", "largest"]))
    numbers = plain(st.integers(0, 9))
    delays = plain(st.sampled_from([None, 0.001, 0, -1, 0.01]))
    ops = {
        "submit": Op("submit", jobs, several(numbers, 0, 3)), "gather": Op("gather", several(jobs, 0, 3), args=plain(
            st.lists(st.integers(0, 5), max_size=3))),
        "new": Op("new", jobs, several(numbers, 0, 3), probe_delay=delays, pure=False), "get_id": Op(
            "get_id", show=lambda out: out in (os.getpid(), __import__("threading").get_ident())),
    }

    def build(self, env, setup):
        return getattr(aiootp.asynchs, setup["kind"])

    def target(self, env, op, args):
        args = [work.JOBS.get(arg, arg) if isinstance(arg, str) else arg for arg in args]
        function, args = super().target(env, op, args)
        if op.method == "submit":
            async def submit(*a):
                return (await function(*a)).result() if env.is_async else function(*a).result()
            return later(env, submit), args
        return function, args


class Databases(Files):
    """A stored database; with fixed randomness its files are comparable."""

    shortest, longest = 8, 18
    many = ("load_database", "load_tags", "load_metatags", "metatag")

    tags = plain(st.sampled_from(["a", "a", "b", "", "é", "kids"]))
    sent = S.weighted((plain(st.sampled_from([["sent", "good"], ["sent", "good"], ["sent", "bad"]])), 5), (data, 1))
    names, aads = plain(st.sampled_from(["", "", "name"])), st.sampled_from([{"h": ""}, {"h": ""}, {"h": "01"}])
    values = st.one_of(json_values, data)
    setup = st.fixed_dictionaries({"key": S.keys, "fill": st.lists(st.tuples(st.sampled_from(["a", "b"]), st.integers(0, 9)).map(list), max_size=2)})
    ops = {
        "set_tag": Op("set_tag", tags, values, cache=flags, pure=False), "set_tag ": Op("set_tag", tags, values, pure=False, weight=4),
        "metatag ": Op("metatag", plain(st.just("kids")), pure=False, weight=3),
        "query_tag": Op(
            "query_tag", tags, silent=flags, cache=flags, ttl=ttls, pure=False),
        "pop_tag": Op("pop_tag", tags, silent=flags, pure=False), "save_tag": Op("save_tag", tags, drop_cache=flags, pure=False),
        "save_database": Op("save_database", pure=False), "load_database": Op(
            "load_database", silent=flags, manifest=flags, preload=flags, pure=False),
        "load_tags": Op("load_tags", silent=flags, pure=False), "load_metatags": Op("load_metatags", silent=flags, preload=flags, pure=False),
        "rollback_tag": Op("rollback_tag", tags, cache=flags, pure=False), "clear_cache": Op("clear_cache", metatags=flags, pure=False),
        "metatag": Op("metatag", tags, preload=flags, silent=flags, pure=False), "delete_metatag": Op("delete_metatag", plain(st.sampled_from(["kids", "kids", "a", ""])), pure=False),
        "filename": Op("filename", tags), "delete_database": Op("delete_database", pure=False, weight=1),
        "bytes_encrypt": Op("bytes_encrypt", data, filename=texts, aad=data, weight=1), "json_encrypt": Op("json_encrypt", json_values, filename=texts, aad=data, weight=1),
        "make_token": Op("make_token", data, filename=texts, aad=data, weight=1),
        "bytes_decrypt": Op("bytes_decrypt", sent, filename=names, aad=aads, ttl=ttls, weight=1),
        "json_decrypt": Op("json_decrypt", sent, filename=names, aad=aads, ttl=ttls, weight=1),
        "read_token": Op("read_token", sent, filename=names, aad=aads, ttl=ttls, weight=1),
        "lose": Op("lose", tags, pure=False, weight=1), "damage": Op("damage", tags, plain(st.integers(0, 200)), pure=False, weight=1),
    }

    def build(self, env, setup):
        path, env.gone = env.scratch(), False
        cls = aiootp.AsyncDatabase if env.is_async else aiootp.Database
        with_values = aiootp.Database(blob(setup["key"]), path=path)
        for tag, number in setup["fill"]:
            with_values[tag] = number
        with_values.save_database()
        env.sent = {"bytes_decrypt": with_values.bytes_encrypt(b"text"), "json_decrypt": with_values.json_encrypt([1]),
                    "read_token": with_values.make_token(b"token")}
        env.named = with_values.filename
        made = cls(blob(setup["key"]), path=path)
        return sut.run(made) if env.is_async else made

    def target(self, env, op, args):
        if op.method in ("lose", "damage"):
            return lambda tag, at=None: self.spoil(pathlib.Path(env.folder) / env.named(tag), at), args
        env.gone |= op.method == "delete_database"
        if op.method in env.sent and isinstance(args[0], list) and args[0][:1] == ["sent"]:
            sent = env.sent[op.method]
            args = [sent if args[0][1:] == ["good"] else sent[:-1]]
        return Kind.target(self, env, op, args)

    async def perform(self, env, step):
        known = asyncio.all_tasks() if env.is_async else set()
        seen = await super().perform(env, step)
        if seen[0] == "error" and not env.gone and "refused" not in step and self.ops[step["op"]].method in self.many:
            # which of the others were loaded before one failed is up to the form and to timing
            started = asyncio.all_tasks() - known if env.is_async else ()
            if started:
                await asyncio.wait(started)
            cleared = env.objects.aclear_cache(metatags=False) if env.is_async else env.objects.clear_cache(metatags=False)
            if env.is_async:
                await cleared
        return seen

    @staticmethod
    def spoil(path, at):
        """What may happen to a file of a tag: it disappears or a bit of it changes."""
        if not path.is_file():
            return False
        content = bytearray(path.read_bytes())
        path.unlink()
        if at is not None:
            content[at % len(content)] ^= 1
            path.write_bytes(content)
        return True

    def effects(self, env):
        db = env.objects
        if env.gone:
            return super().effects(env)
        return [super().effects(env), sorted(map(repr, db.tags)), sorted(map(repr, db.metatags)),
                sorted(repr((tag, self.found(db, tag))) for tag in db.tags)]

    @staticmethod
    def found(db, tag):
        try:
            return view(db[tag])
        except Exception as error:  # noqa: BLE001
            return type(error).__name__


KINDS = {
    "cipher": Cipher(), "encrypting": Encrypting(), "decrypting": Decrypting(), "kdf": Kdf(), "functions": Functions(),
    "clock": Clocks(), "permutation": Permutation(), "ids": Ids(), "keys": Keys(), "exchange": Exchange(),
    "files": Files(), "database": Databases(), "salts": Salts(), "passphrases": Passphrases(), "tasks": Tasks(),
}
NOW = 1_800_000_000 * 10**9


def cases(kind, odds=True, low=None, high=None, only=None):
    low, high = low or KINDS[kind].shortest, high or KINDS[kind].longest
    ops = {n: op for n, op in KINDS[kind].ops.items() if only is None or only(op)}
    return st.fixed_dictionaries({
        "kind": st.just(kind), "setup": KINDS[kind].setup,
        "steps": st.lists(S.weighted(*((op.strategy(n, odds), op.weight) for n, op in ops.items())), min_size=low, max_size=high),
    })


def repeated(kind, name, count):
    """One operation, several times with different arguments."""
    op = KINDS[kind].ops[name]
    return st.fixed_dictionaries({
        "kind": st.just(kind), "setup": KINDS[kind].setup,
        "steps": st.lists(op.strategy(name, False), min_size=2, max_size=count),
    })
