"""C32: secrets never appear in printable representations."""

import base64
import contextlib
import hashlib
import os
import pprint
import reprlib
import traceback
from array import array
from collections import OrderedDict, deque
from datetime import datetime, timezone
from decimal import Decimal
from fractions import Fraction
from functools import partial
from pathlib import Path
from types import SimpleNamespace
from uuid import UUID

from hypothesis import strategies as st

from lib import boxes, sut
from lib.ciph import CIPHERS, call, drain
from lib.harness import Part, Sweep, expect
from lib.sut import aiootp

from aiootp._permutations.affine_permutation import AffinePermutation  # noqa: E402
from aiootp._permutations.affine_xor_chain import AffineXORChain  # noqa: E402
from aiootp._permutations.fast_affine_xor_chain import FastAffineXORChain  # noqa: E402

TECHNIQUE = (
    "property-based testing: objects built around generated secrets are used, displayed in "
    "every usual way at generated moments together with everything they hold, made to fail, "
    "and all text is searched for every piece of every secret in the common encodings"
)
RULE = (
    "a case builds and uses one kind of object; non-trivial when a secret was placed in it and "
    "some text was searched. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a secret is revealed by any eight of its consecutive bytes or characters, in raw, "
    "escaped, hexadecimal or listed form, or by the whole of it in base 64, 32, 85 or decimal",
    "associated data, salts, ciphertexts, tags of entries and file names are not secret; the "
    "open container types show what they hold by design",
    "asking an object explicitly for its fields is not a default representation",
)
PACKAGE = "aiootp"
OPEN = tuple(cls for name, cls in boxes.BASES.items() if name.startswith("Open"))
Debug = aiootp._debug_control.DebugControl


class Book:
    """The secrets of a case, and all text seen."""

    def __init__(self, case):
        self.case = case
        self.made = 0
        self.pieces = {}
        self.searched = set()
        self.texts = 0
        self.seen = set()

    # --------------------------------------------------------- the secrets

    def fresh(self, size, style=None):
        """Another secret value of the case."""
        self.made += 1
        style = self.case["style"] if style is None else style
        seed = f"{self.case['seed']} {self.made}".encode()
        data = hashlib.shake_256(seed).digest(size)
        if style == "text":
            data = bytes(97 + b % 26 for b in data)
        elif style == "digits":
            data = bytes(48 + b % 10 for b in data)
        elif style == "quotes":
            data = bytes(b"'\"\\\n\t\x00\x7fab"[b % 9] for b in data)
        return data

    def secret(self, size, style=None):
        data = self.fresh(size, style)
        self.register(data)
        return data

    def register(self, data):
        if isinstance(data, str):
            pieces = {data[i:i + 8] for i in range(max(1, len(data) - 7))}
            pieces |= {repr(piece)[1:-1] for piece in pieces}
            data = data.encode()
        else:
            data = bytes(data)
            windows = {data[i:i + 8] for i in range(max(1, len(data) - 7))}
            pieces = set()
            for window in windows:
                pieces |= {
                    window.hex(), window.hex().upper(), repr(window)[2:-1], window.decode("latin1"),
                    window.hex(":"), window.hex(" "), ", ".join(map(str, window)),
                    "\\x" + "\\x".join(f"{b:02x}" for b in window),
                    "".join(f"%{b:02X}" for b in window),
                }
        whole = {
            base64.b64encode(data), base64.urlsafe_b64encode(data), base64.b32encode(data),
            base64.b85encode(data), base64.a85encode(data),
        }
        pieces |= {text.decode().rstrip("=") for text in whole}
        pieces |= {str(int.from_bytes(data, order)) for order in ("big", "little")}
        for piece in pieces:
            if len(piece) >= 8:
                self.pieces.setdefault(piece[:8], set()).add(piece)
        self.searched.clear()

    # ------------------------------------------------------------ the text

    def search(self, text, where):
        self.texts += 1
        if text in self.searched:
            return
        self.searched.add(text)
        for at in range(len(text) - 7):
            for piece in self.pieces.get(text[at:at + 8], ()):
                expect(not text.startswith(piece, at), lambda: (
                    f"{where} shows {piece!r} of a secret: {text[:300]!r}"))

    def show(self, obj, where=None, deep=True):
        """Every usual way of displaying an object."""
        if isinstance(obj, OPEN):
            return
        where = where or f"a {type(obj).__name__}"
        texts = {
            "repr": repr(obj), "str": str(obj), "format": f"{obj}", "ascii": ascii(obj),
            "percent": "%s %r" % (obj, obj), "in a list": repr([obj]), "in a dict": str({1: obj}),
            "pprint": pprint.pformat(obj), "short": reprlib.repr(obj), "dir": str(dir(obj)),
            "an error about it": str(ValueError(obj)),
        }
        for way, text in texts.items():
            expect(type(text) is str, lambda: f"{where}: {way} is not text")
            self.search(text, f"{way} of {where}")
        if deep:
            for child in parts_of(obj):
                if id(child) not in self.seen:
                    self.seen.add(id(child))
                    self.show(child, f"{where} / a {type(child).__name__}")

    def refused(self, function, *args, **kw):
        """Whatever the call does, its error tells no secret."""
        try:
            return function(*args, **kw)
        except Exception as error:
            text = "".join(traceback.format_exception(error))
            # the lines of code are not the package's words
            told = [str(e) + repr(e) + str(getattr(e, "__notes__", "")) for e in chain(error)]
            self.search(text, f"the traceback of {type(error).__name__}")
            for one in told:
                self.search(one, f"the text of {type(error).__name__}")
            for one in chain(error):
                for value in vars(one).values():
                    if type(value).__module__.startswith(PACKAGE):
                        self.show(value, f"what {type(one).__name__} carries")
            return None

    def awaited(self, coroutine):
        return self.refused(lambda: sut.run(coroutine))


def chain(error):
    seen = []
    while error is not None and error not in seen:
        seen.append(error)
        error = error.__cause__ or error.__context__
    return seen


def parts_of(obj):
    """The objects of the package's own kinds which an object holds."""
    held = []
    for cls in type(obj).__mro__:
        for name in cls.__dict__.get("__slots__", ()):
            if isinstance(name, str) and name.startswith("__") and not name.endswith("__"):
                name = f"_{cls.__name__.lstrip('_')}{name}"
            with contextlib.suppress(AttributeError, TypeError):
                held.append(object.__getattribute__(obj, name))
    with contextlib.suppress(AttributeError):
        held += list(object.__getattribute__(obj, "__dict__").values())
    out = []
    for value in held:
        if isinstance(value, type):
            continue
        if isinstance(value, (list, tuple)) and len(value) < 50:
            out += value
        else:
            out.append(value)
    return [v for v in out if type(v).__module__.split(".")[0] == PACKAGE and not isinstance(v, type)]


# ------------------------------------------------------------- the objects

def use_cipher(book, case):
    key, plaintext = book.secret(64 + case["n"] % 3), book.secret(40)
    cipher = CIPHERS[case["name"]](key)
    book.show(cipher)
    text = call(cipher, "bytes_encrypt", case["is_async"], plaintext, aad=b"aad")
    book.show(cipher)
    spoiled = text[:-1] + bytes([text[-1] ^ 1])
    for data in (spoiled, text[:-5], text[:20], b"", "text", None):
        book.refused(call, cipher, "bytes_decrypt", case["is_async"], data, aad=b"aad")
    book.refused(call, cipher, "bytes_decrypt", case["is_async"], text, aad=b"aad", ttl=-1)
    # plaintext and parameters of wrong kinds
    secret = book.secret(30, "text").decode()
    book.register(secret)
    book.refused(call, cipher, "bytes_encrypt", case["is_async"], secret)
    book.refused(call, cipher, "json_encrypt", case["is_async"], {secret: {1, 2}})
    book.refused(call, cipher, "json_encrypt", case["is_async"], {"a": [secret, b"x"]})
    book.refused(call, cipher, "bytes_encrypt", case["is_async"], plaintext, salt=book.secret(3))
    book.show(cipher)
    again = call(cipher, "bytes_decrypt", case["is_async"], text, aad=b"aad")
    expect(again == plaintext, "displaying a cipher changes what it decrypts")
    token = call(cipher, "make_token", case["is_async"], plaintext, aad=b"aad")
    book.refused(call, cipher, "read_token", case["is_async"], token[:-2] + b"AA", aad=b"aad")
    for wrong in (book.secret(20), secret, None, bytearray(book.secret(64))):
        book.refused(CIPHERS[case["name"]], wrong)


def use_stream(book, case):
    cipher = CIPHERS[case["name"]](book.secret(64))
    plaintext = book.secret(700)
    is_async = case["is_async"]
    stream = call(cipher, "stream_encrypt", is_async, salt=None, aad=b"aad")
    book.show(stream)
    blocks = []
    for at in range(0, 700, 350):
        call(stream, "buffer", is_async, plaintext[at:at + 350])
        book.show(stream)
        blocks += drain(stream if not is_async else stream, is_async)
    blocks += drain(stream.afinalize() if is_async else stream.finalize(), is_async)
    book.show(stream)
    book.refused(call, stream, "buffer", is_async, plaintext)
    other = call(cipher, "stream_decrypt", is_async, salt=stream.salt, aad=b"aad", iv=stream.iv)
    book.show(other)
    wrong = bytes(64) + b"".join(map(bytes, blocks[0]))[64:]
    book.refused(call, other, "buffer", is_async, b"".join(blocks[0]) + wrong)
    book.show(other)
    other = call(cipher, "stream_decrypt", is_async, salt=stream.salt, aad=b"aad", iv=stream.iv)
    call(other, "buffer", is_async, b"".join(b"".join(block) for block in blocks))
    book.show(other)
    book.refused(call, other.shmac, "test_shmac", is_async, bytes(32))
    opened = drain(other, is_async)
    book.show(other)
    opened += drain(other.afinalize() if is_async else other.finalize(), is_async)
    book.show(other)
    book.refused(lambda: drain(other.afinalize() if is_async else other.finalize(), is_async))
    expect(b"".join(opened) == plaintext, "displaying a stream changes what it decrypts")


def use_kdf(book, case):
    key, payload = book.secret(64), book.secret(30)
    kdf = aiootp.DomainKDF(b"domain", payload, key=key)
    book.show(kdf)
    before = kdf.sha3_256(aad=b"aad")
    kdf.update(payload) if case["n"] % 2 else None
    book.show(kdf.copy())
    book.show(kdf)
    expect(case["n"] % 2 or kdf.sha3_256(aad=b"aad") == before, "displaying a KDF changes it")
    secret = book.secret(30, "text").decode()
    book.register(secret)
    book.refused(kdf.update, secret)
    book.refused(kdf.shake_256, size=-1)
    book.refused(kdf.shake_256, secret, size=16)
    book.refused(aiootp.DomainKDF, b"domain", key=secret)
    book.refused(aiootp.DomainKDF, b"domain", secret, key=key)
    book.refused(setattr, kdf, "_key", key)


def use_curve(book, case):
    cls = (aiootp.X25519, aiootp.Ed25519)[case["n"] % 2]
    data = book.secret(32)
    key = cls().import_secret_key(data)
    book.show(key)
    book.show(cls().import_public_key(key.public_bytes))
    for wrong in (book.secret(31), book.secret(40), book.secret(30, "text").decode(), None):
        if isinstance(wrong, str):
            book.register(wrong)
        book.refused(cls().import_secret_key, wrong)
        book.refused(cls().import_public_key, wrong)
    book.refused(key.import_secret_key, book.secret(32))
    if cls is aiootp.Ed25519:
        signature = key.sign(b"message")
        book.refused(key.verify, signature[:-1] + b"x", b"message")
        book.refused(key.verify, signature, b"other")
    else:
        book.refused(key.exchange, bytes(32))
        server = aiootp.X25519().import_secret_key(book.secret(32))
        client, answer = key.dh3_client(), server.dh3_server()
        book.show(client), book.show(answer)
        sent = client.send(server.public_bytes)
        book.show(client)
        shared = answer.receive(*sent)
        book.register(shared.sha3_256())
        book.show(answer), book.show(shared)
        reply = answer.send()
        mine = client.receive(reply)
        book.show(client), book.show(mine)
        expect(mine.sha3_256() == shared.sha3_256(), "displaying an exchange changes it")
        book.refused(client.receive, reply)
    expect(key.secret_bytes == data, "displaying a key changes it")


def use_passcrypt(book, case):
    passphrase = book.secret(20)
    pepper = book.secret(24)
    cls = type("Peppered", (aiootp.Passcrypt,), {"PEPPER": pepper, "__slots__": ()})
    hasher = cls(mb=1, cpu=1, cores=1, tag_size=20)
    book.show(hasher)
    made = call(hasher, "hash_passphrase", case["is_async"], passphrase, aad=b"aad")
    book.show(hasher)
    book.refused(call, hasher, "verify", case["is_async"], made, book.secret(20), aad=b"aad")
    book.refused(call, hasher, "verify", case["is_async"], made, passphrase, aad=b"aad",
                 mb_allowed=range(5, 6))
    book.refused(call, hasher, "verify", case["is_async"], made[:-1] + b"x", passphrase)
    book.refused(call, hasher, "verify", case["is_async"], made[:9], passphrase)
    book.refused(call, hasher, "hash_passphrase", case["is_async"], book.secret(9))
    text = book.secret(20, "text").decode()
    book.register(text)
    book.refused(call, hasher, "hash_passphrase", case["is_async"], text)
    book.refused(call, hasher, "new", case["is_async"], passphrase, b"x")
    book.refused(call, hasher, "new", case["is_async"], passphrase, b"salt" * 4, aad=text)
    book.refused(aiootp.mnemonic, book.secret(9), mb=1, cpu=1, cores=1)
    book.refused(aiootp.mnemonic, text, mb=1, cpu=1, cores=1)
    # the whole work with a failing core: its error crosses processes
    book.refused(call, hasher, "new", case["is_async"], passphrase, b"s" * 300)


def use_database(book, case):
    root = sut.scratch()
    is_async = case["is_async"]
    cls = aiootp.AsyncDatabase if is_async else aiootp.Database

    def do(value):
        return sut.run(value) if is_async else value

    def named(db, name, *args, **kw):
        return do(getattr(db, ("a" if is_async else "") + name)(*args, **kw))

    try:
        key = book.secret(64)
        db = do(cls(key, path=root))
        book.show(db)
        value = book.secret(20, "text").decode()
        book.register(value)
        data = book.secret(50)
        db["tag"] = {"value": value}
        db["bytes"] = data.hex()
        book.show(db)
        named(db, "save_database")
        child = named(db, "metatag", "child")
        child["inner"] = [value]
        named(child, "save_database")
        book.show(db), book.show(child)
        book.refused(lambda: named(db, "query_tag", "missing"))
        book.refused(lambda: named(db, "pop_tag", "missing"))
        book.refused(lambda: named(db, "set_tag", "tag", {1: {value}}) or named(db, "save_tag", "tag"))
        named(db, "set_tag", "tag", {"value": value})
        book.refused(lambda: named(db, "rollback_tag", "missing"))
        book.refused(lambda: named(db, "delete_metatag", "missing"))
        book.refused(lambda: do(cls(book.secret(64).hex(), path=root)))
        book.refused(lambda: do(cls(None, path=root)))
        # altered files
        named(db, "save_database")
        for name in sorted(os.listdir(root)):
            path = os.path.join(root, name)
            if os.path.isfile(path):
                with open(path, "rb") as file:
                    text = file.read()
                with open(path, "wb") as file:
                    file.write(text[:-1] + bytes([text[-1] ^ 1]))
                book.refused(lambda: named(do(cls(key, path=root)), "load_database"))
                book.refused(lambda: [named(do(cls(key, path=root)), "query_tag", t)
                                      for t in ("tag", "bytes")])
                with open(path, "wb") as file:
                    file.write(text)
        opened = do(cls(key, path=root))
        book.show(opened)
        expect(named(opened, "query_tag", "tag") == {"value": value},
               "displaying a database changes it")
        book.show(opened)
        if case["n"] % 2:
            word, name = book.secret(20), book.secret(12)
            costs = {"mb": 1, "cpu": 1, "cores": 1}
            make = cls.agenerate_profile if is_async else cls.generate_profile
            profile = do(make(username=name, passphrase=word, path=root, **costs))
            book.show(profile)
            named(profile, "save_database")
            again = do(make(username=name, passphrase=word, path=root, **costs))
            book.show(again)
            book.refused(lambda: do(make(username=name, passphrase=word.hex(), path=root, **costs)))
            book.refused(lambda: do(make(
                username=name.hex(), passphrase=word, path=root, **costs)))
    finally:
        sut.remove_scratch(root)


def use_ids(book, case):
    guid = aiootp.GUID(key=book.secret(80), node_id=b"n", config_id=16)
    book.show(guid)
    new = guid.new()
    book.show(guid)
    book.refused(guid.read, new[:-1])
    book.refused(guid.read, new.hex())
    for wrong in (book.secret(5), book.secret(200), book.secret(60, "text").decode(), None):
        book.refused(aiootp.GUID, key=wrong, node_id=b"n", config_id=16)
        book.refused(aiootp.SequenceID, key=wrong, config_id=12)
    sequence = aiootp.SequenceID(key=book.secret(60), config_id=12)
    book.show(sequence)
    book.refused(sequence.new, -1)
    book.refused(sequence.new, 2**200)
    book.refused(sequence.read, b"short")
    expect(sequence.read(sequence.new(77)) == 77, "displaying an id maker changes it")


def use_box(book, case):
    shape = dict(case["shape"], open=False)
    cls = boxes.make(shape, case["frozen"])
    text = book.secret(24, "text").decode()
    book.register(text)
    values = [book.secret(32), text, int.from_bytes(book.secret(16), "big"), [book.secret(12)],
              {"deep": book.secret(12)}, boxes.BASES["Namespace"](inner=book.secret(20))]
    names = ["a", "b", "c", "_p"]
    if shape["kind"] in ("namespace", "hybrid", "typed hybrid"):
        names += ["more", "é", "with space"]
    box = cls()
    stored = {}
    for index, name in enumerate(names):
        for step in range(len(values)):
            value = values[(index + step + case["n"]) % len(values)]
            try:
                box[name] = value
            except Exception as error:
                book.search(str(error) + repr(error), f"refusing the value of {name!r}")
                continue
            stored[name] = value
            break
    book.show(box)
    book.refused(lambda: box["missing"])
    book.refused(setattr, box, "a", 10**40)
    book.refused(delattr, box, "missing")
    for toggle in range(case["n"] % 3):
        Debug.enable_debugging(silence_warnings=True)
        repr(box)
        Debug.disable_debugging()
    book.show(box)
    now = dict(box.items())
    for name, value in stored.items():
        expect(now.get(name) is value or case["frozen"] is False and name == "a", lambda: (
            f"displaying a container changes {name!r}"))


class Loud:
    """Shows what it holds."""

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return f"Loud({self.data!r})"


class Bytes(bytes):
    pass


class Text(str):
    __slots__ = ()


class Number(int):
    pass


def number(book, size):
    return int.from_bytes(book.secret(size), "big") | 1 << 8 * size - 1


def registered(book, held):
    book.register(str(held))
    return held


#   what a container may hold, around fresh secrets
HELD = {
    "bytes": lambda book: book.secret(8), "long bytes": lambda book: book.secret(1500), "bytearray": lambda book: bytearray(book.secret(24)),
    "view": lambda book: memoryview(book.secret(24)), "bytes of a class": lambda book: Bytes(book.secret(24)),
    "text": lambda book: registered(book, book.fresh(16, "text").decode()), "long text": lambda book: registered(book, book.fresh(1500, "text").decode()),
    "text of a class": lambda book: Text(registered(book, book.fresh(30, "text").decode())),
    "digits": lambda book: registered(book, book.fresh(16, "digits").decode()), "hex": lambda book: book.secret(16).hex(),
    "int": lambda book: registered(book, number(book, 4)), "long int": lambda book: registered(book, number(book, 300)),
    "negative": lambda book: registered(book, -number(book, 20)), "int of a class": lambda book: Number(registered(book, number(book, 9))),
    "float": lambda book: registered(book, number(book, 6) / 8), "decimal": lambda book: registered(book, Decimal(number(book, 12)) / 10),
    "fraction": lambda book: registered(book, Fraction(number(book, 12), 2)), "complex": lambda book: complex(0, registered(book, float(number(book, 6)))),
    "list": lambda book: [book.secret(12)], "long list": lambda book: [book.secret(12) for _ in range(60)], "deep list": lambda book: [[[[[[book.secret(12)]]]]]],
    "ints": lambda book: list(book.secret(40)), "tuple": lambda book: (book.secret(12), 1), "one": lambda book: (book.secret(12),),
    "set": lambda book: {book.secret(12)}, "frozenset": lambda book: frozenset([book.secret(12)]), "dict": lambda book: {"key": book.secret(12)},
    "keys of a dict": lambda book: {book.secret(12): None, registered(book, book.fresh(12, "text").decode()): 1},
    "long dict": lambda book: {n: book.secret(12) for n in range(60)}, "deque": lambda book: deque([book.secret(12)]),
    "ordered": lambda book: OrderedDict(key=book.secret(12)), "path": lambda book: Path(registered(book, book.fresh(12, "text").decode())),
    "error": lambda book: ValueError(book.secret(12)), "key error": lambda book: KeyError(book.secret(12)), "partial": lambda book: partial(print, book.secret(12)),
    "loud": lambda book: Loud(book.secret(12)), "uuid": lambda book: UUID(bytes=book.secret(16)), "range": lambda book: range(registered(book, number(book, 8))),
    "array": lambda book: array("B", book.secret(24)), "namespace": lambda book: SimpleNamespace(inner=book.secret(12)),
    "box": lambda book: boxes.BASES["Namespace"](inner=book.secret(12)), "open box": lambda book: boxes.BASES["OpenNamespace"](inner=book.secret(12)),
    "frozen box": lambda book: boxes.BASES["FrozenNamespace"](inner=[book.secret(12)]),
    "date": lambda book: registered(book, datetime.fromtimestamp(number(book, 4) / 2, tz=timezone.utc)),
}


def use_held(book, case):
    """One value of a kind in a container, alone or with many others."""
    shape = dict(case["shape"], open=False)
    box = boxes.make(shape, case["frozen"])()
    value = HELD[case["held"]](book)
    box["a"] = value
    if case["many"] and shape["kind"] in ("namespace", "hybrid", "typed hybrid"):
        for at in range(100):
            box[f"name{at}"] = book.secret(9)
    book.show(box, deep=False)
    book.refused(setattr, box, "keys", value)
    if case["frozen"]:
        book.refused(setattr, box, "a", value)
        book.refused(box.update, {"a": value})
    book.show(box, deep=False)
    expect(box["a"] is value, "displaying a container changes it")


def held(tier):
    for kind in ("namespace", "slots", "hybrid", "typed", "typed hybrid"):
        for frozen in (False, True):
            for name in HELD:
                yield {"kind": "held", "held": name, "seed": len(name), "style": "bytes", "n": 0, "frozen": frozen, "many": frozen, "shape": {
                    "kind": kind, "open": False, "split": 2, "types": ["any"] * len(boxes.DECLARED), "direct": True}}


def use_instance(book, case):
    """An object with declared names only, which is no container."""
    base = aiootp.commons.instances.FrozenInstance
    half = type("Half", (base,), {"__slots__": ("a", "_p")})
    cls = type("Whole", (half,), {"__slots__": ("b", "empty")}) if case["frozen"] else half
    names = ["a", "_p", *(["b"] if case["frozen"] else [])]
    values = [book.secret(32), int.from_bytes(book.secret(16), "big"), [book.secret(12)]]
    made = {name: values[(at + case["n"]) % 3] for at, name in enumerate(names)}
    thing = cls(**made)
    book.show(thing)
    book.refused(setattr, thing, "a", values[0])
    book.refused(delattr, thing, "a")
    book.refused(cls, unknown=values[0])
    book.show(thing)
    expect(all(getattr(thing, name) is value for name, value in made.items()), "displaying an object changes it")


def use_permutation(book, case):
    size = 8 + case["n"] % 9
    for cls in (AffinePermutation, AffineXORChain, FastAffineXORChain):
        made = cls(key=book.secret(cls.key_size(size)), config_id=size)
        book.show(made)
        there = made.permute(12345)
        book.show(made)
        if cls is AffinePermutation:
            expect(made.invert(there) == 12345, "displaying a permutation changes it")
        book.refused(made.permute, -1)
        book.refused(made.permute, 1 << 8 * size + 9)
        book.refused(made.permute, book.secret(size))
        for wrong in (book.secret(size), book.secret(30, "text").decode(), None):
            book.refused(cls, key=wrong, config_id=size)


def use_signer(book, case):
    root = sut.scratch()
    try:
        signer = aiootp.PackageSigner(package="p", version="1", date=1, author="me")
        book.show(signer)
        word, name = book.secret(20), book.secret(12)
        book.refused(lambda: signer.signing_key)
        signer.connect_to_secure_database(
            username=name, passphrase=word, path=root, mb=1, cpu=1, cores=1)
        book.show(signer)
        book.refused(lambda: signer.signing_key)
        key = signer.generate_signing_key()
        book.register(key.secret_bytes)
        signer.update_signing_key(key)
        book.show(signer), book.show(key)
        book.refused(signer.update_signing_key, book.secret(31))
        book.refused(signer.update_signing_key, None)
        signer.update_signing_key(book.secret(32))
        book.show(signer)
        book.refused(signer.add_file, "missing", 7)
        signer.add_file("file", book.secret(40))
        book.refused(signer.summarize)
        signer.sign_package()
        book.show(signer)
        book.search(str(signer.summarize()), "the summary of a signed package")
        signer.db.save_database()
        other = aiootp.PackageSigner(package="p", version="1", date=1)
        book.refused(other.connect_to_secure_database, username=name.hex(), passphrase=word,
                     path=root, mb=1, cpu=1, cores=1)
    finally:
        sut.remove_scratch(root)


KINDS = {
    "cipher": (use_cipher, 5), "stream": (use_stream, 5), "kdf": (use_kdf, 3),
    "curve": (use_curve, 3), "passcrypt": (use_passcrypt, 1), "database": (use_database, 2),
    "ids": (use_ids, 2), "box": (use_box, 8), "permutation": (use_permutation, 2), "instance": (use_instance, 2),
    "signer": (use_signer, 1),
}
cases = st.fixed_dictionaries({
    "kind": st.sampled_from([name for name, (_, times) in KINDS.items() for _ in range(times)]),
    "seed": st.integers(0, 2**32), "style": st.sampled_from(["bytes", "bytes", "text", "digits", "quotes"]),
    "n": st.integers(0, 11), "is_async": st.booleans(), "name": st.sampled_from(sorted(CIPHERS)),
    "frozen": st.booleans(), "shape": boxes.shapes,
})


def evaluate(case):
    book = Book(case)
    try:
        KINDS[case["kind"]][0](book, case)
    finally:
        Debug.disable_debugging()
    expect(book.texts, "nothing was displayed")


def evaluate_held(case):
    book = Book(case)
    use_held(book, case)
    expect(book.texts, "nothing was displayed")


PARTS = [
    Sweep("kinds of values", held, evaluate_held, labels=lambda case: [case["held"]]),
    Part("objects in use", cases, evaluate, 350, nontrivial=lambda case: True,
         labels=lambda case: [case["kind"], f"style {case['style']}"]),
]
