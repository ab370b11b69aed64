"""C33: text and number encodings are exact and reversible."""

import base64

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "property-based round trips of generated values through every encoding, compared "
    "with independent arithmetic definitions, in sync and async form"
)
RULE = (
    "a case is a value with an encoding; non-trivial when the value is not empty and not "
    "zero. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a file name carries a number: values that begin with zero bytes come back without "
    "them; tables of digits have no repeated characters",
)
io = aiootp.generics.ByteIO
transform = aiootp.generics.transform
canon = aiootp.generics.canon

TABLES = {
    "ascii 95": "".join(map(chr, range(32, 127))), "base 36": "0123456789abcdefghijklmnopqrstuvwxyz",
    "binary": "01", "reversed": "zyx", "unicode": "αβγδ\U0001f600é", "bytes": bytes(range(256)),
    "some bytes": b"\xff\x00az", "long": "".join(map(chr, range(0x4E00, 0x4E00 + 3000))),
}


def both(method, is_async, *args, **kw):
    """The sync or the async form of a function of a module."""
    owner, name = method
    if is_async:
        prefix = "_a" if name.startswith("_") else "a"
        return sut.run(getattr(owner, prefix + name.lstrip("_"))(*args, **kw))
    return getattr(owner, name)(*args, **kw)


def digits(number, base):
    out = []
    while number:
        number, digit = divmod(number, base)
        out.append(digit)
    return out[::-1] or [0]


# ------------------------------------------------------------------- numbers

numbers = st.fixed_dictionaries({
    "table": st.sampled_from(sorted(TABLES)),
    "base": st.one_of(st.none(), st.integers(2, 256), st.integers(2, 4)),
    "number": st.one_of(
        st.integers(0, 300), st.integers(0, 2**64), st.integers(0, 2**600),
        st.tuples(st.integers(2, 256), st.integers(0, 30), st.integers(-2, 2)).map(
            lambda p: max(0, p[0] ** p[1] + p[2]))),
    "is_async": st.booleans(), "default": st.booleans(),
    "zeros": st.integers(0, 3),
})


def evaluate_numbers(case):
    number, base = case["number"], case["base"]
    table = TABLES["ascii 95" if case["default"] else case["table"]]
    if base is not None:
        base = 2 + (base - 2) % (len(table) - 1)
    kw = {} if case["default"] else {"table": table}
    if base is not None:
        kw["base"] = base
    real = len(table) if base is None else base
    text = both((transform, "int_as_base"), case["is_async"], number, **kw)
    wanted = [table[d:d + 1] for d in digits(number, real)]
    wanted = type(table)().join(wanted)
    expect(text == wanted and type(text) is type(table), lambda: (
        f"{number} in base {real} is {text!r}, expected {wanted!r}"))
    text = table[:1] * case["zeros"] + text
    back = both((transform, "base_as_int"), not case["is_async"], text, **kw)
    expect(back == number, lambda: f"{text!r} in base {real} is read as {back}, expected {number}")


strays = st.fixed_dictionaries({
    "table": st.sampled_from(sorted(TABLES)), "base": st.integers(2, 256), "at": st.integers(0, 9),
    "digits": st.lists(st.integers(0, 3000), min_size=1, max_size=10), "stray": st.sampled_from(["next", "other"]),
    "is_async": st.booleans(),
})


def evaluate_strays(case):
    """A digit which is not one of the base is refused."""
    table = TABLES[case["table"]]
    base = 2 + (case["base"] - 2) % (len(table) - 1)
    text = [table[d % base:d % base + 1] for d in case["digits"]]
    if case["stray"] == "next" and base < len(table):
        stray = table[base:base + 1]
    else:
        stray = next((c for c in (["\x01", "\n", "ÿ"] if isinstance(table, str) else [b"\x10", b"!"])
                      if c not in table), None)
    if stray is None:
        return
    text[case["at"] % len(text)] = stray
    text = type(table)().join(text)
    try:
        got = both((transform, "base_as_int"), case["is_async"], text, base=base, table=table)
    except Exception:
        return
    expect(False, lambda: f"{text!r} in base {base} is read as {got}")


endless = st.fixed_dictionaries({
    "number": st.one_of(st.integers(-(2**70), -1), st.integers(1, 9)), "base": st.integers(-3, 40),
    "is_async": st.booleans(),
})


def evaluate_endless(case):
    """Numbers and bases without an expansion are refused."""
    number, base = case["number"], case["base"]
    try:
        got = both((transform, "int_as_base"), case["is_async"], number, base)
    except Exception:
        expect(number >= 0 and base < 2 or number < 0, lambda: f"{number} is refused in base {base}")
        return
    expect(number > 0 and base >= 2, lambda: f"{number} in base {base} is {got!r}")


# --------------------------------------------------------------------- bytes

values = st.one_of(
    S.blobs(0, 40), S.sized_blobs(S.near([32, 48, 64, 256, 1024], spread=3)),
    st.integers(0, 6).map(lambda n: {"r": [0, n]}), st.integers(0, 6).map(lambda n: {"r": [255, n]}),
)
texts = st.fixed_dictionaries({
    "how": st.sampled_from(["url", "file", "phrase"]), "value": values, "is_async": st.booleans(),
    "as_text": st.booleans(),
})
URL = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
FILE = "-0123456789_abcdefghijklmnopqrstuvwxyz"


def evaluate_texts(case):
    value, is_async = blob(case["value"]), case["is_async"]
    if case["how"] == "url":
        text = both((io, "bytes_to_urlsafe"), is_async, value)
        expect(type(text) is bytes and URL.issuperset(text), lambda: f"{value!r} is encoded as {text!r}")
        wanted = base64.b64encode(value).rstrip(b"=").translate(bytes.maketrans(b"+/", b"-_"))
        expect(text == wanted, lambda: f"{value!r} is encoded as {text!r}, expected {wanted!r}")
        if case["as_text"]:
            text = text.decode()
        back = both((io, "urlsafe_to_bytes"), not is_async, text)
    elif case["how"] == "file":
        text = both((io, "bytes_to_filename"), is_async, value)
        expect(type(text) is str and set(text) <= set(FILE), lambda: f"{value!r} is the file name {text!r}")
        wanted = "".join(FILE[d] for d in digits(int.from_bytes(value, "big"), 38))
        expect(text == wanted, lambda: f"{value!r} is the file name {text!r}, expected {wanted!r}")
        back, value = both((io, "filename_to_bytes"), not is_async, text), value.lstrip(b"\x00")
    else:
        text = both((io, "_bytes_to_phrase"), is_async, value)
        words = text.split(b" ") if value else []
        expect(len(words) == len(value) and all(words), lambda: f"{len(value)} bytes are {len(words)} words")
        expect(len(set(words)) == len(set(value)), "two byte values share a word")
        back = both((io, "_phrase_to_bytes"), not is_async, text)
    expect(back == value and type(back) is bytes, lambda: (
        f"{value!r} comes back from {case['how']} {text!r} as {back!r}"))


# ------------------------------------------------------ condensing and padding

blocks = st.fixed_dictionaries({
    "value": values, "size": st.one_of(st.integers(1, 12), st.integers(1, 300)), "default": st.booleans(),
    "is_async": st.booleans(), "pad": st.sampled_from([None, 0, 1, 61, 255]),
})


def evaluate_blocks(case):
    value, size = blob(case["value"]), case["size"]
    kw = {} if case["default"] else {"size": size}
    length = 8 if case["default"] else size
    got = both((transform, "xi_mix"), case["is_async"], value, **kw)
    mixed = 0
    for at in range(0, len(value), length):
        mixed ^= int.from_bytes(value[at:at + length], "big")
    wanted = mixed.to_bytes(length, "big")
    expect(got == wanted, lambda: f"{value.hex()} condensed to {length}: {got.hex()}, expected {wanted.hex()}")
    pad = {} if case["pad"] is None else {"pad": bytes([case["pad"]])}
    got = both((canon, "fullblock_ljust"), case["is_async"], value, size, **pad)
    wanted = value + (pad.get("pad", b"\x00")) * (-len(value) % size)
    expect(got == wanted, lambda: (
        f"{len(value)} bytes padded to blocks of {size}: {len(got)} bytes, expected {len(wanted)}"))


def word_cases(tier):
    for byte in range(256):
        yield {"byte": byte}


def evaluate_words(case):
    """Every byte has a word of its own."""
    byte = case["byte"]
    words = io._bytes_to_phrase(bytes(range(256))).split(b" ")
    word = io._bytes_to_phrase(bytes([byte]))
    expect(word and b" " not in word and words.index(word) == byte and words.count(word) == 1,
           lambda: f"the word {word!r} of byte {byte} is not its own")
    expect(io._phrase_to_bytes(word) == bytes([byte]), lambda: f"the word {word!r} is not read as {byte}")


def full(case):
    return bool(blob(case["value"]).strip(b"\x00"))


PARTS = [
    Part("numbers", numbers, evaluate_numbers, 1500, 30000, nontrivial=lambda c: c["number"] > 0,
         labels=lambda c: ["ascii 95" if c["default"] else c["table"], "base given" if c["base"] else "base of table"]),
    Part("stray digits", strays, evaluate_strays, 400, 6000, labels=lambda c: [c["stray"]]),
    Part("no expansion", endless, evaluate_endless, 200, 2000, timeout=15,
         nontrivial=lambda c: c["number"] < 0 or c["base"] < 2),
    Part("texts", texts, evaluate_texts, 1500, 30000, nontrivial=full, labels=lambda c: [c["how"]]),
    Sweep("words", word_cases, evaluate_words, exhaustive=True),
    Part("blocks", blocks, evaluate_blocks, 1200, 20000, nontrivial=full),
]
