"""C37: mnemonics and keyed choices are reproducible and stay in their word list."""

import asyncio

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing of generated passphrases, salts, costs, keys, domains and word "
    "lists against an independent derivation, with one-input-changed variants"
)
RULE = (
    "a case is a set of inputs of a mnemonic or of keyed choices; non-trivial when there are "
    "at least two words to choose from and at least two are chosen. Distinct by the whole case."
)
ASSUMPTIONS = (
    "an empty passphrase, salt or word list means that none is given",
    "words chosen from changed inputs differ: judged only where equal words would be a "
    "coincidence rarer than 2**-60",
)
module = aiootp.keygens.mnemonics
MNEMONIC = R.encode_constant("mnemonic")


def words_of(spec):
    kind, count = spec
    if kind == "text":
        return "".join(chr(0x4E00 + i) for i in range(count))
    if kind == "range":
        return range(7, 7 + count)
    if kind == "bytes":
        return bytes(i % 256 for i in range(count))
    words = [b"w%d" % i for i in range(count)]
    return tuple(words) if kind == "tuple" else words


counts = st.one_of(
    st.integers(1, 6), st.integers(1, 300), st.sampled_from([1, 2, 255, 256, 257, 2048, 3000]))
lists = st.tuples(st.sampled_from(["list", "tuple", "text", "range", "bytes"]), counts)
sizes = st.one_of(st.integers(1, 12), st.integers(1, 60), st.sampled_from([8, 16, 17, 136, 500]))
keys = st.one_of(S.sized_blobs(st.sampled_from([64, 64, 32, 1, 136, 200])), S.blobs(1, 80))
domains = st.one_of(st.just({"h": ""}), S.blobs(0, 12))


def enough(total, size):
    """Do that many choices identify their inputs?"""
    return total > 1 and size * (total.bit_length() - 1) >= 60


# ------------------------------------------------------------ keyed choices

choices = st.fixed_dictionaries({
    "words": lists, "size": sizes, "domain": domains, "key": keys, "is_async": st.booleans(),
    "default": st.booleans(), "change": st.sampled_from(["key", "domain", "size", "words"]),
    "flip": st.integers(0, 10**4),
})


def choose(is_async, words, size, **kw):
    if is_async:
        return sut.run(sut.aconsume(module.akeyed_choices(words, size, **kw)))
    return list(module.keyed_choices(words, size, **kw))


def flipped(data, at):
    data = bytearray(data or b"\x00")
    data[at // 8 % len(data)] ^= 1 << at % 8
    return bytes(data)


def evaluate_choices(case):
    words, size = words_of(case["words"]), case["size"]
    key, domain = blob(case["key"]), blob(case["domain"])
    if case["default"]:
        domain = b""
    kw = {"key": key} if case["default"] else {"key": key, "domain": domain}
    got = choose(case["is_async"], words, size, **kw)
    indexes = R.keyed_choice_indexes(len(words), size, domain, key)
    expect(got == [words[i] for i in indexes], lambda: (
        f"{size} choices from {len(words)} words are {got[:6]!r}, expected "
        f"{[words[i] for i in indexes][:6]!r}"))
    other = choose(not case["is_async"], words, size, **kw)
    expect(other == got, lambda: "the sync and the async form choose differently")
    if not enough(len(words), size):
        return
    changed = dict(words=words, size=size, key=key, domain=domain)
    if case["change"] == "words":
        changed["words"] = words_of((case["words"][0], len(words) + 1))
    elif case["change"] == "size":
        changed["size"] = size + 1
    else:
        changed[case["change"]] = flipped(changed[case["change"]], case["flip"])
    there = choose(case["is_async"], changed["words"], changed["size"], domain=changed["domain"],
                   key=changed["key"])
    expect(there[:size] != got, lambda: f"other {case['change']}, same choices {got[:6]!r}")


def large(tier):
    """Long lists of words, and many choices."""
    for total in (255, 256, 257, 4096, 32768, 65535, 65536, 65537, 70001, 2**17 + 1, 2**20):
        for size in (2, 40, 1000):
            yield {"words": ["range" if total & 1 else "text" if total < 50000 else "range", total], "size": size,
                   "domain": {"h": "64"}, "key": {"s": [total, 64]}, "is_async": bool(size & 1), "default": False,
                   "change": "words", "flip": 0}
    for size in (127, 128, 255, 256, 257, 1024, 4096, 10000, 65536, 65537):
        yield {"words": ["list", 300], "size": size, "domain": {"h": "64"}, "key": {"s": [size, 64]},
               "is_async": bool(size & 1), "default": False, "change": "size", "flip": 0}
    for size in (1000, 4096, 65536, 65537):
        for change in ("key", "domain"):
            yield {"words": ["list", 300], "size": 40, "domain": {"s": [1, size]}, "key": {"s": [size, size]},
                   "is_async": bool(size & 1), "default": False, "change": change, "flip": 8 * size - 1}


def nontrivial_choices(case):
    return case["words"][1] > 1 and case["size"] > 1


# ---------------------------------------------------------------- coverage

coverages = st.fixed_dictionaries({
    "words": st.tuples(st.sampled_from(["list", "text"]), st.integers(2, 60)), "key": keys,
    "domain": domains, "is_async": st.booleans(),
})


def evaluate_coverage(case):
    words = words_of(case["words"])
    got = choose(case["is_async"], words, 4000, key=blob(case["key"]), domain=blob(case["domain"]))
    expect(len(got) == 4000 and set(got) == set(words), lambda: (
        f"4000 choices from {len(words)} words give {len(got)} with "
        f"{len(set(got))} different ones"))


# --------------------------------------------------------------- mnemonics

mnemonics = st.fixed_dictionaries({
    "passphrase": st.one_of(S.blobs(12, 20), S.sized_blobs(st.sampled_from([12, 64, 168, 300]))),
    "salt": st.one_of(st.none(), st.just({"h": ""}), S.blobs(1, 30)),
    "size": sizes, "words": st.one_of(st.none(), lists),
    "mb": st.sampled_from([1, 1, 1, 2]), "cpu": st.sampled_from([1, 1, 2, 3]),
    "cores": st.sampled_from([1, 1, 2]), "is_async": st.booleans(),
    "change": st.sampled_from([None, None, "passphrase", "salt", "cost"]),
    "flip": st.integers(0, 10**4), "positional": st.booleans(),
})


def make(is_async, passphrase, size, positional=True, **kw):
    args = (passphrase, size) if positional else (passphrase,)
    if not positional:
        kw["size"] = size
    if is_async:
        return sut.run(module.amnemonic(*args, **kw))
    return module.mnemonic(*args, **kw)


def evaluate_mnemonics(case):
    passphrase, size = blob(case["passphrase"]), case["size"]
    salt = None if case["salt"] is None else blob(case["salt"])
    costs = {n: case[n] for n in ("mb", "cpu", "cores")}
    kw = dict(costs)
    if salt is not None:
        kw["salt"] = salt
    words = None
    if case["words"]:
        kw["words"] = words = words_of(case["words"])
    got = make(case["is_async"], passphrase, size, case["positional"], **kw)
    key = R.passcrypt(passphrase, R.canonical_pack(salt or b"", MNEMONIC), tag_size=64, **costs)
    total = 2048 if words is None else len(words)
    indexes = R.keyed_choice_indexes(total, size, MNEMONIC, key)
    expect(type(got) is list and len(got) == size, lambda: (
        f"{size} words were asked for: {type(got).__name__} of {len(got)}"))
    if words is None:
        seen = {}
        for index, word in zip(indexes, got):
            expect(seen.setdefault(index, word) == word and type(word) is bytes, lambda: (
                f"choice {index} is {word!r} and {seen[index]!r}"))
    else:
        expect(got == [words[i] for i in indexes], lambda: (
            f"{got[:6]!r} instead of {[words[i] for i in indexes][:6]!r}"))
    if case["change"] is None:
        again = make(not case["is_async"], passphrase, size, **kw)
        expect(again == got, lambda: "the same inputs in the other form give another mnemonic")
    elif enough(total, size):
        if case["change"] == "passphrase":
            passphrase = flipped(passphrase, case["flip"])
        elif case["change"] == "salt":
            kw["salt"] = flipped(salt or b"", case["flip"])
        else:
            name = ("mb", "cpu", "cores")[case["flip"] % 3]
            kw[name] += 1
        there = make(case["is_async"], passphrase, size, **kw)
        expect(there != got, lambda: f"other {case['change']}, same mnemonic {got[:6]!r}")


def nontrivial_mnemonics(case):
    return case["size"] > 1 and (case["words"] is None or case["words"][1] > 1)


def labels_mnemonics(case):
    yield "default words" if case["words"] is None else "given words"
    yield "no salt" if not case["salt"] else "salt"
    yield f"changed {case['change']}"


# -------------------------------------------------------------- random ones

randoms = st.fixed_dictionaries({
    "calls": st.lists(st.fixed_dictionaries({
        "is_async": st.booleans(), "passphrase": st.sampled_from(["absent", "none", "empty"]),
        "salt": st.one_of(st.none(), st.just("73616c74")),
    }), min_size=2, max_size=6),
    "size": st.integers(1, 20), "words": st.one_of(st.none(), lists), "together": st.booleans(),
})


def evaluate_randoms(case):
    words = None if case["words"] is None else words_of(case["words"])
    total = 2048 if words is None else len(words)
    results = []
    pending = []
    for call in case["calls"]:
        args = {"absent": (), "none": (None,), "empty": (b"",)}[call["passphrase"]]
        kw = {"size": case["size"]}
        if words is not None:
            kw["words"] = words
        if call["salt"]:
            kw["salt"] = bytes.fromhex(call["salt"])
        if not call["is_async"]:
            results.append(module.mnemonic(*args, **kw))
        elif case["together"]:
            pending.append(module.amnemonic(*args, **kw))
        else:
            results.append(sut.run(module.amnemonic(*args, **kw)))

    async def gathered():
        return await asyncio.gather(*pending)

    results += sut.run(gathered())
    for result in results:
        expect(type(result) is list and len(result) == case["size"], lambda: (
            f"{case['size']} words were asked for, got {len(result)}"))
        expect(words is None or all(word in words for word in result), lambda: (
            f"words from elsewhere: {result!r}"))
    if enough(total, case["size"]):
        expect(len({tuple(r) for r in results}) == len(results), lambda: (
            f"two random mnemonics are equal: {results!r}"))


# ------------------------------------------------------------- default list

def default_list(tier):
    for is_async in (False, True):
        yield {"is_async": is_async, "size": 120000}


def evaluate_default_list(case):
    """Random mnemonics reach 2048 unique lowercase words, in fixed places."""
    got = make(case["is_async"], None, case["size"])
    expect(len(got) == case["size"], lambda: "wrong number of words")
    expect(len(set(got)) == 2048, lambda: f"the default list has {len(set(got))} words")
    expect(all(type(w) is bytes and w.isalpha() and w.islower() for w in set(got)), lambda: (
        "not all of the default words are lowercase words"))
    places = {}
    for passphrase in (b"the first passphrase", b"another passphrase"):
        got = make(case["is_async"], passphrase, 20000, mb=1, cpu=1, cores=1)
        key = R.passcrypt(passphrase, R.canonical_pack(b"", MNEMONIC), tag_size=64)
        for index, word in zip(R.keyed_choice_indexes(2048, 20000, MNEMONIC, key), got):
            expect(places.setdefault(index, word) == word, lambda: (
                f"choice {index} is {places[index]!r} as well as {word!r}"))
    expect(len(set(places.values())) == len(places), lambda: "two choices are the same word")


PARTS = [
    Part("keyed choices", choices, evaluate_choices, 900, nontrivial=nontrivial_choices,
         labels=lambda case: [f"changed {case['change']}", case["words"][0]]),
    Sweep("large", large, evaluate_choices, nontrivial=nontrivial_choices),
    Part("coverage", coverages, evaluate_coverage, 40, nontrivial=lambda case: True),
    Part("mnemonics", mnemonics, evaluate_mnemonics, 80, nontrivial=nontrivial_mnemonics,
         labels=labels_mnemonics),
    Part("random mnemonics", randoms, evaluate_randoms, 200,
         nontrivial=lambda case: case["size"] > 1),
    Sweep("default list", default_list, evaluate_default_list, nontrivial=lambda case: True),
]
