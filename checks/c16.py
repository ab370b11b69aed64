"""C16: a passphrase hash verifies for exactly the original credentials."""

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import call
from lib.harness import Part, Sweep, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing with metamorphic relations: hashes of generated "
    "credentials and costs are verified with the same and with systematically "
    "varied credentials, altered hashes and clock positions"
)
RULE = (
    "a case is a set of credentials, a hash made with them and a list of attempts; "
    "non-trivial when at least one attempt differs from the original credentials, "
    "hash or time. Distinct by the whole case."
)

passphrases = st.one_of(
    S.blobs(12, 24), S.sized_blobs(S.near([12, 64, 128, 167, 168, 169, 336], spread=1, low=12)),
)
aads = st.one_of(st.just({"h": ""}), S.blobs(0, 20), S.sized_blobs(S.near([128, 160, 168], spread=1)))
peppers = st.one_of(st.just({"h": ""}), S.blobs(0, 40))
costs = st.sampled_from([(1, 1, 1)] * 6 + [(1, 2, 1), (2, 1, 2), (1, 1, 2), (2, 3, 1)]).map(list)

CHANGES = (
    "flip", "append-nul", "append-byte", "drop-last", "drop-first", "prepend", "case", "empty",
    "double", "reverse",
)
ALL_CHANGES = CHANGES + ("strip-nul", "strip", "append-space", "truncate")
attempts = st.one_of(
    st.fixed_dictionaries({"what": st.just("same"), "is_async": st.booleans(),
                           "sub": st.booleans()}),
    st.fixed_dictionaries({"what": st.sampled_from(["passphrase", "passphrase", "aad", "aad", "pepper"]),
                           "how": st.sampled_from(ALL_CHANGES), "at": st.integers(0, 400),
                           "is_async": st.booleans()}),
    st.fixed_dictionaries({"what": st.just("shift"), "from": st.sampled_from(["passphrase", "pepper"]),
                           "n": st.integers(1, 4), "is_async": st.booleans()}),
    st.fixed_dictionaries({
        "what": st.just("hash"),
        "how": st.sampled_from(["flip", "flip", "salt", "tag", "tag", "time", "cut", "extend", "costs",
                                "other-tag", "other-salt", "move"]),
        "at": st.integers(0, 400), "bit": st.integers(0, 7), "is_async": st.booleans()}),
)
cases = st.fixed_dictionaries({
    "passphrase": passphrases, "aad": aads, "pepper": peppers, "costs": costs,
    "tag_size": st.one_of(st.just(16), st.integers(16, 40), st.sampled_from([64, 168, 200])),
    "salt_size": st.one_of(st.just(8), st.integers(4, 20), st.sampled_from([4, 255, 256])),
    "is_async": st.booleans(), "tries": st.lists(attempts, min_size=1, max_size=3),
})


def change(value, how, at):
    if how == "flip" and value:
        at %= len(value)
        return value[:at] + bytes([value[at] ^ 1 << at % 8]) + value[at + 1:]
    if how == "append-nul":
        return value + b"\0"
    if how == "drop-last":
        return value[:-1]
    if how == "drop-first":
        return value[1:]
    if how == "prepend":
        return b"\0" + value
    if how == "case":
        return value.swapcase()
    if how == "empty":
        return b""
    if how == "double":
        return value + value
    if how == "reverse":
        return value[::-1]
    if how == "strip-nul":
        return value.strip(b"\0")
    if how == "strip":
        return value.strip()
    if how == "append-space":
        return value + b" "
    if how == "truncate":
        return value[:8]
    return value + b"x"


def hasher(pepper):
    return type("Peppered", (aiootp.Passcrypt,), {"PEPPER": pepper, "__slots__": ()})


def accepted(cls, is_async, digest, passphrase, **kw):
    """True when it verifies, False when it is refused."""
    try:
        got = call(cls, "verify", is_async, digest, passphrase, **kw)
    except Exception:  # noqa: BLE001
        return False
    expect(got is None, lambda: f"verifying returns {got!r}")
    return True


ALLOWED = {"mb_allowed": range(1, 9), "cpu_allowed": range(1, 9), "cores_allowed": range(1, 5)}


def evaluate(case):
    passphrase, aad, pepper = (blob(case[n]) for n in ("passphrase", "aad", "pepper"))
    cls = hasher(pepper)
    mb, cpu, cores = case["costs"]
    obj = cls(mb=mb, cpu=cpu, cores=cores, tag_size=case["tag_size"], salt_size=case["salt_size"])
    digest = call(obj, "hash_passphrase", case["is_async"], passphrase, aad=aad)
    expect(len(digest) == 14 + case["salt_size"] + case["tag_size"],
           lambda: f"a hash has {len(digest)} bytes")
    for attempt in case["tries"]:
        judge(case, attempt, cls, digest, passphrase, aad, pepper)


def judge(case, attempt, cls, digest, passphrase, aad, pepper):
    what, is_async = attempt["what"], attempt["is_async"]
    if what == "same":
        verifier = cls if attempt["sub"] else hasher(pepper)
        expect(accepted(verifier, is_async, digest, passphrase, aad=aad, **ALLOWED),
               "the right credentials are refused")
        return
    p, a, q, d = passphrase, aad, pepper, digest
    if what == "passphrase":
        p = change(p, attempt["how"], attempt["at"])
    elif what == "aad":
        a = change(a, attempt["how"], attempt["at"])
    elif what == "pepper":
        q = change(q, attempt["how"], attempt["at"])
    elif what == "shift":
        n = attempt["n"]
        if attempt["from"] == "passphrase":
            p, a = p[:-n], p[-n:] + a
        else:
            q, a = q[:-n], q[-n:] + a
    else:
        d = change_hash(case, attempt, cls, digest, passphrase, aad)
    same = (p, a, q, d) == (passphrase, aad, pepper, digest)
    verifier = cls if q == pepper else hasher(q)
    got = accepted(verifier, is_async, d, p, aad=a, **ALLOWED)
    expect(got == same, lambda: (
        "the right credentials are refused" if same else
        f"accepted with another {what} ({attempt.get('how', 'shifted')})"
    ))


def change_hash(case, attempt, cls, d, passphrase, aad):
    how, at, n = attempt["how"], attempt["at"], case["salt_size"]
    spans = {"flip": (0, len(d)), "salt": (14, 14 + n), "tag": (14 + n, len(d)), "time": (0, 8)}
    if how in spans:
        low, high = spans[how]
        at = low + at % (high - low)
        if 8 <= at < 13:
            return change_hash(case, {**attempt, "how": "costs"}, cls, d, passphrase, aad)
        return d[:at] + bytes([d[at] ^ 1 << attempt["bit"]]) + d[at + 1:]
    if how == "cut":
        return d[:len(d) - 1 - at % 30]
    if how == "extend":
        return d + bytes(1 + at % 3)
    if how == "costs":
        at = (10, 11, 12)[at % 3]
        return d[:at] + bytes([d[at] ^ 1]) + d[at + 1:]
    if how == "move":
        # the border between salt and tag moves by one
        return d[:13] + bytes([(d[13] + 1) % 256]) + d[14:]
    other = cls(mb=1, cpu=1, cores=1, tag_size=case["tag_size"],
                salt_size=n).hash_passphrase(passphrase, aad=aad)
    if how == "other-tag":
        return d[:14 + n] + other[14 + n:]
    return d[:14] + other[14:14 + n] + d[14 + n:]


def long_cases(tier):
    """Changes near the end of long credentials."""
    for turn, what in enumerate(("passphrase", "aad", "pepper")):
        for n, size in enumerate((1025, 5000, 65537) + (2**20,) * (tier == "thorough")):
            case = {"passphrase": {"s": [1, 14]}, "aad": {"h": "01"}, "pepper": {"h": "02"}}
            yield {**case, what: {"s": [n, size]}, "costs": [1, 1, 1], "tag_size": 16, "salt_size": 8,
                   "is_async": (turn + n) % 2 == 0, "tries": [
                       {"what": "same", "is_async": n % 2 == 0, "sub": True}] + [
                       {"what": what, "how": how, "at": at, "is_async": i % 2 == n % 2} for i, (how, at) in enumerate((
                           ("flip", size - 1), ("flip", size // 2), ("append-nul", 0), ("drop-last", 0)))]}


# ------------------------------------------------ every kind of near miss

BASES = [
    {"passphrase": b"Correct Horse\0", "aad": b"", "pepper": b"", "salt_size": 4, "tag_size": 16},
    {"passphrase": b"\0 twelve bytes ", "aad": b"\0Data for \0", "pepper": b" Pepper\0", "salt_size": 8,
     "tag_size": 33},
]


def near_cases(tier):
    for number, base in enumerate(BASES):
        head = {"base": number, "costs": [1, 1, 1], "salt_size": base["salt_size"], "tag_size": base["tag_size"]}
        for turn, what in enumerate(("passphrase", "aad", "pepper")):
            tries = [{"what": what, "how": how, "at": 3, "is_async": i % 2 == turn % 2}
                     for i, how in enumerate(ALL_CHANGES)]
            yield {**head, "is_async": bool(turn % 2), "tries": tries}
            if tier == "thorough" or number:
                yield {**head, "is_async": not turn % 2,
                       "tries": [{**t, "is_async": not t["is_async"]} for t in tries]}
        yield {**head, "is_async": bool(number), "tries": [
            {"what": "hash", "how": how, "at": at, "bit": (at + number) % 8, "is_async": at % 2 == number}
            for how, count in (("time", 8), ("salt", base["salt_size"]), ("tag", base["tag_size"]), ("cut", 2),
                               ("extend", 3), ("costs", 3), ("other-tag", 2), ("other-salt", 2), ("move", 1))
            for at in range(count)]}
        yield {**head, "is_async": not number, "tries": [
            {"what": "shift", "from": source, "n": n, "is_async": bool(n % 2)}
            for source in ("passphrase", "pepper") for n in (1, 2)]
            + [{"what": "same", "is_async": i % 2 == 0, "sub": i > 1} for i in range(4)]}


def evaluate_near(case):
    base = BASES[case["base"]]
    passphrase, aad, pepper = base["passphrase"], base["aad"], base["pepper"]
    cls = hasher(pepper)
    mb, cpu, cores = case["costs"]
    obj = cls(mb=mb, cpu=cpu, cores=cores, tag_size=case["tag_size"], salt_size=case["salt_size"])
    digest = call(obj, "hash_passphrase", case["is_async"], passphrase, aad=aad)
    for attempt in case["tries"]:
        judge(case, attempt, cls, digest, passphrase, aad, pepper)


# ------------------------------------------------------------- freshness

twins = st.fixed_dictionaries({
    "passphrase": passphrases, "aad": aads, "is_async": st.booleans(), "other_async": st.booleans(),
    "salt_size": st.integers(12, 20), "objects": st.integers(1, 2),
})


def evaluate_twins(case):
    passphrase, aad = blob(case["passphrase"]), blob(case["aad"])
    objects = [aiootp.Passcrypt(mb=1, cpu=1, cores=1, tag_size=16, salt_size=case["salt_size"])
               for _ in range(case["objects"])]
    sut.wall.freeze(R.EPOCH_NS + 10**18)
    try:
        a = call(objects[0], "hash_passphrase", case["is_async"], passphrase, aad=aad)
        b = call(objects[-1], "hash_passphrase", case["other_async"], passphrase, aad=aad)
    finally:
        sut.wall.real()
    n = case["salt_size"]
    expect(a[14:14 + n] != b[14:14 + n], "two hashes have one salt")
    expect(a[14 + n:] != b[14 + n:], "two hashes have one tag")


# ---------------------------------------------------------------- expiry

SECOND = 10**9
lives = st.one_of(
    st.none(), st.integers(0, 5), st.integers(0, 10**6),
    st.sampled_from([0.5, 0.25, 1.5, 0.001, 2.0, 1e-9]),
)
offsets = st.one_of(st.sampled_from([0, 1, -1, 2, -2, SECOND, -SECOND]), st.integers(-3 * SECOND, 3 * SECOND))
aging = st.fixed_dictionaries({
    "ttl": lives, "offset": offsets, "made": st.integers(0, 10**18), "is_async": st.booleans(),
    "right": st.booleans(),
})


def evaluate_age(case):
    limit = 0 if case["ttl"] is None else int(case["ttl"] * SECOND)
    age = max(0, limit + case["offset"])
    cls = hasher(b"")
    passphrase = b"correct horse"
    try:
        sut.wall.freeze(R.EPOCH_NS + case["made"])
        digest = cls(mb=1, cpu=1, cores=1, tag_size=16).hash_passphrase(passphrase)
        sut.wall.freeze(R.EPOCH_NS + case["made"] + age)
        attempt = passphrase if case["right"] else passphrase + b"!"
        try:
            call(cls, "verify", case["is_async"], digest, attempt, ttl=case["ttl"])
            outcome = "accepted"
        except Exception as error:  # noqa: BLE001
            outcome = "expired" if isinstance(error, cls.TimestampExpired) else "refused"
    finally:
        sut.wall.real()
    expired = case["ttl"] is not None and age > limit
    if expired:
        expect(outcome != "accepted", lambda: f"a hash {age} ns old is accepted with lifetime {limit} ns")
    elif case["right"]:
        expect(outcome == "accepted", lambda: f"{outcome}: a hash {age} ns old, lifetime {case['ttl']} s")
    else:
        expect(outcome == "refused", lambda: f"{outcome}: a wrong passphrase")


def labels(case):
    for attempt in case["tries"]:
        yield f"{attempt['what']} {attempt.get('how', '')}".strip()


PARTS = [
    Part("credentials", cases, evaluate, 130, 1500, labels=labels,
         nontrivial=lambda c: any(t["what"] != "same" for t in c["tries"])),
    Sweep("near misses", near_cases, evaluate_near, labels=lambda c: [c["tries"][0]["what"]]),
    Sweep("long credentials", long_cases, evaluate, labels=lambda c: [c["tries"][1]["what"]]),
    Part("twins", twins, evaluate_twins, 20, 200),
    Part("ages", aging, evaluate_age, 70, 700, nontrivial=lambda c: c["ttl"] is not None,
         labels=lambda c: ["no lifetime" if c["ttl"] is None else
                           "over" if c["offset"] > 0 else "within"]),
]
