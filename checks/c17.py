"""C17: passphrase derivation follows its definition and its declared costs."""

from hypothesis import strategies as st

from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import call
from lib.harness import Part, Sweep, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing: generated parameters against an independent "
    "implementation of the algorithm; generated out-of-range costs and malformed "
    "hashes with a recording stand-in where the expensive work would start"
)
RULE = (
    "a case is a set of derivation parameters, or a call whose parameters or hash "
    "may be out of range; non-trivial when a cost is above its minimum, respectively "
    "when the call has to be refused. Distinct by the whole case."
)

passphrases = st.one_of(
    S.blobs(12, 20), S.sized_blobs(S.near([12, 150, 168, 336], spread=1, low=12)),
)
aads = st.one_of(st.just({"h": ""}), S.blobs(0, 20), S.sized_blobs(S.near([128, 160, 168], spread=1)))
derivations = st.fixed_dictionaries({
    "passphrase": passphrases, "aad": aads, "pepper": st.one_of(st.just({"h": ""}), S.blobs(0, 20)),
    "salt": S.sized_blobs(st.one_of(st.integers(4, 20), st.sampled_from([4, 255, 256]))),
    "mb": st.sampled_from([1, 1, 1, 2, 3, 4, 5]), "cpu": st.sampled_from([1, 1, 2, 3, 4, 5, 6, 9]),
    "cores": st.sampled_from([1, 1, 2, 3, 4]),
    "tag_size": st.one_of(st.integers(16, 40), st.sampled_from([16, 167, 168, 169, 336, 400])),
    "is_async": st.booleans(), "how": st.sampled_from(["new", "new", "hash"]),
})


def evaluate(case):
    passphrase, salt, aad, pepper = (
        blob(case[n]) for n in ("passphrase", "salt", "aad", "pepper"))
    costs = {n: case[n] for n in ("mb", "cpu", "cores", "tag_size")}
    cls = type("Peppered", (aiootp.Passcrypt,), {"PEPPER": pepper, "__slots__": ()})
    if case["how"] == "new":
        got = call(cls(**costs), "new", case["is_async"], passphrase, salt, aad=aad)
        wanted = R.passcrypt(passphrase, salt, aad, pepper, **costs)
    else:
        obj = cls(salt_size=len(salt), **costs)
        got = call(obj, "hash_passphrase", case["is_async"], passphrase, aad=aad)
        made = got[14:14 + len(salt)]
        wanted = R.passcrypt_hash(got[:8], passphrase, made, aad, pepper, **costs)
    expect(got == wanted, lambda: f"derived {got.hex()[:48]}.. instead of {wanted.hex()[:48]}..")


def long_cases(tier):
    """One input far longer than a block of the hash."""
    sizes = [1000, 1024, 1025, 4097, 65536, 65537] + [2**20, 2**24 + 1] * (tier == "thorough")
    base = {"passphrase": {"s": [1, 14]}, "aad": {"h": "01"}, "pepper": {"h": "02"}, "salt": {"s": [2, 8]},
            "mb": 1, "cpu": 1, "cores": 1, "tag_size": 16}
    for turn, name in enumerate(("passphrase", "aad", "pepper", "tag_size")):
        for n, size in enumerate(sizes):
            yield {**base, name: size if name == "tag_size" else {"s": [n, size]},
                   "cores": 1 + (n + turn) % 2, "is_async": (n + turn) % 2 == 1, "how": ("new", "hash")[n % 2]}


# -------------------------------------------------------------- refusals

class Started(Exception):
    """The expensive work would begin now."""


class Watched:
    """Stands where work is handed to other processes."""

    def __enter__(self):
        cls = aiootp.asynchs.Processes
        self.saved = {n: cls.__dict__.get(n) for n in ("submit", "asubmit", "new", "anew")}

        @classmethod
        def submit(cls, *a, **kw):
            raise Started

        @classmethod
        async def asubmit(cls, *a, **kw):
            raise Started

        cls.submit, cls.asubmit, cls.new, cls.anew = submit, asubmit, submit, asubmit

    def __exit__(self, *_):
        cls = aiootp.asynchs.Processes
        for name, value in self.saved.items():
            if value is None:
                delattr(cls, name)
            else:
                setattr(cls, name, value)


def attempt(function):
    """"works", "starts" (the work begins) or the exception."""
    try:
        with Watched():
            function()
    except Exception as error:  # noqa: BLE001
        at = error
        while at is not None:
            if isinstance(at, Started):
                return "starts"
            at = at.__cause__ or at.__context__
        return error
    return "works"


LIMITS = {"mb": (1, 256**3), "cpu": (1, 256), "cores": (1, 256), "tag_size": (16, None),
          "salt_size": (4, 256)}
numbers = {
    name: st.one_of(
        *([st.sampled_from([low, low + 1, low - 1, 0, -1])]
          + ([st.sampled_from([high, high - 1, high + 1, high * 2])] if high else [])),
        st.integers(low, low + 7),
    )
    for name, (low, high) in LIMITS.items()
}
odd = st.sampled_from([None, "1", 1.0, 16.0, 20.0, [1], {"h": "01"}])
wrong = st.one_of(st.tuples(st.just("value"), st.integers(0, 0)), st.tuples(st.just("odd"), odd))
settings = st.fixed_dictionaries({
    **numbers, "odd": st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(sorted(LIMITS)), odd).map(list)),
})


def valid(name, value):
    low, high = LIMITS[name]
    return type(value) is int and value >= low and (high is None or value <= high)


def evaluate_settings(case):
    given = {n: case[n] for n in LIMITS}
    if case["odd"]:
        given[case["odd"][0]] = blob(case["odd"][1]) if isinstance(case["odd"][1], dict) else case["odd"][1]
    ok = all(valid(n, v) for n, v in given.items())
    outcome = attempt(lambda: aiootp.Passcrypt(**given))
    bad = [n for n, v in given.items() if not valid(n, v)]
    expect((outcome == "works") == ok, lambda: (
        f"refused although every setting is in range: {outcome!r}" if ok else
        f"accepted although {bad[0]} is {given[bad[0]]!r}"
    ))


inputs = st.fixed_dictionaries({
    "passphrase": st.one_of(S.sized_blobs(st.sampled_from([0, 1, 11, 12, 13])), st.sampled_from(["x" * 12, None, "x" * 11])),
    "salt": st.one_of(S.sized_blobs(st.sampled_from([0, 1, 3, 4, 5, 256, 257, 300])), st.sampled_from(["saltsalt", None])),
    "aad": st.one_of(S.blobs(0, 4), st.sampled_from(["aad", None])),
    "is_async": st.booleans(),
})


def raw(value):
    return blob(value) if isinstance(value, dict) else value


def evaluate_inputs(case):
    passphrase, salt, aad = (raw(case[n]) for n in ("passphrase", "salt", "aad"))
    ok = (type(passphrase) is bytes and len(passphrase) >= 12
          and type(salt) is bytes and 4 <= len(salt) <= 256 and type(aad) is bytes)
    obj = aiootp.Passcrypt(mb=1, cpu=1, cores=1, tag_size=16)
    outcome = attempt(lambda: call(obj, "new", case["is_async"], passphrase, salt, aad=aad))
    expect((outcome == "starts") == ok, lambda: (
        f"refused although the inputs are valid: {outcome!r}" if ok else
        f"the work {'starts' if outcome == 'starts' else outcome} with invalid inputs"
    ))


ranges = st.one_of(
    st.none(),
    st.tuples(st.integers(1, 6), st.integers(1, 9), st.integers(1, 3)).map(list),
)
hashes = st.fixed_dictionaries({
    "mb": st.one_of(st.integers(1, 9), st.sampled_from([511, 512, 513, 65536, 256**3])),
    "cpu": st.one_of(st.integers(1, 9), st.sampled_from([32, 33, 255, 256])),
    "cores": st.one_of(st.integers(1, 9), st.sampled_from([8, 9, 255, 256])),
    "salt": st.one_of(st.integers(4, 9), st.sampled_from([4, 256])),
    "tag": st.one_of(st.integers(16, 20), st.just(64)),
    "mb_allowed": ranges, "cpu_allowed": ranges, "cores_allowed": ranges,
    "form": st.one_of(
        st.just("whole"), st.just("whole"), st.just("whole"),
        st.tuples(st.just("cut"), st.integers(0, 60)).map(list),
        st.tuples(st.just("salt-size"), st.integers(0, 255)).map(list),
        st.sampled_from(["none", "text", "empty"]),
    ),
    "is_async": st.booleans(),
})
DEFAULT_ALLOWED = {"mb": range(1, 512), "cpu": range(1, 33), "cores": range(1, 9)}


def evaluate_hash(case):
    digest = (
        (12345).to_bytes(8, "big") + (case["mb"] - 1).to_bytes(3, "big")
        + bytes([case["cpu"] - 1, case["cores"] - 1, case["salt"] - 1])
        + b"s" * case["salt"] + b"t" * case["tag"]
    )
    allowed = dict(DEFAULT_ALLOWED)
    kw = {}
    for name in allowed:
        if case[name + "_allowed"]:
            kw[name + "_allowed"] = allowed[name] = range(*case[name + "_allowed"])
    form = case["form"]
    ok = all(case[n] in allowed[n] for n in allowed)
    if form[0] == "cut":
        cut = form[1]
        digest = digest[:max(0, len(digest) - cut)]
        tag_left = len(digest) - 14 - case["salt"]
        ok = ok and tag_left >= 16
    elif form[0] == "salt-size":
        size = form[1] + 1
        digest = digest[:13] + bytes([form[1]]) + digest[14:]
        ok = ok and size >= 4 and len(digest) - 14 - size >= 16
    elif form in ("none", "text", "empty"):
        digest = {"none": None, "text": "x" * 40, "empty": b""}[form]
        ok = False
    outcome = attempt(lambda: call(
        aiootp.Passcrypt, "verify", case["is_async"], digest, b"passphrase 12", **kw))
    expect((outcome == "starts") == ok, lambda: (
        f"refused although the hash is well-formed and allowed: {outcome!r}" if ok else
        f"the work {'starts' if outcome == 'starts' else outcome} for a hash that has to be refused"
    ))
    if not ok and form == "whole":
        expect(isinstance(outcome, ResourceWarning), lambda: (
            f"costs outside the allowed range are refused with {outcome!r}"
        ))


def must_refuse_hash(case):
    allowed = {n: range(*case[n + "_allowed"]) if case[n + "_allowed"] else DEFAULT_ALLOWED[n]
               for n in DEFAULT_ALLOWED}
    return case["form"] != "whole" or not all(case[n] in allowed[n] for n in allowed)


PARTS = [
    Part("derivations", derivations, evaluate, 90, 1200,
         nontrivial=lambda c: max(c["mb"], c["cpu"], c["cores"]) > 1,
         labels=lambda c: [f"cores {c['cores']}", f"cpu {c['cpu']}", c["how"]]),
    Sweep("long", long_cases, evaluate, labels=lambda c: [c["how"]]),
    Part("settings", settings, evaluate_settings, 600,
         nontrivial=lambda c: not all(valid(n, c[n]) for n in LIMITS) or bool(c["odd"])),
    Part("inputs", inputs, evaluate_inputs, 300),
    Part("hashes", hashes, evaluate_hash, 700, nontrivial=must_refuse_hash,
         labels=lambda c: [c["form"] if isinstance(c["form"], str) else c["form"][0]]),
]
