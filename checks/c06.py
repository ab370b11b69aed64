"""C06: messages older than the allowed age are never released."""


from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.ciph import CIPHERS, buffer, call, drain, finalize, open_stream
from lib.harness import Part, Sweep, Violation, expect
from lib.refmodel import EPOCH_NS
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing under a controlled clock: generated "
    "ages, lifetimes, interfaces and call orders against the age arithmetic"
)
RULE = (
    "a case is a message with its making time, a lifetime and a history of "
    "openings at later times; non-trivial when a lifetime was given and at "
    "least one opening was attempted. Distinct by the whole case."
)
ASSUMPTIONS = (
    "the wall clock read by the package is replaced by a controlled one; "
    "ages are counted in whole ticks of the one-second clock",
)

SECOND = 1_000_000_000
ttls = st.one_of(
    st.integers(0, 5), st.sampled_from([1, 59, 60, 3600, 86400, 2**31, 2**32]),
    st.none(),
)
fractions = st.sampled_from([0, 1, 499_999_999, 500_000_000, 999_999_999])
makings = st.one_of(
    st.integers(0, 3), st.sampled_from([2**31 - 2, 2**31, 2**32 - 70_000]),
    st.integers(10**8, 2 * 10**8),
)
# the difference between the age and the lifetime, in whole seconds
slacks = st.one_of(st.integers(-3, 3), st.sampled_from([-(10**6), 10**6, 86400, 2**20]))
HOWS = ("bytes", "json", "token", "db-bytes", "db-json", "db-token", "query")

openings = st.lists(
    st.fixed_dictionaries({
        "ttl": ttls, "slack": slacks, "fraction": fractions, "is_async": st.booleans(),
    }),
    min_size=1, max_size=4,
)


def cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "how": st.sampled_from(HOWS), "made": makings,
        "fraction": fractions, "aad": S.blobs(0, 8), "data": S.payloads(name, 2),
        "enc_async": st.booleans(), "openings": openings,
    })


def verdict(what, age, ttl, open_it, value):
    """The opening must end exactly as the age arithmetic says."""
    expired = ttl is not None and age > ttl
    try:
        got = open_it()
    except TimeoutError as error:
        expect(expired, lambda: f"{what}: refused as expired at age {age} s, lifetime {ttl}")
        late = getattr(error, "expired_by", None)
        expect(late == age - ttl, lambda: (
            f"{what}: age {age} s, lifetime {ttl} s, reported late by {late!r}"
        ))
        return
    expect(not expired, lambda: (
        f"{what}: a message aged {age} s was released in spite of lifetime {ttl} s"
    ))
    expect(S.same_json(got, value) if not isinstance(value, bytes) else got == value,
           f"{what}: another value came out")


def moment(made, age):
    """Whole seconds `made` + `age` on the package's clock."""
    return EPOCH_NS + (made + age) * SECOND


DBS = {}


def database(is_async):
    if is_async not in DBS:
        cls = aiootp.AsyncDatabase if is_async else aiootp.Database
        path = sut.scratch("verif-c06-")
        db = sut.run(cls(key=b"k" * 64, path=path)) if is_async else cls(key=b"k" * 64, path=path)
        DBS[is_async] = db
    return DBS[is_async]


def evaluate(case):
    try:
        if case["how"] == "query":
            evaluate_query(case)
        else:
            evaluate_message(case)
    finally:
        sut.wall.real()


def age_of(case, o):
    """A never negative age for the wanted distance from the lifetime."""
    return max(0, (0 if o["ttl"] is None else o["ttl"]) + o["slack"])


def in_range(case, o):
    return case["made"] + age_of(case, o) < 2**32 - 2


def evaluate_message(case):
    data = blob(case["data"])
    aad = blob(case["aad"])
    _, _, kind = case["how"].rpartition("-")
    value = {"k": data.hex()} if kind == "json" else data
    make, read = {
        "bytes": ("bytes_encrypt", "bytes_decrypt"), "json": ("json_encrypt", "json_decrypt"),
        "token": ("make_token", "read_token"),
    }[kind]
    is_db = case["how"].startswith("db-")
    if is_db:
        target = database(case["enc_async"])
        kw = {"filename": "some name", "aad": aad}
    else:
        target = CIPHERS[case["cipher"]](b"k" * 64)
        kw = {"aad": aad}
    sut.wall.freeze(moment(case["made"], 0) + case["fraction"])
    sealed = call(target, make, case["enc_async"], value, **kw)
    for o in case["openings"]:
        if not in_range(case, o):
            continue
        age, ttl = age_of(case, o), o["ttl"]
        is_async = case["enc_async"] if is_db else o["is_async"]
        sut.wall.freeze(moment(case["made"], age) + o["fraction"])
        extra = {} if ttl is None and o["is_async"] else {"ttl": ttl}
        verdict(f"{case['how']} {'async' if is_async else 'sync'}", age, ttl,
                lambda: call(target, read, is_async, sealed, **kw, **extra), value)


def evaluate_query(case):
    """Stored tags, read from the disk by an object which has them not cached."""
    is_async = case["enc_async"]
    cls = aiootp.AsyncDatabase if is_async else aiootp.Database
    path = sut.scratch("verif-c06-")
    try:
        sut.wall.freeze(moment(case["made"], 0) + case["fraction"])
        value = blob(case["data"])
        db = sut.run(cls(key=b"q" * 64, path=path)) if is_async else cls(key=b"q" * 64, path=path)
        call(db, "set_tag", is_async, "tag", value)
        call(db, "save_database", is_async)
        for o in case["openings"]:
            if not in_range(case, o):
                continue
            age, ttl = age_of(case, o), o["ttl"]
            sut.wall.freeze(moment(case["made"], age) + o["fraction"])
            call(db, "clear_cache", is_async)
            verdict(f"query {'async' if is_async else 'sync'}", age, ttl, lambda: call(
                db, "query_tag", is_async, "tag", ttl=ttl), value)
    finally:
        sut.wall.real()
        sut.remove_scratch(path)


# ---------------------------------------------------------------- streams

STREAM_OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("buffer"), "n": st.integers(1, 3)}),
    st.fixed_dictionaries({"op": st.just("buffer"), "n": st.integers(1, 3)}),
    st.fixed_dictionaries({"op": st.just("iterate")}),
    st.fixed_dictionaries({"op": st.just("iterate")}),
    st.fixed_dictionaries({"op": st.just("finalize")}),
    st.fixed_dictionaries({"op": st.just("bad")}),
    st.fixed_dictionaries({"op": st.just("time"), "slack": slacks, "fraction": fractions}),
)


def stream_cases(name):
    return st.fixed_dictionaries({
        "cipher": st.just(name), "made": makings, "fraction": fractions,
        "data": S.payloads(name, 4), "ttl": ttls, "slack": slacks,
        "ops": st.lists(STREAM_OPS, min_size=1, max_size=10), "is_async": st.booleans(),
    })


def evaluate_stream(case):
    try:
        stream_history(case)
    finally:
        sut.wall.real()


def stream_history(case):
    name, data, ttl, is_async = case["cipher"], blob(case["data"]), case["ttl"], case["is_async"]
    cipher = CIPHERS[name](b"k" * 64)
    sut.wall.freeze(moment(case["made"], 0) + case["fraction"])
    writer = cipher.stream_encrypt()
    writer.buffer(data)
    packets = list(writer) + list(writer.finalize())
    if not in_range(case, case):
        return
    age = age_of(case, case)
    sut.wall.freeze(moment(case["made"], age))
    extra = {} if ttl is None else {"ttl": ttl}
    reader = open_stream(cipher, "stream_decrypt", is_async, salt=writer.salt, iv=writer.iv, **extra)
    sent, started, out = 0, False, []

    def judge(what, pull):
        """Pulls plaintext; expiry counts until the first success."""
        nonlocal started
        expired = ttl is not None and age > ttl and not started
        got = []
        try:
            got = pull()
        except TimeoutError as error:
            expect(expired and sent, lambda: (
                f"stream {what}: refused as expired at age {age} s, lifetime {ttl}"
            ))
            expect(error.expired_by == age - ttl, lambda: (
                f"stream {what}: age {age}, lifetime {ttl}, late by {error.expired_by}"
            ))
            return
        except Exception as error:  # noqa: BLE001
            if not sent or (what == "finalize" and sent < len(packets)):
                return  # nothing to judge yet, or a message cut short
            raise Violation(f"stream {what}: unexpected {error!r:.120}") from error
        if expired and what == "iterate" and not b"".join(got):
            return  # nothing was released (yet)
        if expired:
            raise Violation(
                f"stream {what}: passed at age {age} s with lifetime {ttl} s, "
                f"{sum(map(len, got))} bytes came out",
            )
        if sent:
            started = True
        out.extend(got)

    closed = False
    for op in case["ops"]:
        if op["op"] == "time":
            later = max(age, age_of(case, {"ttl": ttl, "slack": op["slack"]}))
            if case["made"] + later < 2**32 - 2:
                age = later
                sut.wall.freeze(moment(case["made"], age) + op["fraction"])
        elif op["op"] == "buffer":
            group = packets[sent:sent + op["n"]]
            if group:
                buffer(reader, is_async, b"".join(i + b for i, b in group))
                sent += len(group)
        elif op["op"] == "bad":
            try:
                buffer(reader, is_async, bytes(len(b"".join(packets[0]))))
            except Exception:  # noqa: BLE001, S110
                pass
        elif op["op"] == "iterate":
            judge("iterate", lambda: drain(reader, is_async))
        else:
            judge("finalize", lambda: finalize(reader, is_async))
            closed = True
            break
    if closed:
        # whatever is called after the end, nothing may come out
        for pull in (drain, finalize):
            try:
                late = pull(reader, is_async)
            except Exception:  # noqa: BLE001
                continue
            expect(not b"".join(late), "a finalized stream released more plaintext")
    if sent == len(packets) and closed and started and b"".join(out) != data:
        raise Violation("a stream that was fresh when it started lost plaintext")
    expect(data.startswith(b"".join(out)), "plaintext that is not the message's")


def boundaries(tier):
    """All interfaces at the exact boundary second, both cipher objects."""
    for name in S.CIPHERS:
        for how in HOWS:
            for ttl in (0, 1, 7):
                for is_async in (False, True):
                    for fraction in (0, 999_999_999):
                        yield {
                            "cipher": name, "how": how, "made": 1000, "fraction": fraction,
                            "aad": {"h": ""}, "data": {"s": [1, 20]}, "enc_async": is_async,
                            "openings": [
                                {"ttl": ttl, "slack": s, "fraction": 999_999_999 - fraction,
                                 "is_async": is_async} for s in (-1, 0, 1, 2)
                            ],
                        }


def long_lifetimes(tier):
    """Lifetimes of which a narrower number than the one given is much less."""
    for name in S.CIPHERS:
        for how in HOWS:
            for ttl in (2**31 + 1, 2**32, 2**32 + 1, 2**40, 2**63, 2**64 + 3, 10**30):
                for is_async in (False, True):
                    yield {
                        "cipher": name, "how": how, "made": 1000, "fraction": 5,
                        "aad": {"h": ""}, "data": {"s": [1, 20]}, "enc_async": is_async,
                        "openings": [
                            {"ttl": ttl, "slack": age - ttl, "fraction": 7, "is_async": is_async} for age in (0, 9, 10**8)
                        ],
                    }


def stream_boundaries(tier):
    for name in S.CIPHERS:
        for ttl in (0, 1, 7, 2**32, 2**32 + 1, 2**64 + 3):
            for slack in (-1, 0, 1) if ttl < 9 else (9 - ttl,):
                for is_async in (False, True):
                    for ops in (
                        ["buffer", "iterate", "finalize"], ["buffer", "finalize"],
                        ["iterate", "buffer", "iterate", "iterate", "finalize"],
                        ["buffer", "iterate", "iterate", "finalize"],
                        ["buffer", "bad", "iterate", "bad", "finalize"],
                    ):
                        yield {
                            "cipher": name, "made": 1000, "fraction": 5, "data": {"s": [1, 20]},
                            "ttl": ttl, "slack": slack, "is_async": is_async,
                            "ops": [{"op": o, "n": 3} for o in ops],
                        }


def nontrivial(case):
    return any(o["ttl"] is not None for o in case["openings"])


def labels(case):
    yield case["how"]
    for o in case["openings"]:
        yield "no lifetime" if o["ttl"] is None else (
            "older" if o["slack"] > 0 else "exact" if o["slack"] == 0 else "younger")


def stream_nontrivial(case):
    return case["ttl"] is not None and any(
        o["op"] in ("iterate", "finalize") for o in case["ops"])


def stream_labels(case):
    if case["ttl"] is None:
        yield "no lifetime"
        return
    yield "starts older" if case["slack"] > 0 else "starts fresh"
    ops = [o["op"] for o in case["ops"]]
    if "time" in ops:
        yield "time passes"
    if "iterate" in ops and "buffer" in ops and ops.index("iterate") < ops.index("buffer"):
        yield "iterated before anything was buffered"
    if ops.count("iterate") > 1:
        yield "iterated again"


PARTS = [
    Sweep("boundaries", boundaries, evaluate, nontrivial, labels),
    Sweep("long lifetimes", long_lifetimes, evaluate, nontrivial, labels),
    Sweep("stream-boundaries", stream_boundaries, evaluate_stream, stream_nontrivial,
          stream_labels),
    Part("chunky", cases("Chunky2048"), evaluate, 400, nontrivial=nontrivial, labels=labels),
    Part("slick", cases("Slick256"), evaluate, 400, nontrivial=nontrivial, labels=labels),
    Part("chunky-streams", stream_cases("Chunky2048"), evaluate_stream, 600,
         nontrivial=stream_nontrivial, labels=stream_labels),
    Part("slick-streams", stream_cases("Slick256"), evaluate_stream, 800,
         nontrivial=stream_nontrivial, labels=stream_labels),
]
