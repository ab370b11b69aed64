"""C18: key exchanges agree exactly when both sides saw the same transcript."""

from hypothesis import strategies as st

from lib.ciph import call
from lib.harness import Part, expect
from lib.strategies import SEEDS, blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing with a generated man in the middle: several "
    "runs of both protocols, messages altered, swapped, reflected and replayed; the "
    "derived keys of any two sides must be equal exactly when what they saw is equal"
)
RULE = (
    "a case is a set of runs with at most a few interventions; non-trivial when a "
    "message is altered or exchanged, or when there are at least two honest runs. "
    "Distinct by the whole case."
)
ASSUMPTIONS = ("different transcripts are taken to give different 256-bit keys",)

PRIME = 2**255 - 19
LOW_ORDER = [0, 1, PRIME - 1, PRIME, PRIME + 1]

#   what may happen to one public key on its way
edits = st.one_of(
    st.just(["honest"]), st.just(["honest"]), st.just(["honest"]),
    st.tuples(st.just("flip"), st.one_of(st.just(255), st.integers(0, 255))).map(list),
    st.just(["top"]), st.just(["top"]),
    st.just(["noncanonical"]),
    st.just(["low"]).flatmap(lambda w: st.integers(0, 9).map(lambda i: w + [i])),
    st.tuples(st.just("take"), st.integers(0, 2),
              st.sampled_from(["id_c", "id_s", "eph_c", "eph_s"])).map(list),
    st.just(["fresh"]),
    st.tuples(st.just("cut"), st.integers(0, 31)).map(list),
    st.just(["longer"]),
)
seeds = st.builds(lambda s: {"s": [s, 32]}, st.integers(0, 3))
runs = st.fixed_dictionaries({
    "protocol": st.sampled_from(["dh2", "dh3", "dh3"]),
    "client_key": seeds, "server_key": seeds,
    "client_async": st.tuples(st.booleans(), st.booleans()).map(list),
    "server_async": st.tuples(st.booleans(), st.booleans()).map(list),
    "id_s": edits, "id_c": edits, "eph_c": edits, "eph_s": edits,
    "objects": st.booleans(), "kept": st.booleans(),
    "again": st.lists(st.sampled_from(["client.send", "client.receive", "server.receive"]),
                      max_size=2),
})
small_keys = st.lists(SEEDS, max_size=2)
cases = st.fixed_dictionaries({
    "runs": st.lists(runs, min_size=1, max_size=3),
    "outputs": st.sampled_from(["sha3_256", "sha3_512", "shake_128", "shake_256"]),
    "aad": st.sampled_from([{"h": ""}, {"h": "00"}, {"r": [7, 40]}]),
})
honest = st.fixed_dictionaries({
    **{n: st.just(["honest"]) for n in ("id_s", "id_c", "eph_c", "eph_s")},
    "protocol": st.sampled_from(["dh2", "dh3"]), "client_key": seeds, "server_key": seeds,
    "client_async": st.tuples(st.booleans(), st.booleans()).map(list),
    "server_async": st.tuples(st.booleans(), st.booleans()).map(list),
    "objects": st.booleans(), "kept": st.booleans(), "again": st.just([]),
})
one_edit = st.tuples(honest, st.sampled_from(["id_s", "id_c", "eph_c", "eph_s"]), edits).map(
    lambda t: {**t[0], t[1]: t[2]})
single = st.fixed_dictionaries({
    "runs": st.lists(one_edit, min_size=1, max_size=2),
    "outputs": st.sampled_from(["sha3_256", "sha3_512", "shake_128", "shake_256"]),
    "aad": st.just({"h": ""}),
})
many = st.fixed_dictionaries({
    "runs": st.lists(honest, min_size=2, max_size=5),
    "outputs": st.just("sha3_256"), "aad": st.just({"h": ""}),
})


def key(node):
    return aiootp.X25519().import_secret_key(blob(node))


class Refused(Exception):
    pass


def alter(edit, value, seen):
    """The public key that arrives."""
    how = edit[0]
    if how == "flip":
        at = edit[1]
        return value[:at // 8] + bytes([value[at // 8] ^ 1 << at % 8]) + value[at // 8 + 1:]
    if how == "top":
        return value[:31] + bytes([value[31] ^ 128])
    if how == "noncanonical":
        u = int.from_bytes(value, "little")
        return (u + PRIME).to_bytes(32, "little") if u < 19 else value
    if how == "low":
        point = LOW_ORDER[edit[1] % len(LOW_ORDER)].to_bytes(32, "little")
        return point[:31] + bytes([point[31] | (128 if edit[1] >= len(LOW_ORDER) else 0)])
    if how == "take":
        options = [s for s in seen if edit[2] in s]
        return options[edit[1] % len(options)][edit[2]] if options else value
    if how == "fresh":
        return aiootp.X25519().generate().public_bytes
    if how == "cut":
        return value[:edit[1]]
    if how == "longer":
        return value + b"\0"
    return value


def attempt(obj, method, is_async, *args):
    try:
        return call(obj, method, is_async, *args)
    except Exception as error:  # noqa: BLE001
        raise Refused(repr(error)) from error


def as_sent(run, value):
    """The receiver may hand the key over as bytes or as a key object."""
    if not run["objects"] or len(value) != 32:
        return value
    return aiootp.X25519.PublicKey.from_public_bytes(value)


def unseen(ephemeral, seen, side):
    """What a side sends is new in every run."""
    expect(ephemeral not in [s.get(side) for s in seen], lambda: f"{side} was sent before, in an earlier run")
    return ephemeral


def play(run, seen, sides, parties):
    """
    Plays one run and appends (protocol, id_c, eph_c, id_s, eph_s, kdf)
    for every derivation a side completes.
    """
    c_async, s_async = run["client_async"], run["server_async"]
    three = run["protocol"] == "dh3"
    server_key, client_key = key(run["server_key"]), key(run["client_key"])
    sent = {"id_s": server_key.public_bytes}
    seen.append(sent)
    client = client_key.dh3_client() if three else aiootp.X25519.dh2_client()
    server = server_key.dh3_server() if three else server_key.dh2_server()
    parties["again"] = False
    if run["kept"]:
        # whoever took part in an earlier run is asked to do so again
        names = ("client", three, three and client_key.public_bytes), ("server", three, server_key.public_bytes)
        parties["again"] = any(name in parties for name in names)
        client, server = (parties.setdefault(*pair) for pair in zip(names, (client, server)))

    id_s = alter(run["id_s"], sent["id_s"], seen)
    first = attempt(client, "send", c_async[0], as_sent(run, id_s))
    sent["eph_c"] = unseen(first[1] if three else first, seen, "eph_c")
    if three:
        sent["id_c"] = first[0]
        expect(first[0] == client_key.public_bytes, "the client sends another identity key")
    if "client.send" in run["again"]:
        try:
            again = attempt(client, "send", c_async[1], as_sent(run, id_s))
            sent["eph_c"] = unseen(again[1] if three else again, seen, "eph_c")
        except Refused:
            pass
    id_c = alter(run["id_c"], sent["id_c"], seen) if three else b""
    eph_c = alter(run["eph_c"], sent["eph_c"], seen)

    def server_receives():
        args = [as_sent(run, id_c)] if three else []
        kdf = attempt(server, "receive", s_async[0], *args, as_sent(run, eph_c))
        sent["eph_s"] = unseen(attempt(server, "send", s_async[1]), seen, "eph_s")
        sides.append((run["protocol"], id_c, eph_c, sent["id_s"], sent["eph_s"], kdf))

    def client_receives():
        eph_s = alter(run["eph_s"], sent["eph_s"], seen)
        kdf = attempt(client, "receive", c_async[1], as_sent(run, eph_s))
        sides.append((run["protocol"], sent["id_c"] if three else b"", sent["eph_c"], id_s, eph_s, kdf))

    server_receives()
    if "server.receive" in run["again"]:
        try:
            server_receives()
        except Refused:
            pass
    client_receives()
    if "client.receive" in run["again"]:
        try:
            client_receives()
        except Refused:
            pass


def output(case, side):
    method = getattr(side[-1], case["outputs"])
    kw = {"size": 32} if case["outputs"].startswith("shake") else {}
    return method(aad=blob(case["aad"]), **kw)


def is_honest(run):
    return not run["again"] and all(
        run[n] == ["honest"] for n in ("id_s", "id_c", "eph_c", "eph_s"))


def evaluate(case):
    seen, sides, parties = [], [], {}
    for run in case["runs"]:
        before = len(sides)
        try:
            play(run, seen, sides, parties)
        except Refused as error:
            # a party that took part before may refuse to do so again
            expect(parties["again"] or not is_honest(run), lambda: f"an honest run is refused: {error}")
            continue
        if is_honest(run):
            mine = sides[before:]
            expect(len(mine) == 2, "an honest run gives no two sides")
    keys = [output(case, side) for side in sides]
    for i, left in enumerate(sides):
        for j in range(i):
            right = sides[j]
            same = left[:-1] == right[:-1]
            expect((keys[i] == keys[j]) == same, lambda: (
                "two sides with one transcript derive different keys" if same else
                f"two sides derive one key although they saw different "
                f"{[n for n, a, b in zip(('protocols', 'client identities', 'client ephemerals', 'server identities', 'server ephemerals'), left, right) if a != b]}"
            ))


def labels(case):
    for run in case["runs"]:
        if is_honest(run):
            yield f"honest {run['protocol']}"
        for name in ("id_s", "id_c", "eph_c", "eph_s"):
            if name == "id_c" and run["protocol"] == "dh2":
                continue
            yield f"{name} {run[name][0]}"


def nontrivial(case):
    return len(case["runs"]) > 1 or not is_honest(case["runs"][0])


PARTS = [
    Part("interventions", cases, evaluate, 1000, 15000, nontrivial=nontrivial, labels=labels),
    Part("one intervention", single, evaluate, 1000, 10000, nontrivial=nontrivial, labels=labels),
    Part("honest", many, evaluate, 300, 3000),
]
