"""C25: profiles open for exactly the credentials that created them."""

import os

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import Part, Sweep, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing of profiles with near-miss credentials against a "
    "model keyed by the exact credential tuple; the directory is compared after deletions"
)
RULE = (
    "a case is a history of profiles whose credentials are one generated base and small "
    "edits of it; non-trivial when at least two different credential sets are used, or "
    "one is opened again after saving. Distinct by the whole case."
)
ASSUMPTIONS = (
    "the lowest cost settings are used (1 or 2 MiB, 1 or 2 rounds, 1 or 2 processes)",
    "profiles that differ only in passphrase or cost share one local salt file; what "
    "deleting one does to the other is a known finding and not judged in histories",
)

pieces = st.one_of(
    st.sampled_from([{"h": ""}, {"h": "00"}, {"h": "61"}, {"h": "6162"}, {"h": "61626364"}, {"h": "62"}]),
    S.blobs(0, 20),
    S.sized_blobs(S.near([64, 128, 136, 168, 200], spread=1)),
)
credentials = st.fixed_dictionaries({
    "username": pieces, "passphrase": pieces, "salt": pieces, "aad": pieces,
    "others": st.lists(pieces, max_size=3), "mb": st.just(1), "cpu": st.just(1), "cores": st.just(1),
    "home": st.just(0),
})
#   near misses of the base
edits = st.one_of(
    st.tuples(st.sampled_from(["append", "prepend", "cut", "flip", "blank"]),
              st.sampled_from(["username", "passphrase", "salt", "aad", "others"]),
              st.integers(0, 40)).map(list),
    st.tuples(st.just("swap"), st.sampled_from([["username", "passphrase"], ["salt", "aad"],
                                                ["username", "salt"], ["username", "others"],
                                                ["passphrase", "others"], ["aad", "others"]]),
              st.integers(0, 3)).map(list),
    st.tuples(st.just("shift"), st.sampled_from([["username", "others"], ["salt", "aad"], ["aad", "username"]]),
              st.integers(1, 3)).map(list),
    st.tuples(st.sampled_from(["join", "split", "add", "drop"]), st.just("others"), st.integers(0, 3)).map(list),
    st.tuples(st.just("cost"), st.sampled_from(["mb", "cpu", "cores"]), st.just(0)).map(list),
    st.just(["home", "home", 0]),
)
steps = st.one_of(
    st.fixed_dictionaries({"op": st.just("open"), "who": st.integers(0, 3), "is_async": st.booleans(),
                           "preload": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("open"), "who": st.integers(0, 3), "is_async": st.booleans(),
                           "preload": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["save", "save", "save-child", "delete"]),
                           "who": st.integers(0, 3)}),
)
histories = st.fixed_dictionaries({
    "base": credentials, "edits": st.lists(edits, min_size=1, max_size=3),
    "steps": st.lists(steps, min_size=4, max_size=9),
})


def resolve(node):
    return {**{k: blob(node[k]) for k in ("username", "passphrase", "salt", "aad")},
            "others": tuple(blob(o) for o in node["others"]),
            **{k: node[k] for k in ("mb", "cpu", "cores", "home")}}


def get(creds, name, n=0):
    if name == "others":
        return creds["others"][n % len(creds["others"])] if creds["others"] else b""
    return creds[name]


def put(creds, name, value, n=0):
    if name == "others":
        others = list(creds["others"]) or [b""]
        others[n % len(others)] = value
        return {**creds, "others": tuple(others)}
    return {**creds, name: value}


def edited(creds, edit):
    how, name, n = edit
    if how == "home":
        return {**creds, "home": 1}
    if how == "cost":
        return {**creds, name: 2}
    if how in ("swap", "shift"):
        left, right = (get(creds, x, n) for x in name)
        if how == "swap":
            left, right = right, left
        else:
            left, right = left[:-n] if n else left, left[-n:] + right
        return put(put(creds, name[0], left, n), name[1], right, n)
    if name == "others" and how in ("join", "split", "add", "drop"):
        others = list(creds["others"])
        if how == "add":
            others.insert(n % (len(others) + 1), b"")
        elif others and how == "drop":
            others.pop(n % len(others))
        elif others and how == "join" and len(others) > 1:
            at = n % (len(others) - 1)
            others[at:at + 2] = [others[at] + others[at + 1]]
        elif others and how == "split":
            at = n % len(others)
            half = len(others[at]) // 2
            others[at:at + 1] = [others[at][:half], others[at][half:]]
        return {**creds, "others": tuple(others)}
    value = get(creds, name, n)
    if how == "append":
        value = value + bytes([n % 3])
    elif how == "prepend":
        value = bytes([n % 3]) + value
    elif how == "cut":
        value = value[:-1]
    elif how == "blank":
        value = b""
    elif value:
        at = n % len(value)
        value = value[:at] + bytes([value[at] ^ 1 << n % 8]) + value[at + 1:]
    return put(creds, name, value, n)


def identity(creds):
    """An absent salt and the empty salt are one; everything else counts."""
    return tuple(sorted(creds.items()))


def local(creds):
    return tuple(sorted((k, v) for k, v in creds.items() if k not in ("passphrase", "mb", "cpu", "cores")))


class World:
    def __init__(self):
        self.homes = [sut.scratch(), sut.scratch()]
        self.saved = {}      # identity -> {"a": value, ("kids", "a"): value}
        self.unsure = set()  # identities whose local salt went with another's deletion
        self.open = {}
        self.counter = 0

    def remove(self):
        for home in self.homes:
            sut.remove_scratch(home)

    def opened(self, creds, is_async, preload=False):
        kw = {k: creds[k] for k in ("username", "passphrase", "salt", "aad", "mb", "cpu", "cores")}
        kw.update(path=self.homes[creds["home"]], preload=preload)
        if is_async:
            return sut.run(aiootp.AsyncDatabase.agenerate_profile(*creds["others"], **kw))
        return aiootp.Database.generate_profile(*creds["others"], **kw)


def do(db, method, *args, **kw):
    if isinstance(db, aiootp.AsyncDatabase):
        return sut.run(getattr(db, "a" + method)(*args, **kw))
    return getattr(db, method)(*args, **kw)


def contents(db):
    found = {tag: do(db, "query_tag", tag) for tag in db.tags}
    for name in db.metatags:
        child = do(db, "metatag", name)
        found.update({f"{name}.{tag}": do(child, "query_tag", tag) for tag in child.tags})
    return found


def files(home):
    return {os.path.join(base, n) for base, _, names in os.walk(home) for n in names}


def evaluate(case):
    base = resolve(case["base"])
    people = [base, *(edited(base, edit) for edit in case["edits"])]
    for creds in people:
        # the empty passphrase is refused
        creds["passphrase"] = creds["passphrase"] or b"-"
    world = World()
    try:
        for step in case["steps"]:
            play(world, people[step["who"] % len(people)], step)
        for creds in people:
            play(world, creds, {"op": "open", "is_async": False, "preload": True})
    finally:
        world.remove()


def play(world, creds, step):
    me = identity(creds)
    if step["op"] == "open":
        world.open[me] = db = world.opened(creds, step["is_async"], step["preload"])
        if me not in world.unsure:
            wanted = world.saved.setdefault(me, {})
            got = contents(db)
            expect(got == wanted, lambda: (
                f"a profile opens with {got}, saved with these credentials was {wanted}"))
        else:
            world.unsure.discard(me)
            world.saved[me] = contents(db)
        return
    if me not in world.open:
        return
    db = world.open[me]
    if step["op"].startswith("save"):
        world.counter += 1
        value = {"n": world.counter}
        if step["op"] == "save":
            do(db, "set_tag", "a", value)
            world.saved[me]["a"] = value
        else:
            do(do(db, "metatag", "kids"), "set_tag", "a", value)
            world.saved[me]["kids.a"] = value
        do(db, "save_database")
        return
    before = {h: files(h) for h in world.homes}
    do(db, "delete_database")
    after = {h: files(h) for h in world.homes}
    home, away = world.homes[creds["home"]], world.homes[1 - creds["home"]]
    expect(after[away] == before[away], "deleting a profile changes another directory")
    expect(after[home] < before[home], "deleting a profile removes nothing")
    rest = [i for i in world.saved if i != me and dict(i)["home"] == creds["home"]]
    world.saved.pop(me)
    if not rest and not world.unsure:
        # the only one there: nothing but the salt of the directory remains
        left = {os.path.relpath(f, home) for f in after[home]}
        expect(len(left) == 1 and left.pop().startswith("secure" + os.sep),
               lambda: f"files of the deleted profile remain: {sorted(left)}")
    world.open.pop(me)
    for other in list(world.saved):
        if local(dict(other)) == local(creds):
            world.saved.pop(other)
            world.open.pop(other, None)
            world.unsure.add(other)


# ------------------------------------------------------ every kind of near miss

FIELDS = ("username", "passphrase", "salt", "aad", "others")
ALL_EDITS = [
    *([how, name, n] for how in ("append", "prepend", "cut", "flip", "blank") for name in FIELDS for n in (0, 1)),
    *(["swap", [a, b], n] for i, a in enumerate(FIELDS) for b in FIELDS[i + 1:] for n in (0, 1)),
    *(["shift", [a, b], 1] for a in FIELDS for b in FIELDS if a != b),
    *([how, "others", n] for how in ("join", "split", "add", "drop") for n in (0, 1, 2)),
    *(["cost", name, 0] for name in ("mb", "cpu", "cores")),
    ["home", "home", 0],
]
BASES = [
    {"username": "name", "passphrase": "phrase", "salt": "", "aad": "aa", "others": []},
    {"username": "n", "passphrase": "phrase", "salt": "s", "aad": "", "others": ["", "ab", ""]},
    {"username": "", "passphrase": "p", "salt": "salt", "aad": "a", "others": ["", "c"]},
]


LONG = {**{field: field[0] * 3000 for field in FIELDS[:4]}, "others": ["o" * 3000]}
LONG_EDITS = [[how, field, n] for field in FIELDS for how, n in (("flip", 2999), ("cut", 0), ("append", 0))]
MANY = {"username": "n", "passphrase": "p", "salt": "s", "aad": "a", "others": [f"o{at}" for at in range(300)]}
MANY_EDITS = [["flip", "others", 299], ["flip", "others", 40], ["flip", "others", 8], ["drop", "others", 299], ["add", "others", 300],
              ["join", "others", 298], ["swap", ["username", "others"], 299], ["swap", ["aad", "others"], 130]]


def near_miss_cases(tier):
    for number in range(len(BASES)):
        for start in range(0, len(ALL_EDITS), 12):
            edits = ALL_EDITS[start:start + 12]
            if tier == "quick" and number == 2:
                edits = [e for e in edits if "others" in e[1] or e[0] in ("add", "drop", "join", "split")]
            if edits:
                yield {"base": BASES[number], "edits": edits, "is_async": bool(start // 12 % 2)}
    yield {"base": LONG, "edits": LONG_EDITS, "is_async": False}
    yield {"base": MANY, "edits": MANY_EDITS, "is_async": True}


def evaluate_near(case):
    base = {**{k: case["base"][k].encode() for k in ("username", "passphrase", "salt", "aad")},
            "others": tuple(o.encode() for o in case["base"]["others"]),
            "mb": 1, "cpu": 1, "cores": 1, "home": 0}
    world = World()
    is_async = case["is_async"]
    try:
        seen = set()
        for edit in [None, *case["edits"]]:
            creds = base if edit is None else edited(base, edit)
            creds["passphrase"] = creds["passphrase"] or b"-"
            if identity(creds) in seen:
                continue
            seen.add(identity(creds))
            db = world.opened(creds, is_async)
            found = contents(db)
            expect(not found, lambda: (
                f"credentials with {edit} opened for the first time give {found}"))
            do(db, "set_tag", "a", str(edit))
            do(db, "save_database")
            is_async = not is_async
        found = contents(world.opened(base, is_async))
        expect(found == {"a": "None"}, lambda: f"the first profile holds {found} at the end")
    finally:
        world.remove()


# ----------------------------------------------------- the shared local salt


def shared_cases(tier):
    for edit in (["flip", "passphrase", 1], ["cost", "mb", 0], ["cost", "cpu", 0]):
        yield {"edit": edit}


def evaluate_shared(case):
    base = {"username": b"name", "passphrase": b"the right passphrase", "salt": b"", "aad": b"",
            "others": (), "mb": 1, "cpu": 1, "cores": 1, "home": 0}
    world = World()
    try:
        mine = world.opened(base, False)
        mine["a"] = 1
        mine.save_database()
        other = world.opened(edited(base, case["edit"]), False)
        other.delete_database()
        again = world.opened(base, False)
        if contents(again) != {"a": 1}:
            raise Violation(
                "deleting the profile that a wrong passphrase or cost opened makes the "
                "right one unreadable", key="shared-local-salt")
    finally:
        world.remove()


def nontrivial(case):
    who = [s["who"] for s in case["steps"]]
    return len(set(who)) > 1 or who.count(who[0]) > 1


def labels(case):
    for edit in case["edits"]:
        yield f"{edit[0]} {edit[1] if isinstance(edit[1], str) else '/'.join(edit[1])}"


PARTS = [
    Part("histories", histories, evaluate, 75, 1500, nontrivial=nontrivial, labels=labels, timeout=120),
    Sweep("near misses", near_miss_cases, evaluate_near, timeout=120),
    Sweep("shared salt", shared_cases, evaluate_shared, timeout=120),
]
