"""C22: stored data is confidential, bound to its place and tamper-evident."""

import base64
import os

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import Part, Sweep, expect
from lib.strategies import blob, same_json
from lib.sut import aiootp

TECHNIQUE = (
    "fuzzing of the stored files: generated edits, truncations, exchanges and "
    "replays of the files of several databases, with the set of values ever stored "
    "under each tag as the oracle; generated search of the directory for plaintext "
    "and near-miss keys; metamorphic use of one ciphertext in another place"
)
RULE = (
    "a case is a set of saved databases with what is done to their files, keys or "
    "ciphertexts; non-trivial when at least one edit really changes the directory, or "
    "an opening or decryption differs from the original one. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a file put back to an earlier version of the same tag is a value that was stored "
    "under that tag and is allowed",
    "one key is one database: a directory moved as a whole is not an alteration",
    "only markers of at least 8 bytes are searched for in the directory",
)

MISSING = object()
TAGS = ["a", "b", "", "secret-tag-name"]


def attempt(function):
    try:
        return function(), None
    except Exception as error:  # noqa: BLE001
        return MISSING, error


class Handle:
    """A database in its sync or async form."""

    def __init__(self, is_async, db):
        self.is_async, self.db = is_async, db

    @classmethod
    def open(cls, is_async, key, path, preload=False):
        if is_async:
            return cls(True, sut.run(aiootp.AsyncDatabase(key, path=path, preload=preload)))
        return cls(False, aiootp.Database(key, path=path, preload=preload))

    def do(self, method, *args, **kw):
        if self.is_async:
            return sut.run(getattr(self.db, "a" + method)(*args, **kw))
        return getattr(self.db, method)(*args, **kw)

    def child(self, name):
        return Handle(self.is_async, self.do("metatag", name))


def value_of(node):
    return blob(node[1]) if node[0] == "b" else node[1]


def same(left, right):
    if isinstance(left, bytes) or isinstance(right, bytes):
        return type(left) is type(right) and left == right
    return same_json(left, right)


def snapshot(path):
    found = {}
    for base, _, names in os.walk(path):
        for name in names:
            full = os.path.join(base, name)
            with open(full, "rb") as file:
                found[os.path.relpath(full, path)] = file.read()
    return found


# -------------------------------------------------------------- tampering

values = st.one_of(
    st.integers(0, 9).map(lambda i: ["j", i]),
    S.json_trees(4).map(lambda v: ["j", v]),
    S.sized_blobs(st.one_of(st.integers(0, 12), S.near([232, 256, 500], spread=2))).map(lambda b: ["b", b]),
)
#   which file: [database, tag or None for the manifest, version]
files = st.tuples(st.integers(0, 3), st.sampled_from([0, 1, 2, 3, None])).map(list)
edits = st.one_of(
    st.fixed_dictionaries({"how": st.sampled_from(["flip", "flip", "flip", "cut", "grow", "front", "empty",
                                                   "zero", "remove", "double"]),
                           "file": files, "at": st.integers(0, 20000), "byte": st.integers(0, 255)}),
    st.fixed_dictionaries({"how": st.sampled_from(["copy", "exchange", "splice"]), "file": files,
                           "other": files, "at": st.integers(0, 20000)}),
    st.fixed_dictionaries({"how": st.just("old"), "file": files, "at": st.integers(0, 3)}),
)
stores = st.lists(
    st.tuples(st.integers(0, 3), st.integers(0, 3), values).map(list), min_size=2, max_size=7)
tampering = st.fixed_dictionaries({
    "write_async": st.booleans(), "stores": stores, "again": stores,
    "edits": st.lists(edits, min_size=1, max_size=3),
    "read_async": st.booleans(), "preload": st.booleans(),
})

#   two databases of one directory, a child, and one in another directory
KEYS = [b"\x01" * 64, b"\x02" * 64, b"\x01" * 64]


class World:
    def __init__(self, is_async):
        self.paths = [sut.scratch(), sut.scratch()]
        self.ever = {}       # (database, tag) -> values stored
        self.tags = [set() for _ in range(4)]
        self.versions = {}   # relative file -> contents it had
        self.is_async = is_async

    def remove(self):
        for path in self.paths:
            sut.remove_scratch(path)

    def open(self, is_async, preload=False):
        """[handle or None for each of the four databases]"""
        made = []
        for i in range(3):
            path = self.paths[i == 2]
            made.append(attempt(lambda: Handle.open(is_async, KEYS[i], path, preload)))
        root, error = made[0]
        made.append(attempt(lambda: root.child("kids")) if not error else (MISSING, error))
        return made

    def store(self, handles, stores):
        for number, tag, value in stores:
            handle = handles[number]
            handle.do("set_tag", TAGS[tag], value_of(value))
            self.ever.setdefault((number, tag), []).append(value_of(value))
            self.tags[number].add(TAGS[tag])
        for number in (0, 1, 2):
            handles[number].do("save_database")
        for name, data in self.files().items():
            kept = self.versions.setdefault(name, [])
            if not kept or kept[-1] != data:
                kept.append(data)

    def files(self):
        return {(i, name): data for i, path in enumerate(self.paths)
                for name, data in snapshot(path).items()}

    def locate(self, handles, which):
        """(index of the directory, file name) of a file of a database."""
        number, tag = which
        db = handles[number]
        if tag is not None:
            return (int(number == 2), db.do("filename", TAGS[tag]))
        return self.manifests[number]

    def write(self, where, data):
        full = os.path.join(self.paths[where[0]], where[1])
        if data is None:
            if os.path.exists(full):
                os.unlink(full)
        else:
            with open(full, "wb") as file:
                file.write(data)


def find_manifests(world):
    """The one file each database makes before it has any tag."""
    found = []
    for i in range(3):
        before = set(world.files())
        handle = Handle.open(world.is_async, KEYS[i], world.paths[i == 2])
        handle.do("save_database")
        found.append((set(world.files()) - before).pop())
    before = set(world.files())
    root = Handle.open(world.is_async, KEYS[0], world.paths[0])
    root.child("kids")
    root.do("save_database")
    found.append((set(world.files()) - before).pop())
    world.manifests = found


def evaluate_tampering(case):
    world = World(case["write_async"])
    try:
        find_manifests(world)
        handles = [h for h, _ in world.open(case["write_async"])]
        world.store(handles, case["stores"])
        world.store(handles, case["again"])
        clean = world.files()
        current = {}
        for (number, tag), ever in world.ever.items():
            current[number, tag] = ever[-1]
        for edit in case["edits"]:
            tamper(world, handles, edit)
        dirty = world.files()
        changed = {n for n in {**clean, **dirty} if clean.get(n) != dirty.get(n)}
        located = {(n, t): world.locate(handles, [n, t])
                   for n in range(4) for t in [0, 1, 2, 3]}
        judge(case, world, changed, located, current)
    finally:
        world.remove()


def tamper(world, handles, edit):
    files = world.files()
    target = world.locate(handles, edit["file"])
    data = files.get(target)
    how = edit["how"]
    if how in ("copy", "exchange", "splice"):
        source = world.locate(handles, edit["other"])
        other = files.get(source)
        if other is None:
            return
        if how == "splice":
            at = edit["at"] % (len(other) + 1)
            other = (data or b"")[:at] + other[at:]
        world.write(target, other)
        if how == "exchange":
            world.write(source, data)
        return
    if how == "old":
        versions = world.versions.get(target)
        if versions:
            world.write(target, versions[edit["at"] % len(versions)])
        return
    if data is None:
        return
    at = edit["at"]
    if how == "flip":
        at %= 8 * max(len(data), 1)
        data = data and data[:at // 8] + bytes([data[at // 8] ^ 1 << at % 8]) + data[at // 8 + 1:]
    elif how == "cut":
        data = data[:at % max(len(data), 1)]
    elif how == "grow":
        data = data + bytes([edit["byte"]]) * (1 + at % 300)
    elif how == "front":
        data = data[1 + at % 40:]
    elif how == "empty":
        data = b""
    elif how == "zero":
        data = bytes(len(data))
    elif how == "double":
        data = data + data
    elif how == "remove":
        data = None
    world.write(target, data)


def judge(case, world, changed, located, current):
    names = ("first", "second", "elsewhere", "child")
    opened = world.open(case["read_async"], case["preload"])
    for number, (handle, error) in enumerate(opened):
        trusted = world.manifests[number] not in changed
        if number in (0, 3):
            # a parent opens its children with it
            trusted = not {world.manifests[0], world.manifests[3]} & changed
        if error is not None:
            untouched = trusted and not (case["preload"] and changed)
            expect(not untouched, lambda: f"the untouched {names[number]} database does not open: {error!r}")
            continue
        listed, error = attempt(lambda: set(handle.db.tags))
        expect(error is None, lambda: f"listing fails: {error!r}")
        # a directory may be moved as a whole: one key is one database
        twins = (0, 2) if number in (0, 2) and not trusted else (number,)
        possible = set().union(*(world.tags[n] for n in twins))
        expect(listed <= possible,
               lambda: f"{names[number]} lists {listed}, only {possible} were ever set")
        for tag, text in enumerate(TAGS):
            ever = world.ever.get((number, tag), [])
            got, error = attempt(lambda: handle.do("query_tag", text))
            if trusted and located[number, tag] not in changed:
                if ever:
                    expect(error is None and same(got, current[number, tag]), lambda: (
                        f"untouched tag {text!r} of {names[number]} reads as {error or got!r}"))
                else:
                    expect(error is not None, lambda: f"a tag that was never set reads as {got!r}")
            elif error is None:
                ever = [v for n in twins for v in world.ever.get((n, tag), [])]
                expect(any(same(got, value) for value in ever), lambda: (
                    f"tag {text!r} of {names[number]} reads as {got!r} after tampering, "
                    f"stored under it were {ever!r}"))


# ---------------------------------------------------------- confidentiality

words = st.text(st.sampled_from("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
                min_size=9, max_size=20)
hidden = st.fixed_dictionaries({
    "is_async": st.booleans(),
    "entries": st.lists(st.tuples(words, words, st.booleans(), st.integers(1, 60)).map(list),
                        min_size=1, max_size=4),
    "child": st.one_of(st.none(), words.map(lambda w: "kid " + w)), "key": st.integers(0, 255),
    "how": st.sampled_from(["save", "uncached", "save_tag"]),
})


def spellings(text):
    raw = text if isinstance(text, bytes) else text.encode()
    yield raw
    yield raw.hex().encode()
    yield raw[::-1]
    for skip in range(3):
        # the middle of a base64 text does not depend on what surrounds it
        body = raw[skip:]
        body = body[: len(body) // 3 * 3]
        if len(body) >= 6:
            yield base64.b64encode(body)


def evaluate_hidden(case):
    path = sut.scratch()
    try:
        key = bytes([case["key"]]) * 64
        root = Handle.open(case["is_async"], key, path)
        handle = root.child(case["child"]) if case["child"] else root
        markers = [case["child"]] if case["child"] else []
        for tag, value, as_bytes, times in case["entries"]:
            content = (value * times).encode() if as_bytes else [value] * times
            handle.do("set_tag", tag, content, cache=case["how"] != "uncached")
            if case["how"] == "save_tag":
                handle.do("save_tag", tag)
            markers += [tag, value]
        root.do("save_database")
        markers.append(key[:32])
        found = snapshot(path)
        for name, data in found.items():
            for marker in markers:
                for spelled in spellings(marker):
                    expect(spelled not in data and spelled not in name.encode(), lambda: (
                        f"the stored file {name} shows {marker!r}"))
        bodies = list(found.values())
        expect(len(set(bodies)) == len(bodies), "two stored files have one content")
        before = snapshot(path)
        for tag, value, as_bytes, times in case["entries"]:
            content = (value * times).encode() if as_bytes else [value] * times
            handle.do("set_tag", tag, content)
        root.do("save_database")
        after = snapshot(path)
        expect(set(after) == set(before), "saving the same tags makes other files")
        unchanged = [n for n in after if after[n] == before[n]]
        expect(not unchanged, lambda: f"saving again gives the same stored bytes ({unchanged})")
    finally:
        sut.remove_scratch(path)


# ------------------------------------------------------------------- keys

near_misses = st.one_of(
    st.tuples(st.just("flip"), st.integers(0, 511)).map(list),
    st.tuples(st.just("append"), st.sampled_from([0, 1, 255])).map(list),
    st.tuples(st.just("prepend"), st.sampled_from([0, 1, 255])).map(list),
    st.tuples(st.just("cut"), st.integers(1, 64)).map(list),
    st.just(["reverse", 0]), st.just(["double", 0]),
)
wrong_keys = st.fixed_dictionaries({
    "key": S.sized_blobs(st.sampled_from([64, 65, 128, 168, 200])), "miss": near_misses,
    "values": st.lists(values, min_size=1, max_size=3), "is_async": st.booleans(),
    "other_async": st.booleans(), "child": st.booleans(), "also_writes": st.booleans(),
})


def near_miss(key, miss):
    how, n = miss
    if how == "flip":
        n %= 8 * len(key)
        return key[:n // 8] + bytes([key[n // 8] ^ 1 << n % 8]) + key[n // 8 + 1:]
    return {"append": key + bytes([n % 256]), "prepend": bytes([n % 256]) + key, "cut": key[:-n],
            "reverse": key[::-1], "double": key + key}[how]


def evaluate_keys(case):
    path = sut.scratch()
    try:
        key = blob(case["key"])
        other = near_miss(key, case["miss"])
        if other == key:
            return
        root = Handle.open(case["is_async"], key, path)
        handle = root.child("kids") if case["child"] else root
        for tag, value in zip(TAGS, case["values"]):
            handle.do("set_tag", tag, value_of(value))
        root.do("save_database")
        before = snapshot(path)
        stranger, error = attempt(lambda: Handle.open(case["other_async"], other, path, True))
        if error is None:
            expect(not stranger.db.tags and not stranger.db.metatags and not stranger.db,
                   lambda: f"another key opens the database: {stranger.db.tags}")
            target = stranger.child("kids") if case["child"] else stranger
            for tag in TAGS:
                got, error = attempt(lambda: target.do("query_tag", tag))
                expect(error is not None, lambda: f"another key reads {tag!r} as {got!r}")
            if case["also_writes"]:
                target.do("set_tag", TAGS[0], "mine")
                stranger.do("save_database")
                stranger.do("delete_database")
        expect(snapshot(path) == before, "another key changes the files of the database")
        again = Handle.open(case["other_async"], key, path)
        again = again.child("kids") if case["child"] else again
        for tag, value in zip(TAGS, case["values"]):
            got, error = attempt(lambda: again.do("query_tag", tag))
            expect(error is None and same(got, value_of(value)),
                   lambda: f"the right key reads {tag!r} as {error or got!r}")
    finally:
        sut.remove_scratch(path)


# ------------------------------------------------ ciphertexts of a database

places = st.fixed_dictionaries({
    "database": st.integers(0, 3),
    "filename": st.sampled_from(["", "a", "b", "ab", "a\x00"]),
    "aad": st.sampled_from([{"h": ""}, {"h": "00"}, {"h": "61"}, {"r": [7, 40]}]),
})
sealed = st.fixed_dictionaries({
    "kind": st.sampled_from(["bytes", "json", "token"]), "value": values,
    "place": places, "tries": st.lists(places, min_size=1, max_size=4),
    "is_async": st.booleans(), "try_async": st.booleans(), "cross": st.booleans(),
    "default": st.booleans(),
})


def evaluate_sealed(case):
    world = World(case["is_async"])
    try:
        # both forms must share the generation: save first
        first = [h for h, _ in world.open(case["is_async"])]
        for handle in first[:3]:
            handle.do("save_database")
        second = [h for h, _ in world.open(case["try_async"])]
        for handle in first + second:
            expect(isinstance(handle, Handle), "opening fails")
        value = value_of(case["value"])
        if case["kind"] != "json" and not isinstance(value, bytes):
            value = repr(value).encode()
        if case["kind"] == "json" and isinstance(value, bytes):
            value = value.hex()
        seal, unseal = {"bytes": ("bytes_encrypt", "bytes_decrypt"),
                        "json": ("json_encrypt", "json_decrypt"),
                        "token": ("make_token", "read_token")}[case["kind"]]
        where = case["place"]
        kw = {} if case["default"] else {"filename": where["filename"], "aad": blob(where["aad"])}
        sealed_text = first[where["database"]].do(seal, value, **kw)
        home = (where["database"], *kw.values())
        got, error = attempt(lambda: second[where["database"]].do(unseal, sealed_text, **kw))
        expect(error is None and same(got, value),
               lambda: f"{unseal} at its own place gives {error or got!r}, not {value!r}")
        for place in case["tries"]:
            kw = {"filename": place["filename"], "aad": blob(place["aad"])}
            if (place["database"], *kw.values()) == home or case["default"]:
                continue
            got, error = attempt(lambda: second[place["database"]].do(unseal, sealed_text, **kw))
            expect(error is not None, lambda: (
                f"what was encrypted for {where} decrypts for {place} as {got!r}"))
    finally:
        world.remove()


# ------------------------------------------------- every file, every byte


def exchanged(tier):
    for is_async in (False, True):
        for child in (False, True):
            yield {"tags": 48 if tier == "quick" else 130, "is_async": is_async, "child": child}


def evaluate_exchanged(case):
    """The file of every tag in the place of every other."""
    path = sut.scratch()
    try:
        root = Handle.open(case["is_async"], b"k" * 64, path)
        handle = root.child("kids") if case["child"] else root
        names = {}
        for at in range(case["tags"]):
            handle.do("set_tag", f"tag {at}", at if at % 3 else bytes([at]))
            names[at] = os.path.join(path, handle.do("filename", f"tag {at}"))
        root.do("save_database")
        handle = Handle.open(case["is_async"], b"k" * 64, path, True)
        handle = handle.child("kids") if case["child"] else handle
        handle.do("clear_cache")
        bodies = {}
        for at, name in names.items():
            with open(name, "rb") as file:
                bodies[at] = file.read()
        for at, name in names.items():
            for other in names:
                if other != at:
                    with open(name, "wb") as file:
                        file.write(bodies[other])
                    got, error = attempt(lambda: handle.do("query_tag", f"tag {at}", silent=other % 2 == 0))
                    expect(error is not None or got is None, lambda: f"the file of 'tag {other}' is read as {got!r} in the place of 'tag {at}'")
            with open(name, "wb") as file:
                file.write(bodies[at])
            expect(handle.do("query_tag", f"tag {at}") in (at, bytes([at % 256])), "a restored file is not read as before")
    finally:
        sut.remove_scratch(path)


def spoilt(tier):
    for value in (1, "b" * 40) if tier == "quick" else (1, "b" * 40, "c" * 700, None):
        for how in ("flip", "cut", "add", "drop"):
            for what in ("value", "manifest", "child's manifest") if value == 1 or tier == "thorough" else ("value",):
                yield {"value": value, "how": how, "what": what, "is_async": (how in ("flip", "drop")) == (what == "value")}


def evaluate_spoilt(case):
    """Every byte of a file, one after the other."""
    path = sut.scratch()
    try:
        is_async, key = case["is_async"], b"k" * 64
        root = Handle.open(is_async, key, path)
        first = set(os.listdir(path))
        root.do("save_database")
        manifest = (set(os.listdir(path)) - first).pop()
        child = root.child("kids")
        child.do("set_tag", "a", case["value"])
        named = child.do("filename", "a")
        root.do("save_database")
        others = {n for n in os.listdir(path) if n not in first | {manifest, named}}
        expect(len(others) == 1, lambda: f"{len(others)} files instead of the one of the child")
        name = os.path.join(path, {"value": named, "manifest": manifest}.get(case["what"]) or others.pop())
        with open(name, "rb") as file:
            body = file.read()
        for at in range(len(body)):
            with open(name, "wb") as file:
                file.write({
                    "flip": lambda: body[:at] + bytes([body[at] ^ 1 << at % 8]) + body[at + 1:], "cut": lambda: body[:at],
                    "add": lambda: body[:at] + bytes([at % 256]) + body[at:], "drop": lambda: body[:at] + body[at + 1:]}[case["how"]]())

            def look():
                opened = Handle.open(is_async, key, path, True)
                return opened.child("kids").do("query_tag", "a", silent=True)
            got, error = attempt(look)
            if case["how"] in ("add", "drop") and open_bytes(name) == body:
                continue
            expect(error is not None or got is None, lambda: f"a {case['what']} file with byte {at} of {len(body)} changed ({case['how']}) gives {got!r}")
        with open(name, "wb") as file:
            file.write(body)
        opened = Handle.open(is_async, key, path, True)
        expect(same(opened.child("kids").do("query_tag", "a"), case["value"]), "a restored file is not read as before")
    finally:
        sut.remove_scratch(path)


def open_bytes(name):
    with open(name, "rb") as file:
        return file.read()


PARTS = [
    Part("tampering", tampering, evaluate_tampering, 260, 5000,
         labels=lambda c: [e["how"] for e in c["edits"]]),
    Part("confidentiality", hidden, evaluate_hidden, 120, 2500),
    Part("keys", wrong_keys, evaluate_keys, 160, 3000, labels=lambda c: [c["miss"][0]]),
    Part("places", sealed, evaluate_sealed, 160, 3000, labels=lambda c: [c["kind"]],
         nontrivial=lambda c: any(t != c["place"] for t in c["tries"])),
    Sweep("every file in every place", exchanged, evaluate_exchanged, exhaustive=True, timeout=240),
    Sweep("every byte of a file", spoilt, evaluate_spoilt, exhaustive=True, timeout=240, labels=lambda c: [f"{c['what']}: {c['how']}"]),
]
