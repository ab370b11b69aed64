"""C23: deleting removes exactly the database's own files."""

import os

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.dbmodel import NAMES, TAGS, Session, op, tags, values
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing: generated histories of several databases in one "
    "directory among unrelated and look-alike files; every file of the directory and of "
    "its neighbourhood is compared before and after every operation with who created it"
)
RULE = (
    "a case is a history over two databases; non-trivial when something stored is "
    "removed (a tag, a child or a database) while another database or an unrelated "
    "file exists. Distinct by the whole case."
)
ASSUMPTIONS = (
    "databases are saved before they are reopened: files of a session that was thrown "
    "away without saving its listing are not judged",
)

OPS = st.one_of(
    op("set", tag=tags, value=values, how=st.sampled_from(["method", "item", "uncached"])),
    op("set", tag=tags, value=values, how=st.sampled_from(["method", "item", "uncached"])),
    op("query", tag=tags, cache=st.booleans(), silent=st.just(True)),
    op("pop", tag=tags, silent=st.booleans()),
    op("del", tag=tags),
    op("rollback", tag=tags, cache=st.booleans()),
    op("clear", metatags=st.booleans()),
    op("save_tag", tag=tags, drop=st.booleans()),
    op("save", scope=st.sampled_from(["call", "context"])),
    op("child", name=st.sampled_from(NAMES), preload=st.booleans()),
    op("uproot", name=st.sampled_from(NAMES)),
    op("reopen", is_async=st.booleans(), preload=st.booleans(), save=st.just(True)),
    op("delete"),
    op("decoy", how=st.sampled_from(["suffix", "prefix", "cut", "upper", "plain", "folder"]),
       nth=st.integers(0, 9)),
)
histories = st.fixed_dictionaries({
    "is_async": st.tuples(st.booleans(), st.booleans()).map(list),
    "family": st.sampled_from([[], [[[], "kids"]], [[[], "kids"], [["kids"], "x"]]]),
    "strangers": st.lists(
        st.sampled_from(["0", "1", "2", "kids", "a", "notes.txt", ".hidden", "secure/0", "sub/1", "-"]),
        max_size=4, unique=True),
    "content": S.blobs(0, 20),
    "ops": st.lists(st.tuples(st.integers(0, 1), OPS).map(list), min_size=8, max_size=24),
})
KEYS = [b"\x01" * 64, b"\x02" * 64]


def snapshot(base):
    found = {}
    for folder, folders, names in os.walk(base):
        for name in folders:
            found[os.path.relpath(os.path.join(folder, name), base) + "/"] = None
        for name in names:
            full = os.path.join(folder, name)
            with open(full, "rb") as file:
                found[os.path.relpath(full, base)] = file.read()
    return found


def put(base, name, data):
    full = os.path.join(base, name)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if not os.path.exists(full):
        with open(full, "wb") as file:
            file.write(data)


class World:
    def __init__(self, case):
        self.base = sut.scratch()
        self.path = os.path.join(self.base, "data")
        self.content = blob(case["content"])
        os.mkdir(self.path)
        for name in case["strangers"]:
            put(self.path, name, self.content)
        put(self.base, "beside", self.content)
        put(self.base, "data.bak/0", self.content)
        self.owned = [set(), set()]
        self.sessions = []
        for number in (0, 1):
            before = snapshot(self.base)
            self.sessions.append(Session(self.path, KEYS[number], case["is_async"][number]))
            self.account(number, before)

    def account(self, number, before):
        """Judges what an operation on one database did to the files."""
        after = snapshot(self.base)
        mine = self.owned[number]
        for name, data in before.items():
            if after.get(name, self) != data or (name not in after):
                expect(name in mine, lambda: (
                    f"a file that is not the database's own is "
                    f"{'changed' if name in after else 'removed'}: {self.tell(name)}"))
        for name in after.keys() - before.keys():
            expect(name.startswith("data/") and name.count("/") == 1,
                   lambda: f"a file is created outside the directory: {name}")
            mine.add(name)

    def tell(self, name):
        other = [i for i in (0, 1) if name in self.owned[i]]
        return f"{name} (of database {other[0]})" if other else f"{name} (unrelated)"

    def remaining(self, number):
        return {n for n in self.owned[number] if n in snapshot(self.base)}

    def expected(self, number):
        disk = self.sessions[number].disk
        return len(disk.files) + len(disk.manifests)

    def step(self, number, op):
        session = self.sessions[number]
        before = snapshot(self.base)
        if op["op"] == "decoy":
            self.decoy(number, op)
            return
        if op["op"] == "delete":
            session.do(session.root, "delete_database")
            left = self.remaining(number)
            self.account(number, before)
            expect(not left, lambda: f"{len(left)} files remain of a deleted database")
            stale = session.model
            session.disk.files.clear()
            session.disk.manifests.clear()
            session.open(False)
            expect(not session.root.tags and not session.root.metatags,
                   "a deleted database is not empty when opened again")
            read_nothing(session, stale)
        else:
            session.step(op)
            self.account(number, before)
        if op["op"] in ("pop", "del", "uproot"):
            # exactly the files of what is still stored
            left, wanted = self.remaining(number), self.expected(number)
            expect(len(left) <= wanted, lambda: (
                f"after {op['op']} the database has {len(left)} files, expected {wanted}"))
        if op["op"] in ("pop", "del"):
            db, _ = session.find(op["at"])
            name = session.do(db, "filename", op["tag"])
            expect(not os.path.exists(os.path.join(self.path, name)),
                   "the file of a removed tag remains")

    def decoy(self, number, op):
        """A file whose name resembles one of the database's own."""
        mine = sorted(self.remaining(number))
        if not mine:
            return
        name = os.path.basename(mine[op["nth"] % len(mine)])
        name = {"suffix": name + ".bak", "prefix": "x" + name, "cut": name[:-1], "upper": name.upper(),
                "plain": name[:4], "folder": name + ".d/" + name}[op["how"]]
        if name:
            put(self.path, name, self.content)


def read_nothing(session, stale):
    for tag in TAGS:
        if stale.cache.get(tag) is not None or stale.listed:
            got, error = session.attempt(session.root, "query_tag", tag)
            expect(error is not None, lambda: f"a deleted tag is read back as {got!r}")


def evaluate(case):
    world = World(case)
    try:
        for number in (0, 1):
            for at, name in case["family"]:
                world.step(number, {"op": "child", "at": at, "name": name, "preload": False})
        for number, one in case["ops"]:
            world.step(number, one)
        for number in (0, 1):
            world.step(number, {"op": "delete", "at": []})
    finally:
        sut.remove_scratch(world.base)


# --------------------------------------------------------------- many files


def many(tier):
    for tags, children in ((70, 0), (140, 2), (300, 0), (10, 40), (0, 70)) + (((1100, 3),) if tier == "thorough" else ()):
        for is_async in (False, True):
            for again in (False, True):
                yield {"tags": tags, "children": children, "is_async": is_async, "again": again}


def evaluate_many(case):
    """Databases of many tags and children, one of which is removed bit by bit."""
    base, is_async = sut.scratch(), case["is_async"]
    path = os.path.join(base, "data")
    os.mkdir(path)

    def opened(key, is_async):
        return sut.run(aiootp.AsyncDatabase(key, path=path)) if is_async else aiootp.Database(key, path=path)

    def do(db, method, *args, **kw):
        return sut.run(getattr(db, "a" + method)(*args, **kw)) if isinstance(db, aiootp.AsyncDatabase) else getattr(db, method)(*args, **kw)

    def fill(db):
        for at in range(case["tags"]):
            db[f"tag {at}"] = at
        for at in range(case["children"]):
            child = do(db, "metatag", f"child{at}")
            child["a"], child["b"] = at, -at
        do(db, "save_database")

    try:
        put(path, "notes.txt", b"unrelated")
        own = snapshot(base)
        other = opened(KEYS[1], not is_async)
        fill(other)
        untouched = snapshot(base)
        db = opened(KEYS[0], is_async)
        fill(db)
        mine = snapshot(base).keys() - untouched.keys()
        wanted = case["tags"] + 3 * case["children"] + 1
        expect(len(mine) == wanted, lambda: f"{len(mine)} files hold what takes {wanted}")
        if case["again"]:
            db = opened(KEYS[0], is_async)
        gone = 0
        for at in range(0, case["tags"], 3):
            do(db, "pop_tag", f"tag {at}")
            gone += 1
        for at in range(0, case["children"], 3):
            do(db, "delete_metatag", f"child{at}")
            gone += 3
        left = mine & snapshot(base).keys()
        expect(len(left) == wanted - gone, lambda: f"{len(left)} files are left, {wanted - gone} are in use")
        do(db, "save_database")
        if case["again"]:
            db = opened(KEYS[0], is_async)
        do(db, "delete_database")
        now = snapshot(base)
        expect(not mine & now.keys(), lambda: f"{len(mine & now.keys())} files remain of a deleted database")
        expect(now == untouched, "files of another database are changed")
        do(other, "delete_database")
        expect(snapshot(base) == own, "files remain or are lost")
    finally:
        sut.remove_scratch(base)


def nontrivial(case):
    kinds = [o["op"] for _, o in case["ops"]]
    return any(k in ("pop", "del", "uproot", "delete") for k in kinds) and any(
        k in ("save", "save_tag") for k in kinds)


def labels(case):
    for _, one in case["ops"]:
        yield one["op"]
        if one["at"] and one["op"] in ("pop", "del", "uproot"):
            yield one["op"] + " in a child"
    if case["strangers"]:
        yield "unrelated files"


PARTS = [
    Part("histories", histories, evaluate, 260, 5000, nontrivial=nontrivial, labels=labels),
    Sweep("many files", many, evaluate_many, labels=lambda case: [f"{case['tags']} tags, {case['children']} children"]),
]
