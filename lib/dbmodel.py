"""
A dictionary model of a database, its children and what is on disk, and
a session that plays operations on the real thing and the model together.
"""

import copy

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import expect
from lib.strategies import blob, same_json
from lib.sut import aiootp

TAGS = ["a", "b", "", "0", "1", "é", "a\x00", "tag " * 30]
NAMES = ["kids", "x", "0", "a"]
KEYS = [bytes([7]) * 64, bytes([8]) * 64]

tags = st.sampled_from(TAGS[:1] * 6 + TAGS[:2] * 2 + TAGS)
values = st.one_of(
    st.integers(0, 5).map(lambda i: ["j", i]),
    S.json_trees(6).map(lambda v: ["j", v]),
    st.one_of(S.blobs(0, 12), S.sized_blobs(S.near([232, 236, 254, 256, 600], spread=2)),
              st.sampled_from([{"h": "0102"}, {"h": "01020102"}, {"h": "31"}, {"h": ""}, {"h": "6e756c6c"},
                               {"h": "0001"}, {"h": "01"}, {"h": "0201"}])).map(lambda b: ["b", b]),
    st.sampled_from([None, False, True, 0, "", [], {}, "\x01\x02"]).map(lambda v: ["j", v]),
    # equal, but of other types
    st.sampled_from([0, 0.0, -0.0, False, 1, 1.0, True, [1], [True]]).map(lambda v: ["j", v]),
)
WHERE = st.sampled_from([[], [], [], ["kids"], ["kids"], ["x"], ["kids", "x"], ["a"]])


def op(kind, /, **fields):
    return st.fixed_dictionaries({"op": st.just(kind), "at": WHERE, **fields})


OPS = st.one_of(
    op("set", tag=tags, value=values, how=st.sampled_from(["method", "item", "uncached"])),
    op("set", tag=tags, value=values, how=st.sampled_from(["method", "item", "uncached"])),
    op("set", tag=tags, value=values, how=st.sampled_from(["method", "item", "uncached"])),
    op("query", tag=tags, cache=st.booleans(), silent=st.booleans()),
    op("pop", tag=tags, silent=st.booleans()),
    op("del", tag=tags),
    op("rollback", tag=tags, cache=st.booleans()),
    op("clear", metatags=st.booleans()),
    op("save_tag", tag=tags, drop=st.booleans()),
    op("save", scope=st.sampled_from(["call", "context", "context-error"])),
    op("save", scope=st.just("call")),
    op("load", preload=st.booleans()),
    op("child", name=st.sampled_from(NAMES), preload=st.booleans()),
    op("uproot", name=st.sampled_from(NAMES)),
    op("reopen", is_async=st.booleans(), preload=st.booleans(), save=st.booleans()),
    op("reopen", is_async=st.booleans(), preload=st.booleans(), save=st.just(True)),
)
MISSING = object()


def value_of(node):
    return blob(node[1]) if node[0] == "b" else copy.deepcopy(node[1])


def same(left, right):
    if isinstance(left, bytes) or isinstance(right, bytes):
        return type(left) is type(right) and left == right
    return same_json(left, right)


class Disk:
    def __init__(self):
        self.manifests = {}
        self.files = {}
        self.generations = 0


class Model:
    """What one open database object holds, over the modelled disk."""

    def __init__(self, disk, identity, preload=False):
        self.disk, self.identity = disk, identity
        self.cache, self.children = {}, {}
        saved = disk.manifests.get(identity)
        if saved:
            self.generation, self.listed, self.names = saved[0], set(saved[1]), set(saved[2])
        else:
            disk.generations += 1
            self.generation, self.listed, self.names = disk.generations, set(), set()
        self.doubtful = {t for t in self.listed if not self.stored(t)}
        self.doubtful |= {t for t in TAGS if self.stored(t) and t not in self.listed}
        if preload:
            self.load()
        for name in sorted(self.names):
            self.open_child(name, preload)

    def file(self, tag):
        return (self.identity, self.generation, tag)

    def stored(self, tag):
        return self.file(tag) in self.disk.files

    def value(self, tag):
        return self.cache.get(tag, self.disk.files.get(self.file(tag), MISSING))

    def load(self):
        for tag in self.listed:
            if tag not in self.cache and self.stored(tag):
                self.cache[tag] = self.disk.files[self.file(tag)]

    def open_child(self, name, preload):
        if name not in self.children:
            self.children[name] = Model(self.disk, (self.identity, self.generation, name), preload)
        self.names.add(name)
        return self.children[name]

    def forget(self, tag):
        self.listed.discard(tag)
        self.cache.pop(tag, None)
        self.disk.files.pop(self.file(tag), None)
        self.doubtful.discard(tag)

    def rollback(self, tag):
        if not self.stored(tag):
            self.listed.discard(tag)
            self.doubtful.discard(tag)
        self.cache.pop(tag, None)

    def save_tag(self, tag):
        self.disk.files[self.file(tag)] = copy.deepcopy(self.cache[tag])
        # a stored but unlisted tag: pending until it is set or removed
        if tag not in self.listed:
            self.doubtful.add(tag)

    def save(self):
        self.disk.manifests[self.identity] = (self.generation, set(self.listed), set(self.names))
        for tag in self.cache:
            self.save_tag(tag)
        for child in self.children.values():
            child.save()

    def clear(self, metatags):
        for tag in list(self.cache):
            self.rollback(tag)
        if metatags:
            for child in self.children.values():
                child.clear(True)

    def delete(self):
        for child in self.children.values():
            child.delete()
        for tag in self.listed | self.doubtful:
            self.disk.files.pop(self.file(tag), None)
        self.disk.manifests.pop(self.identity, None)


class Session:
    def __init__(self, path, key, is_async):
        self.disk = Disk()
        self.path, self.key, self.is_async = path, key, is_async
        self.open(False)

    def open(self, preload):
        cls = aiootp.AsyncDatabase if self.is_async else aiootp.Database
        made = cls(self.key, path=self.path, preload=preload)
        self.root = sut.run(made) if self.is_async else made
        self.model = Model(self.disk, "root", preload)

    def do(self, db, method, *args, **kw):
        if self.is_async:
            return sut.run(getattr(db, "a" + method)(*args, **kw))
        return getattr(db, method)(*args, **kw)

    def attempt(self, db, method, *args, **kw):
        try:
            return self.do(db, method, *args, **kw), None
        except LookupError as error:
            return MISSING, error

    def find(self, at):
        db, model = self.root, self.model
        for name in at:
            if name not in model.children:
                break
            db, model = getattr(db, name), model.children[name]
        return db, model

    # ------------------------------------------------------------ steps

    def step(self, op):
        db, model = self.find(op["at"])
        getattr(self, "op_" + op["op"])(op, db, model)

    def op_set(self, op, db, model):
        tag, value = op["tag"], value_of(op["value"])
        model.cache[tag] = copy.deepcopy(value)
        model.listed.add(tag)
        model.doubtful.discard(tag)
        if op["how"] == "item":
            db[tag] = value
        else:
            got = self.do(db, "set_tag", tag, value, cache=op["how"] == "method")
            expect(got is db, "setting does not return the database")
            if op["how"] == "uncached":
                model.save_tag(tag)
                model.cache.pop(tag)

    def op_query(self, op, db, model):
        tag = op["tag"]
        if tag in model.doubtful and tag not in model.cache:
            return
        wanted = model.value(tag)
        got, error = self.attempt(db, "query_tag", tag, cache=op["cache"], silent=op["silent"])
        self.judge(tag, wanted, got, error, op["silent"])
        if op["cache"] and wanted is not MISSING:
            model.cache[tag] = wanted

    def judge(self, tag, wanted, got, error, silent):
        if wanted is MISSING:
            if silent:
                expect(error is None and got is None,
                       lambda: f"an absent tag {tag!r} reads as {error or got!r}")
            else:
                expect(error is not None, lambda: f"an absent tag {tag!r} reads as {got!r}")
        else:
            expect(error is None, lambda: f"reading {tag!r} fails: {error!r}")
            expect(same(got, wanted), lambda: f"tag {tag!r} reads as {got!r}, not {wanted!r}")

    def op_pop(self, op, db, model):
        tag = op["tag"]
        doubtful = tag in model.doubtful and tag not in model.cache
        wanted = model.value(tag)
        got, error = self.attempt(db, "pop_tag", tag, silent=op["silent"])
        if not doubtful:
            self.judge(tag, wanted, got, error, op["silent"])
        model.forget(tag)

    def op_del(self, op, db, model):
        del db[op["tag"]]
        model.forget(op["tag"])

    def op_rollback(self, op, db, model):
        tag = op["tag"]
        doubtful = tag in model.doubtful and tag not in model.cache
        self.do(db, "rollback_tag", tag, cache=op["cache"])
        model.rollback(tag)
        if op["cache"] and model.stored(tag) and not doubtful:
            model.cache[tag] = model.value(tag)

    def op_clear(self, op, db, model):
        self.do(db, "clear_cache", metatags=op["metatags"])
        model.clear(op["metatags"])

    def op_save_tag(self, op, db, model):
        tag = op["tag"]
        got, error = self.attempt(db, "save_tag", tag, drop_cache=op["drop"])
        expect((error is None) == (tag in model.cache), lambda: (
            f"saving the uncached tag {tag!r} succeeds" if error is None else
            f"saving {tag!r} fails: {error!r}"))
        if error is None:
            model.save_tag(tag)
            if op["drop"]:
                model.cache.pop(tag)

    def op_save(self, op, db, model):
        if op["scope"] == "call":
            self.do(db, "save_database")
        else:
            raised = self.in_context(db, op["scope"] == "context-error")
            expect(raised == (op["scope"] == "context-error"), lambda: (
                "the context manager raises" if raised else
                "the context manager swallows the error of its block"))
        model.save()

    def in_context(self, db, fail):
        async def asynchronous():
            async with db as inner:
                expect(inner is db, "the context manager gives another object")
                if fail:
                    raise ZeroDivisionError

        try:
            if self.is_async:
                sut.run(asynchronous())
            else:
                with db as inner:
                    expect(inner is db, "the context manager gives another object")
                    if fail:
                        raise ZeroDivisionError
        except ZeroDivisionError:
            return True
        return False

    def op_load(self, op, db, model):
        # what loading does to values changed since they were saved is
        # documented and done differently: not judged
        stack, clean = [model], True
        while stack:
            one = stack.pop()
            stack.extend(one.children.values())
            clean &= all(one.stored(t) and same(v, one.disk.files[one.file(t)])
                         for t, v in one.cache.items())
        if op["preload"] and not clean:
            return
        self.do(db, "load_database", preload=op["preload"], silent=True)
        if op["preload"]:
            model.load()
        for name in sorted(model.names):
            model.open_child(name, op["preload"])

    def op_child(self, op, db, model):
        if len(op["at"]) > 1:
            return
        existed = op["name"] in model.children
        before = getattr(db, op["name"], None) if existed else None
        got = self.do(db, "metatag", op["name"], preload=op["preload"])
        model.open_child(op["name"], op["preload"])
        expect(getattr(db, op["name"]) is got and (not existed or got is before),
               "a child database is replaced by another object")

    def op_uproot(self, op, db, model):
        name = op["name"]
        got, error = self.attempt(db, "delete_metatag", name)
        expect((error is None) == (name in model.names), lambda: (
            f"deleting the missing child {name!r} succeeds" if error is None
            else f"deleting child {name!r} fails: {error!r}"))
        if error is None:
            model.open_child(name, False).delete()
            del model.children[name]
            model.names.discard(name)

    def op_reopen(self, op, db, model):
        if op["save"]:
            self.do(self.root, "save_database")
            self.model.save()
        self.is_async = op["is_async"]
        self.open(op["preload"])

    # ---------------------------------------------------------- observe

    def compare(self, db=None, model=None, where="root"):
        if db is None:
            db, model = self.root, self.model
        sure = model.listed - model.doubtful
        known = set(db.tags)
        expect(sure <= known <= sure | model.doubtful, lambda: (
            f"{where} lists {sorted(known)}, expected {sorted(sure)} "
            f"(and perhaps {sorted(model.doubtful)})"))
        expect(len(db) == len(known) == len(db.filenames),
               lambda: f"{where} has length {len(db)}, {len(known)} tags, {len(db.filenames)} files")
        expect(bool(db) == bool(known or model.names), lambda: f"truth of {where} is {bool(db)}")
        expect(set(db.metatags) == model.names,
               lambda: f"{where} has children {sorted(db.metatags)}, not {sorted(model.names)}")
        for tag in TAGS:
            if tag not in model.doubtful:
                expect((tag in db) == (tag in model.listed or tag in model.cache),
                       lambda: f"membership of {tag!r} in {where} is {tag in db}")
            cached = db[tag]
            if tag in model.cache:
                expect(same(cached, model.cache[tag]),
                       lambda: f"{where}[{tag!r}] is {cached!r}, not {model.cache[tag]!r}")
            elif cached is not None and tag not in model.doubtful:
                expect(model.value(tag) is not MISSING and same(cached, model.value(tag)),
                       lambda: f"{where}[{tag!r}] is {cached!r}")
        for name, child in model.children.items():
            self.compare(getattr(db, name), child, f"{where}.{name}")

    def read_all(self, db=None, model=None):
        if db is None:
            db, model = self.root, self.model
        for tag in TAGS:
            if tag not in model.doubtful or tag in model.cache:
                wanted = model.value(tag)
                got, error = self.attempt(db, "query_tag", tag)
                self.judge(tag, wanted, got, error, False)
        for name, child in model.children.items():
            self.read_all(getattr(db, name), child)
