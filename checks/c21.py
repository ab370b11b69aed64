"""C21: a database behaves as a dictionary that persists what is saved."""

import json

from hypothesis import strategies as st

from lib import sut
from lib.dbmodel import KEYS, OPS, Session, same
from lib.harness import Part, Sweep, expect
from lib.sut import aiootp

TECHNIQUE = (
    "stateful model-based property testing: generated histories of a database and "
    "its children are run against a dictionary model of memory and disk; every "
    "observation is compared after every step, and all of it again after reopening"
)
RULE = (
    "a case is a history; non-trivial when it both saves and reads back (reopening, "
    "rolling back or clearing the cache) at least one value. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a tag that is listed while neither cached nor stored (its file was removed by an "
    "operation that was then not saved), or stored while unlisted, is not judged until "
    "it is set or removed again",
)

histories = st.fixed_dictionaries({
    "is_async": st.booleans(), "key": st.integers(0, 1),
    "family": st.sampled_from([[], [[[], "kids"]], [[[], "kids"], [["kids"], "x"]],
                               [[[], "kids"], [["kids"], "x"], [[], "x"]]]),
    "ops": st.lists(OPS, min_size=8, max_size=24),
})

def evaluate(case):
    run = Session(sut.scratch(), KEYS[case["key"]], case["is_async"])
    try:
        run.compare()
        for at, name in case["family"]:
            run.step({"op": "child", "at": at, "name": name, "preload": False})
        for op in case["ops"]:
            run.step(op)
            run.compare()
        run.read_all()
        run.do(run.root, "save_database")
        run.model.save()
        for is_async in (not run.is_async, run.is_async):
            run.is_async = is_async
            run.open(True)
            run.compare()
            run.read_all()
    finally:
        sut.remove_scratch(run.path)


def nontrivial(case):
    names = [o["op"] for o in case["ops"]]
    saves = [i for i, o in enumerate(case["ops"])
             if o["op"] in ("save", "save_tag") or o.get("how") == "uncached"]
    return bool(saves) and "set" in names and any(
        n in ("reopen", "rollback", "clear", "query", "pop") for n in names[saves[0]:])


def labels(case):
    for o in case["ops"]:
        yield o["op"]
        if o["op"] == "set" and o["value"][0] == "b":
            yield "set bytes"
        if o["at"] and o["op"] != "reopen":
            yield "in a child"


# ----------------------------------------------------------- names that are nearly the same

NEAR = [["a", "A"], ["a", "a "], ["a", " a"], ["a", "a\0"], ["\0", ""], ["é", "e\u0301"], ["ß", "ss"], ["ﬁ", "fi"],
        ["1", "01"], ["1", "1.0"], ["a/b", "a\\b"], ["k", "\u212a"], ["a" * 64, "a" * 65], ["x" * 255 + "y", "x" * 255 + "z"],
        ["\n", "\r\n"], ["a", "а"], ["tag", "tags"], ["\u200b", ""], ["A" * 4, "a" * 4]]


def near_cases(tier):
    for tags in NEAR:
        for is_async in (False, True):
            yield {"tags": tags, "is_async": is_async, "child": False}
    for tags in NEAR:
        if all(t and t.isprintable() and not t.isspace() for t in tags):
            yield {"tags": tags, "is_async": len(tags[0]) % 2 == 0, "child": True}


def evaluate_near(case):
    """Two tags, or two children, whose names are nearly the same."""
    def do(db, method, *args):
        return sut.run(getattr(db, "a" + method)(*args)) if case["is_async"] else getattr(db, method)(*args)

    def made():
        db = (aiootp.AsyncDatabase if case["is_async"] else aiootp.Database)(KEYS[0], path=path)
        return sut.run(db) if case["is_async"] else db

    path = sut.scratch()
    try:
        db = made()
        first, second = case["tags"]
        wanted = {first: "first", second: b"second"}

        def place(db, name):
            return (do(db, "metatag", "ch_" + name), "t") if case["child"] else (db, name)

        for again in (False, True):
            for name, value in wanted.items():
                if not again:
                    where, tag = place(db, name)
                    expect(tag not in where, lambda: f"{tag!r} is there before it was set")
                    do(where, "set_tag", tag, value)
            do(db, "save_database")
            db = made()
            for name, value in wanted.items():
                where, tag = place(db, name)
                got = do(where, "query_tag", tag)
                expect(got == value, lambda: f"{name!r} reads as {got!r} instead of {value!r}")
        where, tag = place(db, first)
        do(where, "pop_tag", tag)
        expect(tag not in where, lambda: f"{first!r} is there after it was removed")
        where, tag = place(db, second)
        got = do(where, "query_tag", tag)
        expect(got == b"second", lambda: f"{second!r} reads as {got!r} after {first!r} was removed")
    finally:
        sut.remove_scratch(path)


# ----------------------------------------------------------- descendants

def deep_cases(tier):
    """One operation on an ancestor, after a value was set deep below it."""
    chain = ["kids", "x", "a"]
    family = [[chain[:n], chain[n]] for n in range(3)]
    for is_async in (False, True):
        for depth in (2, 3):
            for at in range(depth):
                for state in ("new", "saved", "changed"):
                    for op in (
                        {"op": "clear", "metatags": True}, {"op": "clear", "metatags": False},
                        {"op": "save", "scope": "call"}, {"op": "save", "scope": "context"},
                        {"op": "reopen", "is_async": is_async, "preload": True, "save": True},
                        {"op": "reopen", "is_async": is_async, "preload": False, "save": False},
                        {"op": "load", "preload": True}, {"op": "uproot", "name": chain[at]},
                    ):
                        where = chain[:depth]
                        first = {"op": "set", "at": where, "tag": "b", "value": ["j", 0], "how": "method"}
                        ops = [first]
                        if state != "new":
                            ops.append({"op": "save", "at": [], "scope": "call"})
                        if state == "changed":
                            ops.append({**first, "value": ["b", {"h": "0102"}]})
                        yield {"is_async": is_async, "key": 0, "family": family,
                               "ops": [*ops, {**op, "at": chain[:at]}]}


# ---------------------------------------------------- large and many values

def wide(kind, size):
    return {
        "bytes": lambda: (b"\x00\xff0123456789abc\n" * (size // 16 + 1))[:size],
        "text": lambda: "aé☂" * (size // 3) + "a" * (size % 3),
        "list": lambda: [[n, str(n)] for n in range(size)],
        "dict": lambda: {str((n * 7919) % size): n for n in range(size)},
        "deep": lambda: json.loads("[" * size + "]" * size),
        "digits": lambda: 10**size + 7,
    }[kind]()


def large_cases(tier):
    sizes = {"bytes": [65535, 65537, 300000], "text": [65537, 100000], "list": [255, 257, 1025, 30000],
             "dict": [255, 257, 1025, 30000], "deep": [100, 300], "digits": [400, 4000]}
    n = 0
    for kind, several in sizes.items():
        for size in several + [several[-1] * 4] * (tier == "thorough" and kind in ("bytes", "text", "list", "dict")):
            for is_async in (False, True):
                n += 1
                yield {"kind": kind, "size": size, "is_async": is_async, "child": n % 3 == 0, "tags": 1}
    for count in (65, 300) + (1500,) * (tier == "thorough"):
        for is_async in (False, True):
            yield {"kind": "text", "size": 5, "is_async": is_async, "child": False, "tags": count}


def evaluate_large(case):
    """Many tags, or a large value, kept over saving and reopening."""
    path, is_async = sut.scratch(), case["is_async"]

    def do(target, name, *args, **kw):
        got = getattr(target, ("a" if is_async else "") + name)(*args, **kw)
        return sut.run(got) if is_async else got

    def opened(preload):
        cls = aiootp.AsyncDatabase if is_async else aiootp.Database
        db = cls(KEYS[0], path=path, preload=preload)
        if is_async:
            db = sut.run(AWAIT(db))
        if case["child"]:
            return db, do(db, "metatag", "kids", preload=preload)
        return db, db

    def read(where, tags):
        for number, tag in enumerate(tags):
            got = do(where, "query_tag", tag)
            wanted = [value, number] if len(tags) > 1 else value
            expect(same(got, wanted) and json_text(got) == json_text(wanted), lambda: (
                f"the value of tag {number} comes back as {str(got)[:100]} ..({len(str(got))})"))

    try:
        db, where = opened(True)
        value = wide(case["kind"], case["size"])
        tags = [f"tag {n}" for n in range(case["tags"])]
        for number, tag in enumerate(tags):
            do(where, "set_tag", tag, [value, number] if len(tags) > 1 else value)
        read(where, tags)
        do(db, "save_database")
        for preload in (True, False):
            db, where = opened(preload)
            expect(set(where.tags) == set(tags), lambda: f"{len(where.tags)} tags are listed of {len(tags)}")
            read(where, tags)
        do(where, "pop_tag", tags[-1])
        do(db, "save_database")
        db, where = opened(False)
        expect(set(where.tags) == set(tags[:-1]), "removing one of many tags changes the others")
        read(where, tags[:-1] if len(tags) > 2 else [])
    finally:
        sut.remove_scratch(path)


async def AWAIT(value):
    return await value


def json_text(value):
    return value if type(value) is bytes else json.dumps(value)


PARTS = [
    Sweep("large", large_cases, evaluate_large, labels=lambda c: [c["kind"]]),
    Sweep("near tags", near_cases, evaluate_near, exhaustive=False),
    Sweep("descendants", deep_cases, evaluate, exhaustive=True),
    Part("histories", histories, evaluate, 400, 8000, nontrivial=nontrivial, labels=labels),
]
