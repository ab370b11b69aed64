"""C45: refused or interrupted database writes never yield wrong data and can be repeated."""

import asyncio
import errno
import json
import os
import resource
import signal
import sys
from pathlib import Path

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import Discard, Part, Sweep, Violation, expect
from lib.smalldb import CHILD, KEY, OPS, Model, child_states, content, files, keys, states, valid
from lib.sut import aiootp

TECHNIQUE = (
    "property-based fault injection: generated databases and operations, with one file "
    "operation refused by the system, a write cut short, or the process ended at that point "
    "(in a forked process); a dictionary model says which values may be read afterwards, and "
    "the operation is repeated"
)
RULE = (
    "a case is a database, an operation and a fault; non-trivial when the fault happened. "
    "Distinct by the whole case."
)
ASSUMPTIONS = (
    "the process ends at a file operation or in the middle of a write; what the system itself "
    "loses when the machine stops is outside",
)

FAULTS = st.fixed_dictionaries({
    "at": S.weighted((st.integers(0, 3), 3), (st.integers(0, 12), 2)),
    "kind": st.sampled_from(["refuse", "cut", "cut"]), "cut": st.sampled_from([0, 0, 1, 50, 300]),
    "crash": st.booleans(), "error": st.sampled_from(["ENOSPC", "EIO", "EACCES"]),
})
cases = st.fixed_dictionaries({
    "root": states, "child": st.one_of(st.none(), child_states, child_states), "size": st.sampled_from([1, 1, 700]),
    "op": OPS, "fault": FAULTS, "is_async": st.booleans(), "read_async": st.booleans(),
})

WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC


class Faults:
    """Counts the file operations within one directory, and makes one of them fail."""

    def __init__(self):
        self.home = None
        sys.addaudithook(self.notice)

    def start(self, home, fault, report):
        self.fault, self.report, self.count = fault, report, 0
        self.happened = False
        self.home = str(home) + os.sep

    def stop(self):
        self.home = None
        _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))

    def notice(self, event, args):
        if self.home is None or event not in ("open", "os.remove", "os.rename"):
            return
        path = args[1] if event == "os.rename" else args[0]
        if not isinstance(path, (str, os.PathLike)) or not os.fspath(path).startswith(self.home):
            return
        path = os.fspath(path)[len(self.home):]
        kind = {"os.remove": "remove", "os.rename": "write"}.get(event)
        if kind is None:
            kind = "write" if isinstance(args[2], int) and args[2] & WRITING else "read"
        number, self.count = self.count, self.count + 1
        here = number == self.fault["at"]
        if here:
            self.happened = True
        cut = here and self.fault["kind"] == "cut" and event == "open" and kind == "write"
        self.report({"event": kind, "file": path, "fault": here and ("cut" if cut else "refuse")})
        if not here:
            return
        if cut:
            _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.fault["cut"], hard))
        elif self.fault["crash"]:
            os._exit(77)
        else:
            code = getattr(errno, self.fault["error"])
            raise OSError(code, os.strerror(code), path)


FAULTING = Faults()
LAST = {"happened": False}


async def settled(awaitable):
    """A failed save may have begun other writes, which come to their end first."""
    try:
        return await awaitable
    finally:
        others = asyncio.all_tasks() - {asyncio.current_task()}
        await asyncio.gather(*others, return_exceptions=True)


class Handle:
    """One database in either form."""

    def __init__(self, home, is_async, db=None):
        self.is_async = is_async
        if db is not None:
            self.db = db
        elif is_async:
            async def made():
                return await aiootp.AsyncDatabase(KEY, path=home)
            self.db = sut.run(made())
        else:
            self.db = aiootp.Database(KEY, path=home)

    def __call__(self, name, *args, **kw):
        if not self.is_async:
            return getattr(self.db, name)(*args, **kw)

        async def called():
            return await getattr(self.db, "a" + name)(*args, **kw)
        return sut.run(settled(called()))

    def place(self, name):
        return self if name is None else Handle(None, self.is_async, self("metatag", name))

    def leave(self):
        """A context that ends normally."""
        if not self.is_async:
            with self.db:
                return

        async def left():
            async with self.db:
                return
        sut.run(settled(left()))

    def read(self, key):
        """A value, or what tells that there is none."""
        try:
            return "value", self.place(key[0])("query_tag", key[1])
        except Exception as error:  # noqa: BLE001
            return "none", repr(error)[:80]


def perform(db, one, case):
    kind = one["op"]
    if kind == "save":
        db("save_database")
    elif kind == "exit":
        db.leave()
    elif kind == "save_tag":
        db("save_tag", one["tag"], drop_cache=one["drop"])
    elif kind == "set":
        db("set_tag", one["tag"], content(999, case["size"]), cache=False)
    elif kind == "pop":
        db("pop_tag", one["tag"], silent=one["silent"])
    elif kind == "delete_child":
        db("delete_metatag", CHILD)
    elif kind == "delete":
        db("delete_database")


def prepare(case, home):
    """The database before the fault, and which files are whose."""
    model = Model(case)
    db = Handle(home, case["is_async"])
    db("save_database")
    (ledger,) = os.listdir(home)
    ledgers = {None: ledger}
    if case["child"] is not None:
        db.place(CHILD)
        db("save_database")
        (ledgers[CHILD],) = set(os.listdir(home)) - {ledger}
    for place in ledgers:
        node = db.place(place)
        for (where, tag), value in model.saved.items():
            if where == place:
                node("set_tag", tag, value)
    db("save_database")
    db("clear_cache")
    names = {}
    for key in keys(case):
        node = db.place(key[0])
        names[key] = node("filename", key[1])
        if key in model.held:
            node("set_tag", key[1], model.held[key])
    (Path(home) / "foreign").write_bytes(b"not of this database")
    return model, db, ledgers, names


def in_child(function):
    """What a forked copy of this process reports, and how it ended."""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(reader)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)
        # closing the copied loop would take the original's file descriptors away
        kept = sut.loop()  # noqa: F841
        sut.drop_loop()

        def report(what):
            os.write(writer, json.dumps(what).encode() + b"\n")

        try:
            function(report)
            report({"ended": True})
        except Violation as error:
            FAULTING.home = None
            report({"violation": str(error)})
        except BaseException as error:  # noqa: BLE001
            FAULTING.home = None
            report({"violation": f"unexpected {error!r}"})
        finally:
            os._exit(0)
    os.close(writer)
    try:
        with open(reader, "rb") as pipe:
            lines = [json.loads(line) for line in pipe.read().splitlines()]
    finally:
        _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        raise Violation("the operation does not end", key="hang")
    for line in lines:
        if line.get("violation"):
            raise Violation(line["violation"])
    return lines


def evaluate(case):
    LAST["happened"] = False
    if not valid(case):
        raise Discard
    home = sut.scratch()
    try:
        with_crash(case, home) if case["fault"]["crash"] else with_error(case, home)
    finally:
        sut.remove_scratch(home)


def start_fault(case, home, report):
    if case["fault"]["crash"]:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    FAULTING.start(home, case["fault"], report)


def with_crash(case, home):
    model, db, ledgers, names = prepare(case, home)
    before = files(home)

    def run(report):
        start_fault(case, home, report)
        try:
            perform(db, case["op"], case)
        finally:
            FAULTING.stop()

    lines = in_child(run)
    LAST["happened"] = any(line.get("fault") for line in lines)
    if lines and lines[-1].get("ended"):
        events = [line for line in lines if "event" in line]
        if not any(e["fault"] == "cut" for e in events):
            return
    after_crash(case, home, model, ledgers, names, before, [line for line in lines if "event" in line])


def after_crash(case, home, model, ledgers, names, before, events):
    one, after = case["op"], files(home)
    written = [e["file"] for e in events if e["event"] == "write" and e["fault"] != "refuse"]
    removed = {e["file"] for e in events if e["event"] == "remove" and not e["fault"]}
    for name, data in before.items():
        if name not in written and name not in removed:
            expect(after.get(name) == data, lambda: f"a file the operation did not write was changed: {name}")
    damaged = set(written) if case["is_async"] else set(written[-1:])
    if any(e["fault"] == "cut" for e in events):
        # everything from there on met the same limit
        first = next(n for n, e in enumerate(events) if e["fault"] == "cut")
        damaged |= {e["file"] for e in events[first:] if e["event"] == "write"}
    if one["op"] in ("delete", "delete_child"):
        deleted_further(case, home, ledgers, names, before, removed)
        return
    others = removed - {names[None, one["tag"]]} if one["op"] == "pop" else removed
    expect(not others & set(before), lambda: f"an operation that deletes nothing removed {sorted(others)}")
    broken = {place for place, name in ledgers.items() if name in damaged}
    try:
        db = Handle(home, case["read_async"])
        for place in ledgers:
            db.place(place)
    except Exception as error:  # noqa: BLE001
        expect(bool(broken), lambda: f"a database whose ledger was not being written does not open: {error!r}")
        return
    for key in keys(case):
        name = names[key]
        kind, found = db.read(key)
        old, new = model.saved.get(key), model.value(key)
        if one["op"] == "set" and key == (None, one["tag"]):
            new = content(999, case["size"])
        if kind == "value":
            expect(found in [v for v in (old, new) if v is not None], lambda: (
                f"{key} reads as {found} after the crash; it was {old}, and was to become {new}"))
        if name in damaged or name in removed or broken:
            continue
        wanted = new if name in written else old
        if wanted is None:
            expect(kind == "none", lambda: f"{key} reads as {found}, and was never stored")
        else:
            expect(kind == "value" and found == wanted, lambda: (
                f"{key} was stored as {wanted} and not being written, and reads as {found} after the crash"))
            expect(key[1] in db.place(key[0]).db.tags, lambda: f"{key} is not listed after the crash")


def deleted_further(case, home, ledgers, names, before, removed):
    """A deletion that was interrupted is completed by whoever opens the database next."""
    one = case["op"]
    doomed = {ledgers[CHILD], *(names[k] for k in names if k[0] == CHILD)} if one["op"] == "delete_child" else set(before)
    doomed -= {"foreign"}
    if one["op"] == "delete" and ledgers[None] not in removed or one["op"] == "delete_child":
        db = Handle(home, case["read_async"])
        for key in keys(case):
            if one["op"] == "delete_child" and key[0] is None and names[key] in before:
                kind, _ = db.read(key)
                expect(kind == "value", lambda: f"{key} was lost when a child was deleted")
        if one["op"] == "delete":
            db("delete_database")
        elif CHILD in db.db.metatags:
            db("delete_metatag", CHILD)
    left = doomed & set(files(home))
    expect(not left, lambda: f"{len(left)} files remain after an interrupted deletion was completed")
    expect(files(home).get("foreign") == before["foreign"], "a foreign file was changed")


def with_error(case, home):
    model, db, ledgers, names = prepare(case, home)
    before = files(home)
    lines = in_child(lambda report: live(case, home, model, db, ledgers, names, before, report))
    LAST["happened"] = any(line.get("happened") for line in lines)


def is_refusal(error):
    while error is not None:
        if isinstance(error, OSError):
            return True
        error = error.__cause__ or error.__context__
    return False


def live(case, home, model, db, ledgers, names, before, report):
    one, failure, seen = case["op"], None, []
    start_fault(case, home, seen.append)
    try:
        perform(db, one, case)
    except Exception as error:  # noqa: BLE001
        failure = error
    finally:
        FAULTING.stop()
    if failure is None:
        expect(not any(e["fault"] == "refuse" for e in seen), lambda: (
            f"a refused file operation went unnoticed: {[e for e in seen if e['fault']]}"))
    else:
        expect(FAULTING.happened, lambda: f"the operation failed by itself: {failure!r}")
        expect(is_refusal(failure), lambda: f"the refusal of the system was reported as {failure!r}")
    after = files(home)
    touched = {e["file"] for e in seen if e["event"] != "read"}
    for name, data in before.items():
        if name not in touched:
            expect(after.get(name) == data, lambda: f"a file the operation did not write was changed: {name}")
    report({"happened": FAULTING.happened})
    kind, tag = one["op"], one.get("tag")
    target = (None, tag)
    unread = any(e["fault"] and e["event"] == "read" for e in seen)
    if kind not in ("delete", "delete_child") and failure is not None:
        for key in keys(case):
            found = db.read(key)
            old, wanted = model.saved.get(key), model.value(key)
            loose = key == target and (kind == "set" or kind == "pop" and not unread or one.get("drop"))
            if not loose:
                listed = key[1] in db.place(key[0]).db.tags
                expect(listed == (wanted is not None), lambda: (
                    f"{key} is {'' if listed else 'not '}listed after the refusal; its value is {wanted}"))
            if loose:
                allowed = [old, wanted, content(999, case["size"]) if kind == "set" else None]
                expect(found[0] == "none" or found[1] is None or found[1] in allowed, lambda: (
                    f"{key} reads as {found[1]} after the refusal; it was {wanted}"))
            elif wanted is None:
                expect(found[0] == "none", lambda: f"{key} reads as {found[1]}, and was never set")
            else:
                expect(found == ("value", wanted), lambda: (
                    f"{key} reads as {found[1]} after the refusal; it was {wanted}"))
    again(case, home, model, db, ledgers, names, before, failure)


def again(case, home, model, db, ledgers, names, before, failure):
    """The same operation once more, unhindered, if it failed; then everything is as usual."""
    one = case["op"]
    kind, tag = one["op"], one.get("tag")
    if failure is not None:
        if kind == "save_tag" and one["drop"]:
            db("set_tag", tag, model.value((None, tag)))
        perform(db, {**one, "silent": True}, case)
    owned = {place: {name, *(names[k] for k in names if k[0] == place)} for place, name in ledgers.items()}
    if kind == "delete":
        left = {n: d for n, d in files(home).items()}
        expect(left == {"foreign": before["foreign"]}, lambda: f"after deleting again there remain {sorted(left)}")
        return
    wanted = {key: model.value(key) for key in names if model.value(key) is not None}
    if kind == "set":
        wanted[None, tag] = content(999, case["size"])
    elif kind == "pop":
        wanted.pop((None, tag), None)
        expect(names[None, tag] not in files(home), "the file of a popped tag remains")
    elif kind == "delete_child":
        left = owned[CHILD] & set(files(home))
        expect(not left, lambda: f"after deleting a child again there remain {sorted(left)}")
        wanted = {key: value for key, value in wanted.items() if key[0] is None}
    db("save_database")
    fresh = Handle(home, case["read_async"])
    places = [place for place in ledgers if not (place == CHILD and kind == "delete_child")]
    expect(set(fresh.db.metatags) == set(places) - {None}, lambda: f"the children are {fresh.db.metatags}")
    for place in places:
        tags = {key[1] for key in wanted if key[0] == place}
        listed = set(fresh.place(place).db.tags)
        expect(listed == tags, lambda: f"the tags of {place} are {listed} instead of {tags}")
        for key in [key for key in wanted if key[0] == place]:
            found = fresh.read(key)
            expect(found == ("value", wanted[key]), lambda: (
                f"{key} is {wanted[key]} and reads as {found[1]} once the operation was repeated"))
    expect(files(home).get("foreign") == before["foreign"], "a foreign file was changed")


def nontrivial(case):
    # judged after the case has run
    return LAST["happened"]


def labels(case):
    yield case["op"]["op"]
    yield "crash" if case["fault"]["crash"] else "refusal"
    yield case["fault"]["kind"]


def every_fault(tier):
    """Every file operation of each kind of change fails once, in each way."""
    root = {"a": "changed", "b": "new", "c": "saved"}
    for one in ({"op": "save"}, {"op": "save_tag", "tag": "a", "drop": False}, {"op": "save_tag", "tag": "a", "drop": True},
                {"op": "set", "tag": "a"}, {"op": "set", "tag": "c"}, {"op": "pop", "tag": "a", "silent": False},
                {"op": "pop", "tag": "c", "silent": True}, {"op": "delete_child"}, {"op": "delete"}, {"op": "exit"}):
        most = {"save": 6, "exit": 6, "delete": 7, "delete_child": 5}.get(one["op"], 3)
        for at in range(most):
            for kind, cut in (("refuse", 0), ("cut", 0), ("cut", 100)):
                if kind == "cut" and one["op"].startswith(("delete", "pop")):
                    continue
                for crash in (False, True):
                    for is_async in (False, True):
                        yield {"root": root, "child": {"a": "changed", "d": "saved"}, "size": 1, "op": one,
                               "fault": {"at": at, "kind": kind, "cut": cut, "crash": crash, "error": "ENOSPC"},
                               "is_async": is_async, "read_async": bool(at % 2)}


PARTS = [
    Sweep("every fault", every_fault, evaluate, nontrivial=nontrivial, labels=labels, timeout=120),
    Part("faults", cases, evaluate, 500, 15000, nontrivial=nontrivial, labels=labels, timeout=120),
]
