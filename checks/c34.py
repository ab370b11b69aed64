"""C34: salt files keep their content and stay locked, also when an operation fails."""

import asyncio
import hashlib
import os
import resource
import sys
from pathlib import Path

from hypothesis import strategies as st

from lib import sched, sut, tsched
from lib import strategies as S
from lib.harness import Discard, Part, Sweep, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing of salt files against a dictionary of what was "
    "stored, run without the privilege to ignore permissions; concurrent programs of "
    "threads and tasks run under schedules of the case and are decided by a search for "
    "a serial order of a register model"
)
RULE = (
    "a case is a history, a concurrent program with a schedule, or a pair of keys; "
    "non-trivial when something stored is read, or two actors use one file. Distinct by "
    "the whole case."
)
ASSUMPTIONS = (
    "making a salt file where one exists may be refused or replace it; what a write that "
    "the operating system refuses leaves of the salt is not judged, only that it is locked",
    "salts which different processes store at one path have the same size",
    "the names of files are condensed from the key by XOR: only keys whose condensed "
    "values differ are expected to name different files",
)

sut.drop_file_privileges()
paths = aiootp._paths
SYNC = {k: getattr(paths, f"_{k}_salt_file") for k in ("make", "read", "update", "delete")}
ASYNC = {k: getattr(paths, f"_a{k}_salt_file") for k in ("make", "read", "update", "delete")}
FILES = ("one", "two")
#   nobody is preempted while it holds a lock
MANAGERS = [v for v in vars(sys.modules["aiootp._paths"]).values() if hasattr(type(v), "__slots__")]
LOCKS = [lock for manager in MANAGERS for lock in (getattr(manager, n, None) for n in type(manager).__slots__)
         if hasattr(lock, "locked")]


def mode(path):
    return os.stat(path).st_mode & 0o7777


def call(op, path, is_async):
    kw = {"salt": op["data"]} if op["op"] in ("make", "update") else {}
    if is_async:
        return sut.run(ASYNC[op["op"]](path, **kw))
    return SYNC[op["op"]](path, **kw)


# ------------------------------------------------------------- one at a time


salts = st.one_of(S.sized_blobs(st.sampled_from([32, 33, 64, 256, 5000])), S.sized_blobs(st.integers(32, 80)))
short = S.sized_blobs(st.sampled_from([1, 16, 30, 31]))
histories = st.fixed_dictionaries({"ops": st.lists(st.one_of(
    st.fixed_dictionaries({"op": st.sampled_from(["make", "update", "update"]), "salt": salts,
                           "file": st.integers(0, 1), "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["make", "update"]), "salt": short,
                           "file": st.integers(0, 1), "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["read", "read", "read", "delete"]),
                           "file": st.integers(0, 1), "is_async": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["damage", "full"]), "salt": short,
                           "file": st.integers(0, 1), "is_async": st.booleans()}),
), min_size=4, max_size=14)})


def evaluate(case):
    home = Path(sut.scratch())
    stored = {}
    try:
        for number, op in enumerate(case["ops"]):
            path = home / FILES[op["file"]]
            step(home, stored, number, op, path)
            for name in os.listdir(home):
                expect(mode(home / name) == 0, lambda: (
                    f"after {op['op']} (step {number}) the permissions of {name} are {mode(home / name):o}"))
            expect(set(os.listdir(home)) == {p.name for p in stored}, lambda: (
                f"files after step {number}: {sorted(os.listdir(home))}"))
        for path, salt in stored.items():
            if salt is None:
                continue
            for is_async in (True, False):
                expect(call({"op": "read"}, path, is_async) == salt, "another salt is read than was stored")
    finally:
        sut.remove_scratch(str(home))


def step(home, stored, number, op, path):
    kind = op["op"]
    salt = blob(op["salt"]) if "salt" in op else None
    if kind == "damage":
        # somebody shortens the file; reading it is an error
        if path in stored:
            os.chmod(path, 0o600)
            path.write_bytes(salt)
            os.chmod(path, 0)
            stored[path] = None
            attempt({"op": "read"}, path, op["is_async"], must_fail=True)
        return
    if kind == "full":
        # the operating system refuses to write
        refused = {"op": "update" if path in stored else "make", "data": bytes(range(64))}
        before = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (8, before[1]))
        try:
            attempt(refused, path, op["is_async"], must_fail=True)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, before)
        if path.exists():
            stored[path] = None
        else:
            stored.pop(path, None)
        return
    op = {**op, "data": salt}
    if salt is not None and len(salt) < 32:
        attempt(op, path, op["is_async"], must_fail=True)
        return
    present = path in stored
    got, error = attempt(op, path, op["is_async"])
    if kind == "read":
        if present and stored[path] is not None:
            expect(error is None and got == stored[path], lambda: (
                f"step {number} reads {got!r} ({error!r}), stored was {stored[path]!r}"))
        else:
            expect(error is not None, "reading what is not there gives a salt")
    elif error is None:
        if kind == "delete":
            stored.pop(path, None)
        else:
            stored[path] = salt
    else:
        expect(not present or kind == "make", lambda: f"step {number}: {kind} fails with {error!r}")


def attempt(op, path, is_async, must_fail=False):
    try:
        got = call(op, path, is_async)
    except Exception as error:  # noqa: BLE001
        return None, error
    expect(not must_fail, lambda: f"{op['op']} of a bad salt is not refused")
    return got, None


def nontrivial(case):
    kinds = [o["op"] for o in case["ops"]]
    return "read" in kinds and ("make" in kinds)


def labels(case):
    for op in case["ops"]:
        yield op["op"] + (" async" if op["is_async"] else "")


# --------------------------------------------------------------- concurrently


kinds = st.sampled_from(["read", "read", "update", "delete", "make"])
uses = st.lists(st.fixed_dictionaries({"op": kinds, "file": st.sampled_from([0, 0, 0, 1]),
                                       "wait": st.integers(0, 8)}), min_size=1, max_size=2)
actors = st.lists(st.one_of(
    st.fixed_dictionaries({"uses": uses}),
    st.fixed_dictionaries({"tasks": st.lists(uses, min_size=1, max_size=3),
                           "choices": st.lists(st.integers(0, 5), max_size=12)}),
), min_size=1, max_size=3)
programs = st.fixed_dictionaries({
    "start": st.lists(st.booleans(), min_size=2, max_size=2), "actors": actors,
    "switches": st.lists(st.tuples(st.one_of(st.integers(0, 10), st.integers(0, 30)),
                                   st.integers(0, 1)).map(list), max_size=5),
})
summons = st.fixed_dictionaries({
    "actors": st.lists(st.one_of(
        st.fixed_dictionaries({"uses": st.lists(st.fixed_dictionaries({
            "key": st.integers(0, 1), "admin": st.booleans(), "wait": st.integers(0, 4)}), min_size=1, max_size=2)}),
        st.fixed_dictionaries({"tasks": st.lists(st.lists(st.fixed_dictionaries({
            "key": st.integers(0, 1), "admin": st.booleans(), "wait": st.integers(0, 4)}), min_size=1, max_size=2),
            min_size=1, max_size=3), "choices": st.lists(st.integers(0, 5), max_size=12)}),
    ), min_size=1, max_size=3),
    "switches": st.lists(st.tuples(st.one_of(st.integers(0, 10), st.integers(0, 30)),
                                   st.integers(0, 1)).map(list), max_size=5),
})


class Record:
    def __init__(self, op, path, data):
        self.op, self.path, self.data = op, path, data
        self.began = self.ended = None
        self.result = None


class Program:
    """Runs actors under the case's schedule and records calls and results."""

    def __init__(self, case, perform, aperform):
        self.case, self.perform, self.aperform = case, perform, aperform
        self.time = 0
        self.records = []
        self.threads = tsched.Threads(case["switches"], within=("_paths",))
        self.threads.busy = lambda: any(lock.locked() for lock in LOCKS)

    def now(self):
        self.time += 1
        return self.time

    def run(self):
        for actor in self.case["actors"]:
            self.threads.spawn(lambda a=actor: self.loop(a) if "tasks" in a else self.thread(a))
        try:
            self.threads.run()
        except sched.Stuck as error:
            raise Violation(f"the users of salt files wait forever ({error})") from error

    def thread(self, actor):
        for use in actor["uses"]:
            for _ in range(use["wait"]):
                self.threads.sleep()
            record = self.begin(use)
            try:
                record.result = ("done", self.perform(use, record))
            except tsched.Ended:
                raise
            except Exception as error:  # noqa: BLE001
                record.result = ("error", error)
            record.ended = self.now()

    def loop(self, actor):
        async def task(uses):
            for use in uses:
                await sched.turns(use["wait"])
                record = self.begin(use)
                try:
                    record.result = ("done", await self.aperform(use, record))
                except Exception as error:  # noqa: BLE001
                    record.result = ("error", error)
                record.ended = self.now()

        async def main():
            await asyncio.gather(*(task(uses) for uses in actor["tasks"]))

        sched.run(main(), actor["choices"], on_idle=self.threads.sleep, limit=60000)

    def begin(self, use):
        record = Record(use.get("op"), use.get("file"), None)
        record.began = self.now()
        record.number = len(self.records)
        record.data = bytes([record.number + 1]) * (40 + record.number)
        self.records.append(record)
        return record


def evaluate_program(case):
    home = Path(sut.scratch())
    stored = {}
    try:
        for number, there in enumerate(case["start"]):
            if there:
                SYNC["make"](home / FILES[number], salt=b"\xff" * 32)
                stored[number] = b"\xff" * 32

        def arguments(use, record):
            return {"salt": record.data} if use["op"] in ("make", "update") else {}

        def perform(use, record):
            return SYNC[use["op"]](home / FILES[use["file"]], **arguments(use, record))

        async def aperform(use, record):
            return await ASYNC[use["op"]](home / FILES[use["file"]], **arguments(use, record))

        program = Program(case, perform, aperform)
        program.run()
        for name in os.listdir(home):
            expect(mode(home / name) == 0, lambda: f"the permissions of {name} are {mode(home / name):o}")
        for number in (0, 1):
            path = home / FILES[number]
            final = SYNC["read"](path) if path.exists() else None
            records = [r for r in program.records if r.path == number]
            for record in records:
                if record.result[0] == "error":
                    expect(isinstance(record.result[1], (FileNotFoundError, FileExistsError)),
                           lambda: f"{record.op} fails with {record.result[1]!r}")
            if not serial(records, stored.get(number), final):
                told = [(r.op, r.result[0], r.result[1] if r.op == "read" else "", r.began, r.ended) for r in records]
                raise Violation(f"no serial order explains {told} and {final!r} in the end")
    finally:
        sut.remove_scratch(str(home))


def preemptions(tier):
    """Two threads on one file; the first is preempted at every one of its points."""
    for one in ("read", "update", "delete", "make"):
        for two in ("read", "update", "delete", "make"):
            for start in (True, False):
                for first in range(20):
                    for second in ([], [[first // 2, 0]]):
                        yield {"start": [start, False], "switches": [[first, 0], *second], "actors": [
                            {"uses": [{"op": kind, "file": 0, "wait": 0}]} for kind in (one, two)]}


def serial(records, start, final):
    """Is there an order, respecting who ended before whom began, that explains all?"""
    everything = frozenset(range(len(records)))
    seen = set()

    def explore(left, state):
        if not left:
            return state == final
        if (left, state) in seen:
            return False
        seen.add((left, state))
        for i in left:
            one = records[i]
            if any(records[j].ended < one.began for j in left if j != i):
                continue
            failed = one.result[0] == "error"
            if one.op == "make":
                after = state if failed else one.data
                if failed and state is None:
                    continue
            elif state is None:
                if not failed:
                    continue
                after = None
            else:
                if failed or (one.op == "read" and one.result[1] != state):
                    continue
                after = {"read": state, "update": one.data, "delete": None}[one.op]
            if explore(left - {i}, after):
                return True
        return False

    return explore(everything, start)


def evaluate_summons(case):
    """Whoever asks first, all get one salt per key and place."""
    home = sut.scratch()
    keys = [hashlib.sha512(b"%d" % n).digest() for n in (0, 1)]
    try:
        def perform(use, record):
            path = paths.SecureSaltPath(home, key=keys[use["key"]], _admin=use["admin"])
            return use["key"], use["admin"], path, SYNC["read"](path)

        async def aperform(use, record):
            path = await paths.AsyncSecureSaltPath(home, key=keys[use["key"]], _admin=use["admin"])
            return use["key"], use["admin"], path, await ASYNC["read"](path)

        program = Program(case, perform, aperform)
        program.run()
        places, salts = {}, {}
        for record in program.records:
            expect(record.result[0] == "done", lambda: f"asking for a salt fails with {record.result[1]!r}")
            key, admin, path, salt = record.result[1]
            expect(places.setdefault((key, admin), path) == path, "one key names two files")
            expect(salts.setdefault((key, admin), salt) == salt, "two users of one salt file get different salts")
            expect(len(salt) >= 32, "the salt is too short")
            expect(mode(path) == 0, lambda: f"the permissions are {mode(path):o}")
        expect(len(set(salts.values())) == len(salts), "different salt files hold the same salt")
        expect(len({str(p) for p in places.values()}) == len(places), "different keys share a file")
    finally:
        sut.remove_scratch(home)


def users(case):
    return [u for a in case["actors"] for us in a.get("tasks", [a.get("uses")]) for u in us]


def competing(case):
    return len(users(case)) > 1 and (len(case["actors"]) > 1 or len(case["actors"][0].get("tasks", "")) > 1)


def program_labels(case):
    yield " and ".join(sorted({"tasks" if "tasks" in a else "threads" for a in case["actors"]}))
    for use in users(case):
        yield use["op"]


# ------------------------------------------------------------ other processes


STEPS = ("-", "lock", "update", "begin", "end")


class Elsewhere:
    """
    Another process, which no guard of this one stops: it takes its next step
    whenever this process is about to open the file or to change its permissions.
    """

    def __init__(self):
        self.path = None
        self.busy = False
        sys.addaudithook(self.notice)

    def start(self, path, steps):
        self.steps, self.written, self.file = list(steps), [], None
        self.path = str(path)

    def notice(self, event, args):
        if self.path is None or self.busy or event not in ("open", "os.chmod") or str(args[0]) != self.path:
            return
        self.busy = True
        try:
            self.step(self.steps.pop(0) if self.steps else "end")
        finally:
            self.busy = False

    def step(self, name):
        if name == "lock" and os.path.exists(self.path):
            os.chmod(self.path, 0)
        elif name in ("update", "begin") and self.file is None:
            if os.path.exists(self.path):
                os.chmod(self.path, 0o600)
            self.file = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        if name in ("update", "end") and self.file is not None:
            self.written.append(bytes([len(self.written) + 1]) * 32)
            os.write(self.file, self.written[-1])
            os.close(self.file)
            self.file = None
            if os.path.exists(self.path):
                os.chmod(self.path, 0)

    def stop(self):
        self.busy = True
        self.step("end")
        self.busy, self.path = False, None


ELSEWHERE = Elsewhere()
STORED, GIVEN, KEY = b"\xff" * 32, b"\xee" * 32, hashlib.sha512(b"key").digest()
processes = st.fixed_dictionaries({
    "op": st.sampled_from(["read", "read", "update", "delete", "summon"]), "is_async": st.booleans(),
    "writing": st.booleans(), "steps": st.lists(st.sampled_from(STEPS), max_size=10),
})


def evaluate_processes(case):
    home = Path(sut.scratch())
    op, is_async = case["op"], case["is_async"]
    try:
        path = home / "secure" / paths.deniable_filename(KEY)
        path.parent.mkdir()
        if op != "summon":
            SYNC["make"](path, salt=STORED)
        ELSEWHERE.start(path, case["steps"])
        try:
            if case["writing"]:
                ELSEWHERE.busy = True
                ELSEWHERE.step("begin")
                ELSEWHERE.busy = False
            got = use(op, home, path, is_async)
        finally:
            ELSEWHERE.stop()
        theirs = ELSEWHERE.written
        if op in ("read", "summon"):
            made = op == "summon" and len(got) == 32  # by this process, or by the other one
            expect(made or got in {*theirs, STORED}, lambda: f"the salt {got.hex()} was never stored")
        if op == "delete":
            expect(not path.exists() or theirs, "a deleted salt file is still there")
        else:
            expect(mode(path) == 0, lambda: f"the permissions are {mode(path):o}")
            left = SYNC["read"](path)
            known = theirs[-1:] or [STORED] if op == "read" else [GIVEN if op == "update" else got, *theirs]
            expect(left in known, lambda: f"{left.hex()} is left in the file")
    finally:
        sut.remove_scratch(str(home))


def use(op, home, path, is_async):
    if op != "summon":
        return call({"op": op, "data": GIVEN}, path, is_async)
    if not is_async:
        return SYNC["read"](paths.SecureSaltPath(home, key=KEY))

    async def summon():
        return await ASYNC["read"](await paths.AsyncSecureSaltPath(home, key=KEY))

    return sut.run(summon())


def interferences(tier):
    """Every few steps of another process, from every point of the operation on."""
    for op in ("read", "update", "delete", "summon"):
        for is_async in (False, True):
            for writing in (False, True):
                for skipped in range(5):
                    for steps in (["lock"], ["lock", "lock"], ["-", "lock"], ["update"], ["begin"], ["begin", "-", "-"], ["begin", "lock", "-"],
                                  ["update", "begin"], ["lock", "begin", "lock"]):
                        yield {"op": op, "is_async": is_async, "writing": writing, "steps": ["-"] * skipped + steps}


# ---------------------------------------------------------------------- names


names = st.fixed_dictionaries({
    "key": S.sized_blobs(st.sampled_from([34, 35, 40, 64, 100])), "size": st.integers(1, 16),
    "edit": st.sampled_from(["bit", "append", "cut", "other"]), "at": st.integers(0, 800),
})


def condensed(key, size):
    result = 0
    for at in range(0, len(key), size):
        result ^= int.from_bytes(key[at:at + size].ljust(size, b"\0"), "big")
    return result


def evaluate_names(case):
    key, size = blob(case["key"]), case["size"]
    other = bytearray(key)
    if case["edit"] == "bit":
        other[case["at"] // 8 % len(key)] ^= 1 << case["at"] % 8
    elif case["edit"] == "append":
        other.append(1 + case["at"] % 255)
    elif case["edit"] == "cut":
        other = other[:-1]
    else:
        other = bytearray(b ^ 0x5a ^ (i * 7 & 255) for i, b in enumerate(key))
    other = bytes(other)
    mine = paths.deniable_filename(key, size=size)
    expect(mine == sut.run(paths.adeniable_filename(key, size=size)), "the async form gives another name")
    expect(mine == paths.deniable_filename(bytes(key), size=size), "a name changes")
    expect("/" not in mine and len(mine) > 3 and mine.isascii() and mine.isprintable(), f"bad file name {mine!r}")
    theirs = paths.deniable_filename(other, size=size)
    if condensed(key, size) == condensed(other, size):
        raise Discard
    expect(mine != theirs, "two keys share a name")


PARTS = [
    Part("histories", histories, evaluate, 250, 5000, nontrivial=nontrivial, labels=labels),
    Part("programs", programs, evaluate_program, 800, 15000, nontrivial=competing, labels=program_labels),
    Sweep("preemptions", preemptions, evaluate_program, nontrivial=competing),
    Part("summons", summons, evaluate_summons, 250, 6000, nontrivial=competing),
    Sweep("interferences", interferences, evaluate_processes, labels=lambda case: [case["op"]]),
    Part("other processes", processes, evaluate_processes, 300, 6000, nontrivial=lambda case: case["writing"] or bool({*case["steps"]} - {"-", "end"}),
         labels=lambda case: [case["op"], *case["steps"]]),
    Part("names", names, evaluate_names, 300, 5000),
]
