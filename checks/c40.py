"""C40: exception scopes swallow exactly what they were told to."""

import asyncio

from hypothesis import strategies as st

from lib.harness import Part, Violation, expect
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing: generated programs of nested scopes, raises and callbacks are "
    "run once with the package's scope and once with the plain try statement, in sync and "
    "async form, and their traces are compared"
)
RULE = (
    "a case is a program; non-trivial when an exception reaches the exit of a scope. Distinct "
    "by the whole case."
)
ASSUMPTIONS = (
    "callbacks of async scopes are async functions; what a scope used again without an error records is not judged",
)
Ignore = aiootp._exceptions.Ignore


class Base(Exception):
    """A family of exceptions of the check's own."""


class Child(Base):
    pass


class Grandchild(Child):
    pass


class Both(Child, KeyError):
    pass


class Fatal(BaseException):
    pass


TYPES = {cls.__name__: cls for cls in (
    Base, Child, Grandchild, Both, Fatal, ValueError, KeyError, LookupError, Exception,
    ArithmeticError, ZeroDivisionError, StopIteration, StopAsyncIteration, GeneratorExit,
    KeyboardInterrupt, SystemExit, asyncio.CancelledError, BaseException, RuntimeError,
    TimeoutError, OSError, ConnectionError, AssertionError, UnicodeError)}
names = st.sampled_from(sorted(TYPES))
raisable = st.one_of(names, names, st.sampled_from(["StopIteration", "Child", "CancelledError"]))
handlers = st.one_of(st.none(), st.fixed_dictionaries({
    "result": st.sampled_from([True, False, None, 1, 0, "", "yes"]),
    "raises": st.one_of(st.none(), st.none(), st.none(), raisable),
    "pauses": st.integers(0, 2), "inside": st.booleans(),
}))
leaf = st.one_of(
    st.fixed_dictionaries({"do": st.just("note")}),
    st.fixed_dictionaries({"do": st.just("raise"), "type": raisable}),
    st.fixed_dictionaries({"do": st.just("raise from"), "type": raisable, "cause": raisable}),
)


def nodes(children):
    bodies = st.lists(children, max_size=3)
    scope = st.fixed_dictionaries({
        "do": st.just("scope"), "ignored": st.lists(names, max_size=3), "grouped": st.booleans(),
        "except": handlers, "else": handlers, "finally": handlers, "body": bodies,
        "bag": st.dictionaries(st.sampled_from(["a", "b", "key"]), st.integers(0, 3), max_size=2),
    })
    guard = st.fixed_dictionaries({"do": st.just("catch"), "type": names, "body": bodies})
    return st.one_of(scope, scope, guard)


programs = st.fixed_dictionaries({
    "program": st.lists(
        nodes(st.recursive(leaf, nodes, max_leaves=6)), min_size=1, max_size=2),
    "is_async": st.booleans(),
})


class Machine:
    """Runs a program and writes down what happens."""

    def __init__(self):
        self.trace = []
        self.ids = {}
        self.kept = []
        self.of_callbacks = set()

    def identity(self, error):
        """The same name for the same exception in both runs."""
        if error is None:
            return None
        # numbered in the order of creation by the program
        return self.ids.get(id(error), f"foreign {type(error).__name__}: {error}")

    def make(self, name):
        error = TYPES[name]("made", len(self.ids))
        error.note = object()
        self.ids[id(error)] = f"{name} {len(self.ids)}"
        self.kept.append((error, error.args))
        return error

    def chain(self, error):
        """What an exception tells about itself and about its origin."""
        out = []
        while error is not None and len(out) < 10:
            out.append((self.identity(error), self.identity(error.__cause__),
                        error.__suppress_context__))
            # what a callback raised has the context of its call
            error = None if id(error) in self.of_callbacks else error.__context__
        return out

    def note(self, *what):
        self.trace.append(what)

    # ------------------------------------------------------------ callbacks

    def callback(self, kind, spec, scope, bus_of):
        """(before the pause, after it): the two halves of a callback."""
        def enter(relay):
            self.note(kind, relay is scope[0], self.identity(relay.error),
                      (relay.traceback is not None), sorted(bus_of(relay).items()))
            bus_of(relay)[f"{kind} was here"] = True

        def leave():
            if spec["raises"]:
                error = self.make(spec["raises"])
                self.of_callbacks.add(id(error))
                raise error
            return spec["result"]

        return enter, leave

    def stop(self, action, error):
        """Not to be let out of a coroutine."""
        if "body" not in action:
            raise error
        self.note("passed", self.identity(error), self.chain(error))

    # --------------------------------------------------------- plain actions

    def simple(self, action):
        if action["do"] == "note":
            self.note("note")
        elif action["do"] == "raise":
            raise self.make(action["type"])
        else:
            cause = self.make(action["cause"])
            raise self.make(action["type"]) from cause


class Relay:
    """What the scope of the plain try statement knows."""

    def __init__(self):
        self.error = self.traceback = None
        self.bus = {}


class Ours(Machine):
    """With try statements."""

    def run(self, actions):
        for action in actions:
            try:
                if action["do"] == "scope":
                    self.scope(action)
                elif action["do"] == "catch":
                    try:
                        self.run(action["body"])
                    except TYPES[action["type"]] as error:
                        self.note("caught", self.identity(error), self.chain(error))
                else:
                    self.simple(action)
            except StopIteration as error:
                self.stop(action, error)

    def scope(self, action):
        relay = Relay()
        kinds = {}
        for kind in ("except", "else", "finally"):
            if action[kind]:
                kinds[kind] = self.callback(kind, action[kind], [relay], lambda r: r.bus)

        def call(kind):
            if kind not in kinds:
                return True
            kinds[kind][0](relay)
            return kinds[kind][1]()

        ignored = tuple(TYPES[name] for name in action["ignored"])
        relay.bus.update(action["bag"])
        try:
            try:
                self.run(action["body"])
            except ignored as error:
                relay.error, relay.traceback = error, True
                if not call("except"):
                    raise
            except BaseException as error:
                relay.error, relay.traceback = error, True
                raise
            else:
                call("else")
        finally:
            call("finally")
        self.note("after", self.identity(relay.error), relay.traceback is not None,
                  sorted(relay.bus.items()))


class Theirs(Machine):
    """With the package's scope."""

    def __init__(self, is_async):
        super().__init__()
        self.is_async = is_async

    def prepare(self, action):
        scope = [None]
        given, later = {}, {}
        words = {"except": ("if_except", "except_code"), "else": ("if_else", "else_code"),
                 "finally": ("finally_run", "finally_code")}
        for kind, (keyword, attribute) in words.items():
            spec = action[kind]
            if not spec:
                continue
            enter, leave = self.callback(kind, spec, scope, lambda relay: relay.bus)
            if self.is_async:
                async def code(relay, enter=enter, leave=leave, spec=spec):
                    enter(relay)
                    for _ in range(spec["pauses"]):
                        await asyncio.sleep(0)
                    return leave()
            else:
                def code(relay, enter=enter, leave=leave):
                    enter(relay)
                    return leave()
            if spec["inside"]:
                later[attribute] = code
            else:
                given[keyword] = code
        ignored = [TYPES[name] for name in action["ignored"]]
        if action["grouped"]:
            ignored = [tuple(ignored)]
        scope[0] = Ignore(*ignored, **given)
        return scope[0], later

    def opened(self, scope, relay, later, action):
        expect(relay is scope, "entering a scope does not give the scope")
        expect(relay.error is None, lambda: f"a new scope has an error: {relay.error!r}")
        expect(not list(relay.bus.items()), "a new scope's bag is not empty")
        for attribute, code in later.items():
            setattr(relay, attribute, code)
        for name, value in action["bag"].items():
            relay.bus[name] = value

    def closed(self, scope):
        self.note("after", self.identity(scope.error), scope.traceback is not None,
                  sorted(scope.bus.items()))

    def run(self, actions):
        for action in actions:
            try:
                if action["do"] == "scope":
                    scope, later = self.prepare(action)
                    with scope as relay:
                        self.opened(scope, relay, later, action)
                        self.run(action["body"])
                    self.closed(scope)
                elif action["do"] == "catch":
                    try:
                        self.run(action["body"])
                    except TYPES[action["type"]] as error:
                        self.note("caught", self.identity(error), self.chain(error))
                else:
                    self.simple(action)
            except StopIteration as error:
                self.stop(action, error)

    async def arun(self, actions):
        for action in actions:
            await self.aact(action)

    async def aact(self, action):
        try:
            if action["do"] == "scope":
                scope, later = self.prepare(action)
                async with scope as relay:
                    self.opened(scope, relay, later, action)
                    for inner in action["body"]:
                        # not in a coroutine of its own, which
                        # StopIteration cannot leave
                        if "body" in inner:
                            await self.aact(inner)
                        else:
                            self.simple(inner)
                self.closed(scope)
            elif action["do"] == "catch":
                try:
                    for inner in action["body"]:
                        if "body" in inner:
                            await self.aact(inner)
                        else:
                            self.simple(inner)
                except TYPES[action["type"]] as error:
                    self.note("caught", self.identity(error), self.chain(error))
            else:
                self.simple(action)
        except StopIteration as error:
            self.stop(action, error)


def drive(coroutine):
    """Runs a coroutine to its end without any event loop's opinion on it."""
    try:
        while True:
            coroutine.send(None)
    except StopIteration as done:
        return done.value


def judge(machine, start):
    try:
        start()
    except Violation:
        raise
    except BaseException as error:
        machine.note("escaped", machine.identity(error), machine.chain(error))
    machine.note("intact", [error.args == args for error, args in machine.kept])
    return machine.trace


def settled(actions):
    """Python does not let StopIteration leave an async callback."""
    out = []
    for action in actions:
        action = dict(action)
        if "body" in action:
            action["body"] = settled(action["body"])
        for kind in ("except", "else", "finally"):
            spec = action.get(kind)
            if spec and spec["raises"] == "StopIteration":
                action[kind] = dict(spec, raises="StopAsyncIteration")
        out.append(action)
    return out


def evaluate(case):
    program = settled(case["program"]) if case["is_async"] else case["program"]
    ours, theirs = Ours(), Theirs(case["is_async"])
    wanted = judge(ours, lambda: ours.run(program))
    if case["is_async"]:
        got = judge(theirs, lambda: drive(theirs.arun(program)))
    else:
        got = judge(theirs, lambda: theirs.run(program))
    for index, (ideal, real) in enumerate(zip(wanted + [None], got + [None])):
        expect(ideal == real, lambda: (
            f"step {index}: {real!r}, but with the plain try statement {ideal!r}"))


# ------------------------------------------------------------- measurement

_last = [None, None]


def exits(actions):
    """What happens at the exits of scopes, by the plain run."""
    if _last[0] is not actions:
        ours = Ours()
        judge(ours, lambda: ours.run(actions))
        _last[:] = actions, [step for step in ours.trace if step[0] != "note"]
    return _last[1]


def has(actions, test):
    return any(test(action) or has(action.get("body", ()), test) for action in actions)


def nontrivial(case):
    scopes = has(case["program"], lambda a: a["do"] == "scope")
    return scopes and any(
        step[0] == "except" or step[0] in ("after", "escaped", "passed") and step[1]
        for step in exits(case["program"]))


def labels(case):
    yield "async" if case["is_async"] else "sync"
    seen = {step[0] for step in exits(case["program"])}
    yield from sorted(seen)
    if has(case["program"], lambda a: a["do"] == "scope" and any(
            a[kind] and a[kind]["raises"] for kind in ("except", "else", "finally"))):
        yield "callback raises"
    if has(case["program"], lambda a: a["do"] == "scope" and has(
            a["body"], lambda b: b["do"] == "scope")):
        yield "nested"


# -------------------------------------------------------- one scope, many uses

reuses = st.fixed_dictionaries({
    "ignored": st.lists(names, max_size=3), "verdicts": st.lists(st.booleans(), min_size=6, max_size=6),
    "with": st.lists(st.sampled_from(["except", "else", "finally"]), unique=True), "is_async": st.booleans(),
    "raised": st.lists(st.one_of(st.none(), raisable), min_size=2, max_size=6),
})


def evaluate_reuses(case):
    """Each use of one scope ends as a use of a new one would."""
    ignored = tuple(TYPES[name] for name in case["ignored"])
    ran, turn, errors = [], [0], []

    def callback(kind):
        def plain(relay):
            ran.append((kind, relay.error is errors[-1] if errors[-1] is not None else None))
            return case["verdicts"][turn[0]]

        async def paused(relay):
            await asyncio.sleep(0)
            return plain(relay)
        return paused if case["is_async"] else plain

    keywords = {"except": "if_except", "else": "if_else", "finally": "finally_run"}
    scope = Ignore(*ignored, **{keywords[kind]: callback(kind) for kind in case["with"]})

    def body(number):
        name = case["raised"][number]
        turn[0] = number
        errors.append(None if name is None else TYPES[name]("raised", number))
        if errors[-1] is not None:
            raise errors[-1]

    async def in_scope(number):
        async with scope:
            body(number)

    def use(number):
        if not case["is_async"]:
            with scope:
                body(number)
            return
        # a plain loop: what ends one of the package's would end the check
        entered = in_scope(number)
        try:
            while True:
                entered.send(None)
        except StopIteration:
            return
        except RuntimeError as error:
            if isinstance(error.__cause__, StopIteration) and errors[-1] is error.__cause__:
                raise errors[-1] from None  # StopIteration does not leave a coroutine as itself
            raise

    for number, name in enumerate(case["raised"]):
        ran.clear()
        passed = None
        try:
            use(number)
        except BaseException as error:  # noqa: BLE001
            passed = error
        error = errors[-1]
        caught = error is not None and isinstance(error, ignored)
        kept = caught and ("except" not in case["with"] or case["verdicts"][number])
        expect((passed is None) == (error is None or kept), lambda: f"use {number} of a scope lets {passed!r} out")
        expect(passed is None or passed is error, lambda: f"use {number} raises {passed!r} for {error!r}")
        wanted = ["except"] if caught else ["else"] if error is None else []
        wanted = [kind for kind in (*wanted, "finally") if kind in case["with"]]
        expect([kind for kind, _ in ran] == wanted, lambda: f"use {number} runs {ran} instead of {wanted}")
        expect(all(right in (None, True) for _, right in ran), lambda: f"use {number} gives its callbacks another error")
        expect(error is None or scope.error is error, lambda: f"use {number} records {scope.error!r}")


PARTS = [
    Part("one scope again", reuses, evaluate_reuses, 500, 8000, nontrivial=lambda case: any(case["raised"]) and not all(case["raised"])),
    Part("programs", programs, evaluate, 2000, nontrivial=nontrivial, labels=labels),
]
