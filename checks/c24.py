"""C24: concurrent asynchronous database use is equivalent to some serial order."""

import asyncio

from hypothesis import strategies as st

from lib import sched, sut
from lib import strategies as S
from lib.harness import Part, Sweep, Violation, expect
from lib.sut import aiootp

TECHNIQUE = (
    "property-based exploration of schedules: generated concurrent programs run under a "
    "deterministic event loop whose interleavings come from the case; a search over all "
    "serial orders of a dictionary model decides whether what was observed is possible"
)
RULE = (
    "a case is a program of two or three tasks with a schedule; non-trivial when two "
    "tasks use the same tag (or the same child) and one of them changes it. Distinct "
    "by the whole case."
)
ASSUMPTIONS = (
    "saving everything counts as saving each cached tag, one by one in any order; "
    "storing without caching as setting, then saving; rolling back with reloading as "
    "rolling back, then reading",
    "removal through item deletion, and clearing the whole cache while other tasks are "
    "saving, are outside the generated programs (they are plain synchronous calls that "
    "cannot wait; see DESIGN.md)",
)

TAGS = ["a", "b"]
NAMES = ["kids", "x"]
PLACES = [None, None, None, "kids"]


def op(kind, /, **fields):
    return st.fixed_dictionaries({"op": st.just(kind), **fields})


place = {"child": st.sampled_from(PLACES), "tag": st.sampled_from(TAGS[:1] * 3 + TAGS[1:])}
OPS = st.one_of(
    op("set", **place, how=st.sampled_from(["method", "item", "uncached", "uncached"]),
       size=st.sampled_from([0, 1, 300, 900])),
    op("set", **place, how=st.sampled_from(["method", "item", "uncached", "uncached"]),
       size=st.sampled_from([0, 1, 300, 900])),
    op("query", **place, cache=st.booleans()),
    op("pop", **place, silent=st.booleans()),
    op("save_tag", **place, drop=st.booleans()),
    op("save"),
    op("rollback", **place, cache=st.booleans()),
    op("child", name=st.sampled_from(NAMES)),
)
STARTS = st.sampled_from(["absent", "stored", "cached", "stored-cached", "unsaved-change"])
programs = st.fixed_dictionaries({
    "start": st.fixed_dictionaries({"a": STARTS, "b": STARTS}),
    "tasks": st.lists(
        st.fixed_dictionaries({"wait": st.integers(0, 30), "ops": st.lists(OPS, min_size=1, max_size=2)}),
        min_size=2, max_size=3),
    "choices": st.lists(st.integers(0, 5), max_size=24),
})
#   two tasks on one tag: the smallest races, more of them
pairs = st.fixed_dictionaries({
    "start": st.fixed_dictionaries({"a": STARTS, "b": st.just("absent")}),
    "tasks": st.lists(
        st.fixed_dictionaries({"wait": st.integers(0, 24), "ops": st.lists(OPS, min_size=1, max_size=1)}),
        min_size=2, max_size=2),
    "choices": st.lists(st.integers(0, 5), max_size=12),
})
#   clearing the cache, next to everything that stores nothing
clearing = st.fixed_dictionaries({
    "start": st.fixed_dictionaries({"a": STARTS, "b": STARTS}),
    "tasks": st.lists(
        st.fixed_dictionaries({"wait": st.integers(0, 8), "ops": st.lists(st.one_of(
            op("set", **place, how=st.sampled_from(["method", "method", "item"]), size=st.just(1)),
            op("query", **place, cache=st.booleans()),
            op("pop", **place, silent=st.booleans()),
            op("rollback", **place, cache=st.booleans()),
            op("clear"), op("clear"),
        ), min_size=1, max_size=2)}),
        min_size=2, max_size=3),
    "choices": st.lists(st.integers(0, 5), max_size=12),
})


def content(number, size):
    return f"{number}:" + "v" * size


def number_of(value):
    return int(value.partition(":")[0]) if isinstance(value, str) else value


class Start:
    def __init__(self, case):
        self.cache, self.listed, self.files = {}, set(), {}
        number = 1000
        for tag in TAGS:
            how = case["start"][tag]
            key = (None, tag)
            if how in ("stored", "stored-cached", "unsaved-change"):
                self.files[key] = number
            if how in ("cached", "stored-cached", "unsaved-change"):
                self.cache[key] = number + (how == "unsaved-change")
            if how != "absent":
                self.listed.add(key)
            number += 10


class Observed:
    def __init__(self):
        self.results = []
        self.children = {}


async def play(case, path, seen):
    db = await aiootp.AsyncDatabase(b"k" * 64, path=path)
    start = Start(case)
    for (_, tag), number in start.files.items():
        await db.aset_tag(tag, content(number, 5))
    await db.asave_database()
    await db.aclear_cache()
    for (_, tag), number in start.cache.items():
        await db.aset_tag(tag, content(number, 5))

    async def target(child):
        return db if child is None else await find(child)

    async def find(name):
        child = await db.ametatag(name)
        seen.children.setdefault(name, []).append(child)
        return child

    async def task(number, program):
        results = []
        seen.results.append((number, results))
        await sched.turns(program["wait"])
        for step, one in enumerate(program["ops"]):
            try:
                results.append(("done", await perform(number, step, one)))
            except LookupError as error:
                results.append(("missing", type(error).__name__))

    async def perform(number, step, one):
        kind = one["op"]
        if kind == "save":
            await db.asave_database()
            return None
        if kind == "clear":
            await db.aclear_cache()
            return None
        if kind == "child":
            await find(one["name"])
            return None
        where, tag = await target(one["child"]), one["tag"]
        if kind == "set":
            value = content(identity(number, step), one["size"])
            if one["how"] == "item":
                where[tag] = value
            else:
                await where.aset_tag(tag, value, cache=one["how"] == "method")
        elif kind == "query":
            return number_of(await where.aquery_tag(tag, cache=one["cache"]))
        elif kind == "pop":
            return number_of(await where.apop_tag(tag, silent=one["silent"]))
        elif kind == "save_tag":
            await where.asave_tag(tag, drop_cache=one["drop"])
        elif kind == "rollback":
            await where.arollback_tag(tag, cache=one["cache"])
        return None

    loop = asyncio.get_running_loop()
    tasks = [loop.create_task(task(n, p)) for n, p in enumerate(case["tasks"])]
    # the first failure ends the case
    await asyncio.gather(*tasks)
    # whoever asked for a child got the one the database has
    for name, got in seen.children.items():
        expect(all(child is getattr(db, name) for child in got),
               lambda: f"tasks hold different databases for the child {name!r}")
        expect(name in db.metatags, lambda: f"the child {name!r} is not listed")

    held = await view(db, seen)
    stored = {}
    for name in {None, *seen.children}:
        node = db if name is None else getattr(db, name)
        for tag in TAGS:
            file = node.path / await node.afilename(tag)
            if file.is_file():
                stored[name, tag] = number_of(await stored_value(node, file, tag))
    await db.asave_database()
    again = await aiootp.AsyncDatabase(b"k" * 64, path=path)
    after = await view(again, seen)
    expect(held == after, lambda: (
        f"the database holds {held} (tags, values), but a reopened one {after}"))
    return held, stored


async def stored_value(node, file, tag):
    # what a database that has nothing cached would read
    filename = file.name
    plain = await node.abytes_decrypt(file.read_bytes(), filename=filename)
    return plain.decode().strip('"')


async def view(db, seen):
    listed, values = set(), {}
    for name in {None, *seen.children}:
        node = db if name is None else getattr(db, name, None)
        if node is None:
            continue
        for tag in TAGS:
            if tag in node.tags:
                listed.add((name, tag))
            try:
                values[name, tag] = number_of(await node.aquery_tag(tag))
            except LookupError:
                pass
    return listed, values


def identity(task, step):
    return 10 * task + step + 1


# ------------------------------------------------------- the serial search


class Search:
    """Is there an order of the operations that explains the observation?"""

    def __init__(self, case, results, held, stored):
        self.tasks = [p["ops"] for p in case["tasks"]]
        self.results = [r for _, r in sorted(results)]
        self.listed, self.values = held
        self.stored = stored
        self.seen = set()
        start = Start(case)
        # what only saves touch is saved first, as it makes no difference when
        self.touched = sorted({(o["child"], o["tag"]) for t in self.tasks for o in t if "tag" in o}, key=str)
        self.quiet = tuple(sorted((k for k in start.listed if k not in self.touched), key=str))
        self.first = (frozenset(start.cache.items()), frozenset(start.listed),
                      frozenset(start.files.items()))

    def run(self):
        return self.explore((0,) * len(self.tasks), (None,) * len(self.tasks), self.first)

    def explore(self, position, pending, state):
        key = (position, pending, state)
        if key in self.seen:
            return False
        self.seen.add(key)
        if all(p == len(t) for p, t in zip(position, self.tasks)):
            return self.final(state)
        for number, ops in enumerate(self.tasks):
            at = position[number]
            if at == len(ops):
                continue
            one = ops[at]
            parts = pending[number]
            if parts is None:
                parts = self.parts(one)
            for part in self.next_parts(one, parts):
                after = self.apply(part, number, at, state)
                if after is None:
                    continue
                left = tuple(p for p in parts if p != part)
                moved = position[:number] + (at + (not left),) + position[number + 1:]
                waiting = pending[:number] + (left or None,) + pending[number + 1:]
                if self.explore(moved, waiting, after):
                    return True
        return False

    def final(self, state):
        cache, listed, files = dict(state[0]), state[1], dict(state[2])
        values = {**files, **cache}
        return (listed, values, files) == (self.listed, self.values, self.stored)

    def parts(self, one):
        if one["op"] == "save":
            return (("save", self.quiet), *(("save", (key,)) for key in self.touched))
        if one["op"] == "child":
            return (("nothing", None),)
        if one["op"] == "clear":
            return tuple(("clear", name) for name in sorted({None, *(k[0] for k in self.touched)}, key=str))
        where = (one["child"], one["tag"])
        if one["op"] == "set":
            return (("set", where), *([("store", where)] if one["how"] == "uncached" else []))
        if one["op"] == "rollback":
            return (("rollback", where), *([("reload", where)] if one["cache"] else []))
        return ((one["op"], where),)

    @staticmethod
    def next_parts(one, parts):
        return parts if one["op"] in ("save", "clear") else parts[:1]

    def apply(self, part, number, at, state):
        """The state after one atomic part; None if its result was another."""
        kind, key = part
        cache, listed, files = dict(state[0]), set(state[1]), dict(state[2])
        one, result = self.tasks[number][at], self.results[number][at]
        expected = ("done", None)
        if kind == "set":
            cache[key] = identity(number, at)
            listed.add(key)
        elif kind == "save":
            files.update((k, cache[k]) for k in key if k in cache)
        elif kind == "store":
            if key in cache:
                files[key] = cache.pop(key)
        elif kind == "save_tag":
            if key in cache:
                files[key] = cache[key]
                if one["drop"]:
                    del cache[key]
            else:
                expected = ("missing", None)
        elif kind == "query":
            value = cache.get(key, files.get(key))
            expected = ("done", value) if value is not None else ("missing", None)
            if one["cache"] and value is not None:
                cache[key] = value
        elif kind == "pop":
            value = cache.get(key, files.get(key))
            gone = value is None and key not in listed
            expected = ("missing", None) if gone and not one["silent"] else ("done", value)
            cache.pop(key, None)
            files.pop(key, None)
            listed.discard(key)
        elif kind == "rollback":
            if key not in files:
                listed.discard(key)
            cache.pop(key, None)
        elif kind == "clear":
            for one_key in [k for k in cache if k[0] == key]:
                if one_key not in files:
                    listed.discard(one_key)
                del cache[one_key]
        elif kind == "reload":
            if key not in cache and key in files:
                cache[key] = files[key]
        if result[0] != expected[0] or (result[0] == "done" and result[1] != expected[1]):
            return None
        return (frozenset(cache.items()), frozenset(listed), frozenset(files.items()))


def evaluate(case):
    path = sut.scratch()
    seen = Observed()
    try:
        try:
            held, stored = sched.run(play(case, path, seen), case["choices"])
        except sched.Stuck as error:
            raise Violation(f"the tasks do not end: {error}") from error
        if not Search(case, seen.results, held, stored).run():
            raise Violation(
                f"no serial order gives the results {sorted(seen.results)} with "
                f"{held[1]} held, {sorted(held[0], key=str)} listed and {stored} stored")
    finally:
        sut.remove_scratch(path)


def nontrivial(case):
    touched = []
    for program in case["tasks"]:
        keys = {(o["child"], o["tag"]) for o in program["ops"] if "tag" in o}
        keys |= {o["name"] for o in program["ops"] if o["op"] == "child"}
        keys |= {o["child"] for o in program["ops"] if o.get("child")}
        keys |= {(None, t) for t in TAGS for o in program["ops"] if o["op"] in ("save", "clear")}
        touched.append(keys)
    changes = any(o["op"] in ("set", "pop", "rollback", "clear", "child") for p in case["tasks"] for o in p["ops"])
    return changes and any(touched[i] & touched[j]
                           for i in range(len(touched)) for j in range(i))


def labels(case):
    kinds = sorted({o["op"] for p in case["tasks"] for o in p["ops"]})
    yield from kinds
    if len(case["tasks"]) == 2 and all(len(p["ops"]) == 1 for p in case["tasks"]):
        yield "pair " + " / ".join(sorted(p["ops"][0]["op"] for p in case["tasks"]))


def clear_cases(tier):
    """The cache cleared at every moment of one other operation."""
    tag = {"child": None, "tag": "a"}
    others = (
        {"op": "set", **tag, "how": "item", "size": 1}, {"op": "set", **tag, "how": "method", "size": 1},
        {"op": "query", **tag, "cache": True}, {"op": "pop", **tag, "silent": True},
        {"op": "rollback", **tag, "cache": True},
    )
    for other in others:
        steps = 3 if other.get("how") == "item" else 7 if tier == "quick" else 20
        for start in ("absent", "stored", "cached", "unsaved-change"):
            for wait in range(steps):
                for choices in ([], [1] * 12):
                    yield {"start": {"a": start, "b": "cached"}, "choices": choices, "tasks": [
                        {"wait": wait, "ops": [{"op": "clear"}]}, {"wait": 1, "ops": [other]}]}


LEDGER_OPS = S.weighted(
    (op("set", child=st.sampled_from(PLACES)), 3), (op("save", how=st.just("all")), 4),
    (op("save", how=st.just("twice")), 1), (op("child", name=st.sampled_from(NAMES)), 1))
ledgers = st.fixed_dictionaries({
    "former": st.integers(0, 2),
    "tasks": st.lists(
        st.fixed_dictionaries({"wait": st.integers(0, 24),
                               "ops": st.lists(LEDGER_OPS, max_size=3).map(
                                   lambda ops: [*ops, {"op": "save", "how": "all"}])}),
        min_size=2, max_size=3),
    #   a write may be overtaken by everything another task does
    "choices": st.lists(st.tuples(st.integers(0, 20), st.sampled_from([1, 60, 199])), max_size=4).map(
        lambda runs: [turns for zeros, long in runs for turns in [*[0] * zeros, long]]),
})


async def play_ledger(case, path):
    """Tasks add tags and save; then only what is on disk counts."""
    db = await aiootp.AsyncDatabase(b"k" * 64, path=path)
    await db.ametatag("kids")
    for number in range(case["former"]):
        await db.aset_tag(f"former {number}", number)
    await db.asave_database()
    children, values = {"kids"}, {(None, f"former {n}"): n for n in range(case["former"])}

    async def task(number, program):
        await sched.turns(program["wait"])
        unsaved, made = {}, set()
        for step, one in enumerate(program["ops"]):
            if one["op"] == "set":
                node = db if one["child"] is None else await db.ametatag(one["child"])
                await node.aset_tag(f"tag {number} {step}", [number, step])
                unsaved[one["child"], f"tag {number} {step}"] = [number, step]
            elif one["op"] == "child":
                await db.ametatag(one["name"])
                made.add(one["name"])
            else:
                await db.asave_database()
                if one["how"] == "twice":
                    await db.asave_database()
                values.update(unsaved)
                children.update(made)

    loop = asyncio.get_running_loop()
    await asyncio.gather(*[loop.create_task(task(n, p)) for n, p in enumerate(case["tasks"])])
    again = await aiootp.AsyncDatabase(b"k" * 64, path=path)
    missing = children - set(again.metatags)
    expect(not missing, lambda: f"the saved children {sorted(missing)} are not listed on disk")
    for (child, tag), value in values.items():
        node = again if child is None else getattr(again, child)
        expect(tag in node.tags, lambda: (
            f"{tag!r} (child: {child}) was set and saved, and is not listed on disk"))
        found = await node.aquery_tag(tag)
        expect(found == value, lambda: f"{tag!r} was saved as {value}, and is {found} on disk")


def evaluate_ledger(case):
    path = sut.scratch()
    try:
        try:
            sched.run(play_ledger(case, path), case["choices"], spread=200)
        except sched.Stuck as error:
            raise Violation(f"the tasks do not end: {error}") from error
    finally:
        sut.remove_scratch(path)


def nontrivial_ledger(case):
    saving = [any(o["op"] == "save" for o in p["ops"]) for p in case["tasks"]]
    adding = [any(o["op"] != "save" for o in p["ops"][:-1]) and p["ops"][-1]["op"] == "save"
              for p in case["tasks"]]
    return any(adding[i] and saving[j] for i in range(len(saving)) for j in range(len(saving)) if i != j)


def ledger_cases(tier):
    """One saves while another adds and saves; one call of the system takes long."""
    for one in ({"op": "set", "child": None}, {"op": "set", "child": "kids"}, {"op": "child", "name": "x"}):
        for wait in (2, 5, 9, 14) if tier == "quick" else range(40):
            for slow in range(36 if tier == "quick" else 80):
                yield {"former": 1, "choices": [0] * slow + [150], "tasks": [
                    {"wait": 1, "ops": [{"op": "save", "how": "all"}]},
                    {"wait": wait, "ops": [one, {"op": "save", "how": "all"}]}]}


PARTS = [
    Sweep("ledgers meanwhile", ledger_cases, evaluate_ledger, nontrivial=nontrivial_ledger),
    Part("ledgers", ledgers, evaluate_ledger, 300, 8000, nontrivial=nontrivial_ledger),
    Sweep("clearing meanwhile", clear_cases, evaluate, nontrivial=nontrivial, labels=labels),
    Part("pairs", pairs, evaluate, 1500, 30000, nontrivial=nontrivial, labels=labels),
    Part("clearing", clearing, evaluate, 250, 8000, nontrivial=nontrivial, labels=labels),
    Part("programs", programs, evaluate, 700, 15000, nontrivial=nontrivial, labels=labels),
]
