"""C46: a cancelled asynchronous operation of a database can be repeated and harms nothing else."""

import asyncio
from pathlib import Path

from hypothesis import strategies as st

from lib import sched, sut
from lib import strategies as S
from lib.harness import Part, Sweep, expect
from lib.smalldb import CHILD, KEY, OPS, Model, child_states, content, files, keys, op, states
from lib.sut import aiootp

TECHNIQUE = (
    "property-based exploration of cancellations: generated databases and operations run on a "
    "deterministic loop and are cancelled at a chosen turn, alone or beside another task; a "
    "dictionary model says what is read, listed and stored then and once the operation is repeated"
)
RULE = (
    "a case is a database, an operation and the turn at which it is cancelled; non-trivial when "
    "it had begun and not ended then. Distinct by the whole case."
)
ASSUMPTIONS = (
    "a call handed to a thread either has not begun when its caller is cancelled, and is dropped, "
    "or has ended",
)

OTHERS = S.weighted((st.none(), 2), (op("query"), 2), (op("set_new"), 1), (op("save"), 2), (op("reopen"), 1))


def fitted(case):
    """The same case with what the operation needs, and with another task only where both may succeed."""
    one, root = case["op"], case["root"]
    kind, tag = one["op"], one.get("tag")
    if kind in ("query", "rollback", "pop") and root[tag] in ("absent", "new"):
        root = {**root, tag: "changed" if root[tag] == "new" else "saved"}
    if kind == "save_tag" and root[tag] in ("absent", "saved"):
        root = {**root, tag: "new" if root[tag] == "absent" else "changed"}
    case = {**case, "root": root}
    if kind == "delete_child" and case["child"] is None:
        case["child"] = {"a": "changed", "d": "saved"}
    if kind in ("delete", "delete_child", "pop", "set", "rollback", "load") or one.get("drop"):
        case["other"] = None
    if one.get("drop"):
        case["at"] = case["at"][:1]
    return case


TURNS = S.weighted((st.integers(0, 12), 2), (st.integers(0, 60), 3), (st.integers(0, 250), 2))
cases = st.fixed_dictionaries({
    "root": states, "child": st.one_of(st.none(), child_states, child_states),
    "size": st.sampled_from([1, 1, 700, 2000]),
    "op": S.weighted((OPS, 5), (op("rollback", tag=st.sampled_from(["a", "b", "c"])), 1),
                     (op("query", tag=st.sampled_from(["a", "b", "c"]), cache=st.booleans()), 1),
                     (op("load", manifest=st.booleans()), 2), (op("child"), 1)),
    "other": OTHERS,
    "at": S.weighted((st.lists(TURNS, min_size=1, max_size=1), 2), (st.lists(TURNS, min_size=2, max_size=3), 1)),
    "choices": st.lists(st.integers(0, 5), max_size=30),
}).map(fitted)

LAST = {"cancelled": False}


async def node(db, place):
    return db if place is None else await db.ametatag(place)


async def perform(db, one, case):
    kind, tag = one["op"], one.get("tag")
    if kind == "save":
        await db.asave_database()
    elif kind == "exit":
        async with db:
            pass
    elif kind == "save_tag":
        await db.asave_tag(tag, drop_cache=one["drop"])
    elif kind == "set":
        await db.aset_tag(tag, content(999, case["size"]), cache=False)
    elif kind == "pop":
        await db.apop_tag(tag, silent=one["silent"])
    elif kind == "delete_child":
        await db.adelete_metatag(CHILD)
    elif kind == "delete":
        await db.adelete_database()
    elif kind == "rollback":
        await db.arollback_tag(tag)
    elif kind == "query":
        await db.aquery_tag(tag, cache=one["cache"])
    elif kind == "load":
        await db.aload_database(manifest=one["manifest"], preload=True)
    elif kind == "child":
        await db.ametatag("more")


async def beside(db, one, case, home, model):
    """Another task, which nobody cancels and which succeeds."""
    if one is None:
        return
    if one["op"] == "query":
        for key in keys(case):
            if key[0] is None and model.value(key) is not None:
                found = await db.aquery_tag(key[1])
                expect(found == model.value(key), lambda: f"meanwhile {key} read as {found}")
    elif one["op"] == "set_new":
        await db.aset_tag("z", content(7, 1))
        await db.asave_tag("z")
    elif one["op"] == "save":
        await db.asave_database()
    elif one["op"] == "reopen":
        await aiootp.AsyncDatabase(KEY, path=home)


async def prepare(case, home, model):
    db = await aiootp.AsyncDatabase(KEY, path=home)
    await db.asave_database()
    ledgers = {None: await db.afilename("") and {p.name for p in Path(home).iterdir()}}
    if case["child"] is not None:
        await db.ametatag(CHILD)
        await db.asave_database()
        ledgers[CHILD] = {p.name for p in Path(home).iterdir()} - ledgers[None]
    for (place, tag), value in model.saved.items():
        await (await node(db, place)).aset_tag(tag, value)
    await db.asave_database()
    await db.aclear_cache()
    names = {}
    for key in keys(case):
        here = await node(db, key[0])
        names[key] = await here.afilename(key[1])
        if key in model.held:
            await here.aset_tag(key[1], model.held[key])
    (Path(home) / "foreign").write_bytes(b"not of this database")
    return db, ledgers, names


async def read(db, key):
    try:
        return "value", await (await node(db, key[0])).aquery_tag(key[1])
    except Exception as error:  # noqa: BLE001
        return "none", repr(error)[:80]


async def play(case, home):
    one, model = case["op"], Model(case)
    kind, tag = one["op"], one.get("tag")
    target = (None, tag)
    loop = asyncio.get_running_loop()
    choices, loop.choices = loop.choices, []
    db, ledgers, names = await prepare(case, home, model)
    before = files(home)
    loop.choices, loop.at = choices, 0
    other = asyncio.ensure_future(beside(db, case["other"], case, home, model))
    for number, at in enumerate(case["at"]):
        if number and gone(one, home, db):
            break
        task = asyncio.ensure_future(perform(db, {**one, "silent": True} if number else one, case))
        await sched.turns(at)
        cancelled = task.cancel()
        LAST["cancelled"] |= cancelled and at > 0
        try:
            await task
            expect(not cancelled, "the operation went on to its end although it was cancelled")
        except asyncio.CancelledError:
            pass
        if not cancelled:
            break
    await other
    left = asyncio.all_tasks() - {asyncio.current_task()}
    await asyncio.gather(*left, return_exceptions=True)
    loop.choices = []
    if case["other"] and case["other"]["op"] == "set_new":
        case = {**case, "root": {**case["root"], "z": "cached"}}
        model.saved[None, "z"] = model.held[None, "z"] = content(7, 1)
        names[None, "z"] = await db.afilename("z")
    if kind not in ("delete", "delete_child"):
        await still_there(case, db, model, target)
    after = files(home)
    expect(after.get("foreign") == before["foreign"], "a foreign file was changed")
    if cancelled and not gone(one, home, db):
        if kind == "save_tag" and one["drop"]:
            await db.aset_tag(tag, model.value(target))
        await perform(db, {**one, "silent": True}, case)
    await finished(case, home, db, model, ledgers, names, target)


def gone(one, home, db):
    """What was to be deleted is, so that nothing is left to repeat."""
    if one["op"] == "delete":
        return set(files(home)) == {"foreign"}
    return one["op"] == "delete_child" and CHILD not in db.metatags


async def still_there(case, db, model, target):
    """Whatever the operation was not to remove or replace is as it was."""
    one = case["op"]
    kind = one["op"]
    for key in keys(case):
        old, wanted = model.saved.get(key), model.value(key)
        found = await read(db, key)
        loose = key == target and (kind in ("set", "pop", "rollback") or one.get("drop")) or (
            kind == "load" and key in model.held and model.held[key] != old)
        listed = key[1] in (await node(db, key[0])).tags
        if loose:
            allowed = [old, wanted, content(999, case["size"]) if kind == "set" else None]
            expect(found[0] == "none" or found[1] is None or found[1] in allowed, lambda: (
                f"{key} reads as {found[1]} after the cancellation; it was {wanted}"))
            if kind in ("rollback", "load") and old is not None:
                expect(listed and found[1] in (old, wanted), lambda: (
                    f"{key} is {'' if listed else 'not '}listed and reads as {found[1]} after the cancellation"))
            continue
        expect(listed == (wanted is not None), lambda: (
            f"{key} is {'' if listed else 'not '}listed after the cancellation; its value is {wanted}"))
        if wanted is None:
            expect(found[0] == "none", lambda: f"{key} reads as {found[1]}, and was never set")
        else:
            expect(found == ("value", wanted), lambda: (
                f"{key} reads as {found[1]} after the cancellation; it was {wanted}"))


async def finished(case, home, db, model, ledgers, names, target):
    """Once the operation was repeated, everything is as usual."""
    one = case["op"]
    kind = one["op"]
    if kind == "delete":
        remain = set(files(home))
        expect(remain == {"foreign"}, lambda: f"after deleting again there remain {sorted(remain)}")
        return
    wanted = {key: model.value(key) for key in names if model.value(key) is not None}
    loose = set()
    if kind == "set":
        wanted[target] = content(999, case["size"])
    elif kind == "pop":
        wanted.pop(target, None)
        expect(names[target] not in files(home), "the file of a popped tag remains")
    elif kind == "rollback":
        wanted[target] = model.saved[target]
    elif kind == "delete_child":
        owned = ledgers[CHILD] | {names[k] for k in names if k[0] == CHILD}
        remain = owned & set(files(home))
        expect(not remain, lambda: f"after deleting a child again there remain {sorted(remain)}")
        wanted = {key: value for key, value in wanted.items() if key[0] is None}
    elif kind == "load":
        loose = {key for key in names if key in model.held and model.held[key] != model.saved.get(key)}
    await db.asave_database()
    fresh = await aiootp.AsyncDatabase(KEY, path=home)
    places = [place for place in ledgers if not (place == CHILD and kind == "delete_child")]
    children = set(places) - {None} | ({"more"} if kind == "child" else set())
    expect(set(fresh.metatags) == children, lambda: f"the children are {fresh.metatags} instead of {children}")
    for place in places:
        here = await node(fresh, place)
        tags = {key[1] for key in wanted if key[0] == place}
        drifting = {key[1] for key in loose if key[0] == place}
        expect(set(here.tags) - drifting == tags - drifting, lambda: f"the tags of {place} are {here.tags} instead of {tags}")
        for key in [key for key in wanted if key[0] == place and key not in loose]:
            found = await read(fresh, key)
            expect(found == ("value", wanted[key]), lambda: (
                f"{key} is {wanted[key]} and reads as {found[1]} once the operation was repeated"))


def evaluate(case):
    LAST["cancelled"] = False
    home = sut.scratch()
    try:
        try:
            sched.run(play(case, home), case["choices"], limit=60000)
        except sched.Stuck as error:
            expect(False, f"after the cancellation: {error}", key="stuck")
    finally:
        sut.remove_scratch(home)


def nontrivial(case):
    # judged after the case has run
    return LAST["cancelled"]


def labels(case):
    yield case["op"]["op"]
    yield "beside " + (case["other"]["op"] if case["other"] else "nothing")


def every_turn(tier):
    """Each kind of operation is cancelled at each of its turns."""
    root = {"a": "changed", "b": "new", "c": "saved"}
    for one, most in (
        ({"op": "save"}, 60), ({"op": "save_tag", "tag": "a", "drop": False}, 40),
        ({"op": "save_tag", "tag": "a", "drop": True}, 40), ({"op": "set", "tag": "a"}, 40),
        ({"op": "pop", "tag": "a", "silent": False}, 60), ({"op": "pop", "tag": "c", "silent": True}, 60),
        ({"op": "delete_child"}, 60), ({"op": "delete"}, 90), ({"op": "rollback", "tag": "a"}, 40),
        ({"op": "query", "tag": "c", "cache": True}, 40), ({"op": "load", "manifest": False}, 60), ({"op": "load", "manifest": True}, 60), ({"op": "child"}, 60),
    ):
        for at in range(most):
            yield {"root": root, "child": {"a": "changed", "d": "saved"}, "size": 1, "op": one, "other": None,
                   "at": [at], "choices": []}


PARTS = [
    Sweep("every turn", every_turn, evaluate, nontrivial=nontrivial, labels=labels, timeout=120),
    Part("cancellations", cases, evaluate, 700, 25000, nontrivial=nontrivial, labels=labels, timeout=120),
]
