"""C31: containers behave as mappings and enforce declared types."""

from hypothesis import strategies as st

from lib import boxes as B
from lib.harness import Part, Sweep, expect
from lib.sut import aiootp

TECHNIQUE = (
    "stateful model-based property testing: generated container classes (namespaces, "
    "slots, typed slots, hierarchies of them) and histories of operations, compared "
    "with a plain dictionary through every way of looking at them after every step"
)
RULE = (
    "a case is a generated container class, its initial values and a history; "
    "non-trivial when a name is set and later replaced, deleted or refused. "
    "Distinct by the whole case."
)
ASSUMPTIONS = (
    "names that are attributes of every such class (keys, update, double underscores) "
    "are only judged where they are reserved; an update that is refused half way may or "
    "may not have set the names before the refused one",
)

histories = st.fixed_dictionaries({
    "shape": B.shapes, "start": B.op("init", **{**B.updates, "how": st.sampled_from(["mapping", "pairs", "kw"])}),
    "ops": st.lists(B.ops, min_size=3, max_size=14),
})
RESERVED = ("keys", "values", "items", "update", "clear")


def refuses(shape, data):
    """The first name of an update which cannot be taken."""
    for key, item in data.items():
        if not (B.takes(shape, key) and B.fits(shape, key, item)):
            return True
    return False


def merged(box, model, shape, data, error, what):
    """An update: all of it, or, when refused, nothing but taken names."""
    if refuses(shape, data):
        expect(error is not None, lambda: f"{what} of {data} is accepted by {shape['kind']} {shape['types']}")
        now = B.view(box)
        for key, item in now.items():
            before = model.get(key, box)
            expect(item is before or (item is data.get(key, box) and B.takes(shape, key)
                                      and B.fits(shape, key, item)),
                   lambda: f"a refused {what} of {data} leaves {key!r} as {item!r}")
        expect(all(key in now for key in model), f"a refused {what} removes names")
        # which of the new names were set is not judged
        for key in [*model, *(k for k in data if k in now and k not in model)]:
            model[key] = now[key]
    else:
        expect(error is None, lambda: f"{what} of {data} is refused by {shape['kind']} {shape['types']}: {error!r}")
        model.update(data)


def evaluate(case):
    shape = case["shape"]
    cls = B.make(shape, False)
    data, model = B.entries(case["start"]), {}
    start = case["start"]
    pairs = [(B.name(n), B.value(v)) for n, v in start["pairs"]]
    kw = {n: B.value(v) for n, v in start["kw"] if isinstance(n, str)}
    args = [] if start["how"] == "kw" else [dict(pairs) if start["how"] == "mapping" else pairs]
    try:
        box = cls(*args, **kw)
    except Exception as error:
        expect(refuses(shape, data), lambda: f"{shape['kind']} refuses {data}: {error!r}")
        box = cls()
    else:
        expect(not refuses(shape, data), lambda: f"{shape['kind']} {shape['types']} is created from {data}")
        model.update(data)
    order = shape["kind"] == "namespace"
    for step in case["ops"]:
        play(shape, cls, box, model, step)
        B.compare(box, model, order)


def play(shape, cls, box, model, step):
    kind = step["op"]
    if kind == "show":
        for shown in (repr(box), str(box), f"{box}", "%s" % box, str(box.__dir__())):
            expect(isinstance(shown, str) and shown, "a container cannot be displayed")
        return
    if kind == "copy":
        twin = B.copies(box)
        if twin is not None and twin is not box:
            B.compare(twin, model, shape["kind"] == "namespace")
            twin.clear()
            B.compare(twin, {}, False)
        return
    if kind in ("setattr", "delattr") and not isinstance(B.name(step["name"]), str):
        return
    if kind in ("update", "init"):
        if step["how"] == "box":
            # the other container takes only what it has a place for
            pairs = [(n, v) for n, v in step["pairs"] if B.takes(shape, B.name(n))
                     and B.fits(shape, B.name(n), B.value(v))]
            step = {**step, "pairs": pairs}
            data = B.view(cls(dict((B.name(n), B.value(v)) for n, v in pairs)))
            data.update({n: B.value(v) for n, v in step["kw"] if isinstance(n, str)})
        else:
            data = B.entries(step)
        merged(box, model, shape, data, B.apply(box, step), "an update")
        return
    error = B.apply(box, step)
    if kind == "clear":
        expect(error is None, lambda: f"clearing raises {error!r}")
        model.clear()
        return
    key = B.name(step["name"])
    if kind.startswith("set"):
        item = B.value(step["value"])
        wanted = B.takes(shape, key) and B.fits(shape, key, item)
        expect((error is None) is wanted, lambda: (
            f"{shape['kind']} {B.types_of(shape).get(key) if isinstance(key, str) else ''} "
            f"{'refuses' if wanted else 'accepts'} {key!r} = {item!r}: {error!r}"))
        if wanted:
            model[key] = item
        elif not B.fits(shape, key, item):
            expect(isinstance(error, TypeError), lambda: f"a value of a wrong type raises {error!r}")
    else:
        expect((error is None) is (key in model), lambda: (
            f"deleting {key!r}, which is {'there' if key in model else 'absent'}: {error!r}"))
        model.pop(key, None)


# ------------------------------------------------------------ declarations

declarations = st.fixed_dictionaries({
    "slots": st.lists(st.sampled_from(["a", "b", "c", "__dict__"]), unique=True, max_size=4),
    "types": st.lists(st.tuples(st.sampled_from(["a", "b", "c", "d", "__dict__"]),
                                st.sampled_from([*sorted(B.TYPES), "list[int]", "3", "text int"])).map(list),
                      max_size=4, unique_by=lambda p: p[0]),
    "frozen": st.booleans(), "open": st.booleans(), "again": st.sampled_from(sorted(B.TYPES)),
    "reserved": st.sampled_from([None, None, *RESERVED]),
})
UNCHECKABLE = {"list[int]": list[int], "3": 3, "text int": "int"}


def evaluate_declarations(case):
    """A typed class is accepted exactly when names and types match up."""
    base = B.base({"kind": "typed", "open": case["open"]}, case["frozen"])
    types = {n: UNCHECKABLE.get(t, B.TYPES.get(t)) for n, t in case["types"]}
    slots = [*case["slots"]] + ([case["reserved"]] if case["reserved"] else [])
    if case["reserved"]:
        types[case["reserved"]] = int
    valid = (
        set(types) == {s for s in slots if s != "__dict__"}
        and not any(t in UNCHECKABLE for _, t in case["types"]) and case["reserved"] is None
    )
    try:
        cls = type("Made", (base,), {"__slots__": tuple(slots), "slots_types": types})
    except Exception as error:
        expect(not valid, lambda: f"slots {slots} with types {types} are refused: {error!r}")
        return
    expect(valid, lambda: f"slots {slots} with types {types} are accepted")
    # the declaration is a copy, and belongs to this class alone
    types.clear()
    box = cls()
    for key, kind in case["types"]:
        for item in B.VALUES.values():
            box = cls()
            try:
                box[key] = item
            except TypeError:
                expect(not isinstance(item, B.TYPES[kind]), lambda: f"{item!r} is refused as {kind}")
                expect(key not in box, f"a refused value is kept")
            else:
                expect(isinstance(item, B.TYPES[kind]), lambda: f"{item!r} is accepted as {kind}")
                expect(box[key] is item, "another value is kept")
    child = type("Child", (cls,), {"__slots__": ("z",), "slots_types": {"z": int}})
    for one, has in ((child(), True), (cls(), "__dict__" in slots)):
        try:
            one.z = "text"
        except (TypeError, AttributeError):
            expect(not has or isinstance(one, child), "an undeclared name is typed")
        else:
            expect(not isinstance(one, child), "an inherited class ignores its own types")
    # a child class may declare another type for an inherited name
    for key, kind in case["types"][:1]:
        other = type("Other", (cls,), {"__slots__": (), "slots_types": {key: B.TYPES[case["again"]]}})
        last = type("Last", (other,), {"__slots__": (), "slots_types": {}})
        for make, now in ((other, case["again"]), (last, case["again"]), (cls, kind)):
            for item in B.VALUES.values():
                try:
                    make()[key] = item
                except TypeError:
                    expect(not isinstance(item, B.TYPES[now]), lambda: f"{item!r} is refused as redeclared {now}")
                else:
                    expect(isinstance(item, B.TYPES[now]), lambda: f"{item!r} is accepted as redeclared {now}")
    for key, kind in case["types"]:
        item = B.VALUES["object"]
        try:
            child()[key] = item
        except TypeError:
            expect(not isinstance(item, B.TYPES[kind]), "a child class refuses what its base declares")
        else:
            expect(isinstance(item, B.TYPES[kind]), "a child class ignores the types of its base")


reserved = st.fixed_dictionaries({
    "shape": B.shapes, "frozen": st.booleans(), "name": st.sampled_from(RESERVED),
    "how": st.sampled_from(["setitem", "setattr", "update"]), "value": B.values,
})


def evaluate_reserved(case):
    """Names of the mapping's own methods can never be taken."""
    box = B.make(case["shape"], case["frozen"])()
    item = B.value(case["value"])
    try:
        if case["how"] == "setitem":
            box[case["name"]] = item
        elif case["how"] == "setattr":
            setattr(box, case["name"], item)
        else:
            box.update({case["name"]: item})
    except Exception:
        pass
    else:
        expect(False, lambda: f"the name {case['name']} is taken")
    B.compare(box, {}, False)


def replacements(tier):
    for kind in ("typed", "typed hybrid"):
        for types in B.TYPES:
            for first in B.VALUES:
                if isinstance(B.VALUES[first], B.TYPES[types]):
                    for direct in (True, False):
                        yield {"kind": kind, "types": types, "first": first, "direct": direct}


def evaluate_replacements(case):
    """A value which is there doesn't change what may replace it, equal or not."""
    shape = {"kind": case["kind"], "open": False, "split": 2, "types": [case["types"]] * len(B.DECLARED), "direct": case["direct"]}
    cls, first = B.make(shape, False), B.value(case["first"])
    for at, (name, second) in enumerate(B.VALUES.items()):
        box = cls(a=first, b=first)
        for way in ("setitem", "setattr", "update"):
            kept = box["a"]
            error = B.apply(box, {"op": way, "name": "a", "value": name, "how": "mapping", "pairs": [["a", name]], "kw": []})
            wanted = isinstance(second, B.TYPES[case["types"]])
            expect((error is None) is wanted, lambda: (
                f"{way} of {second!r} over {kept!r}, declared {case['types']}, is {'refused' if wanted else 'accepted'}"))
            B.compare(box, {"a": second if wanted else kept, "b": first}, False)


def wide(tier):
    for kind in ("namespace", "slots", "hybrid"):
        for count in (100, 255, 256, 257, 300, 1000) + ((5000,) if tier == "thorough" else ()):
            for frozen in (False, True):
                yield {"kind": kind, "count": count, "frozen": frozen}


def evaluate_wide(case):
    """Many names are no different."""
    names = [f"n{at}" for at in range(case["count"])]
    parent = B.base({"kind": case["kind"], "open": False}, case["frozen"])
    cls = parent if case["kind"] == "namespace" else type("Wide", (parent,), {
        "__slots__": tuple(names if case["kind"] == "slots" else [*names[::2], "__dict__"])})
    order = case["kind"] != "hybrid"
    whole = {name: [at] for at, name in enumerate(names)}
    boxes = [cls(whole), cls(**whole), cls(), cls()]
    boxes[2].update(whole)
    for name in names:
        boxes[3][name] = whole[name]
    for box in boxes:
        B.compare(box, whole, order)
        expect(all(name in box and getattr(box, name) is whole[name] for name in names), "names are lost")
    box, model = boxes[0], dict(whole)
    if case["frozen"]:
        return
    for name in names[::3]:
        del box[name]
        del model[name]
    B.compare(box, model, order)
    box.update({name: name for name in names[1::3]})
    model.update({name: name for name in names[1::3]})
    B.compare(box, model, order)
    box.clear()
    B.compare(box, {}, order)


def nontrivial(case):
    seen = set()
    for n, _ in case["start"]["pairs"]:
        seen.add(str(n))
    for step in case["ops"]:
        if step["op"] == "clear" and seen:
            return True
        if "name" in step:
            if str(step["name"]) in seen:
                return True
            if step["op"].startswith("set"):
                seen.add(str(step["name"]))
    return False


def labels(case):
    yield case["shape"]["kind"]
    for step in case["ops"]:
        yield step["op"]
    if 0 < case["shape"]["split"] < len(B.DECLARED) and not case["shape"]["direct"]:
        yield "hierarchy"


PARTS = [
    Part("histories", histories, evaluate, 1500, 30000, nontrivial=nontrivial, labels=labels),
    Part("declarations", declarations, evaluate_declarations, 400, 6000,
         nontrivial=lambda c: bool(c["types"])),
    Sweep("replacing a value", replacements, evaluate_replacements),
    Sweep("many names", wide, evaluate_wide, labels=lambda case: [f"{case['count']} names"]),
    Part("reserved names", reserved, evaluate_reserved, 150, 2000),
]
