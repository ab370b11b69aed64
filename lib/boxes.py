"""
Containers of every family, built from cases: namespaces, slots, slots with
a dictionary, typed slots, and classes of them spread over a hierarchy;
mutable or frozen, masked or open.
"""

import collections.abc
import copy

from hypothesis import strategies as st

from lib import sut
from lib.harness import expect
from lib.sut import aiootp

BASES = {
    **aiootp.commons.namespaces, **aiootp.commons.slots, **aiootp.commons.typed_slots,
}

DECLARED = ("a", "b", "c", "_p")
FREE = ("", "a", "b", "c", "_p", "q", "é", "with space", "class", "x1")
#   names which are no strings: dictionaries take anything hashable
ODD = (0, 1, True, None, 1.5, b"a", ("a", 1), ("a",))

TYPES = {
    "int": int, "str": str, "bytes": bytes, "list": list, "none": type(None), "any": object,
    "float": float, "bool": bool, "number": (int, float), "text": (str, bytes), "mapping": collections.abc.Mapping,
    "hashable": collections.abc.Hashable, "callable": collections.abc.Callable,
}
class Text(str):
    """A string which is not exactly a `str`."""


VALUES = {
    "zero": 0, "one": 1, "big": 2**70, "minus": -1, "true": True, "false": False, "none": None, "empty": "",
    "a": "a", "text": "some text", "bytes": b"bytes", "no bytes": b"", "float": 1.0, "nan": float("nan"),
    "list": [1, 2], "no list": [], "dict": {"a": 1}, "tuple": (1, [2]), "function": len, "class": int,
    "bytearray": bytearray(b"bytes"), "set": {1}, "subclass": Text("a"), "object": object(),
}

names = st.one_of(
    st.sampled_from(DECLARED), st.sampled_from(DECLARED), st.sampled_from(FREE),
    st.integers(0, len(ODD) - 1).map(lambda n: {"odd": n}),
)
values = st.sampled_from(sorted(VALUES))
shapes = st.fixed_dictionaries({
    "kind": st.sampled_from(["namespace", "slots", "hybrid", "typed", "typed hybrid"]),
    "open": st.booleans(), "split": st.integers(0, len(DECLARED)),
    "types": st.lists(st.sampled_from(sorted(TYPES)), min_size=len(DECLARED), max_size=len(DECLARED)),
    "direct": st.booleans(),
})
pairs = st.lists(st.tuples(names, values).map(list), max_size=4)


def name(node):
    return ODD[node["odd"]] if isinstance(node, dict) else node


def value(node):
    return VALUES[node]


def base(shape, frozen):
    prefix = ("Open" if shape["open"] else "") + ("Frozen" if frozen else "")
    stem = {"namespace": "Namespace", "slots": "Slots", "hybrid": "Slots"}.get(shape["kind"], "TypedSlots")
    return BASES[prefix + stem]


def types_of(shape):
    if not shape["kind"].startswith("typed"):
        return {}
    return dict(zip(DECLARED, (TYPES[t] for t in shape["types"])))


_made = {}


def make(shape, frozen):
    """The class of a shape."""
    key = (frozen, shape["kind"], shape["open"], shape["split"], tuple(shape["types"]), shape["direct"])
    if key not in _made:
        _made[key] = _make(shape, frozen)
    return _made[key]


def _make(shape, frozen):
    parent = base(shape, frozen)
    if shape["kind"] == "namespace":
        return parent if shape["direct"] else type("Box", (parent,), {"__slots__": ()})
    declared, types = list(DECLARED), types_of(shape)
    extra = ("__dict__",) if "hybrid" in shape["kind"] else ()
    split = 0 if shape["direct"] else shape["split"]
    # some of the names are declared by a base class, the others here
    for which, has in ((declared[:split], ()), (declared[split:], extra)):
        body = {"__slots__": (*which, *has)}
        if types:
            body["slots_types"] = {n: types[n] for n in which}
        parent = type("Box", (parent,), body)
    return parent


def takes(shape, key):
    """Whether the shape has a place for a name."""
    return shape["kind"] in ("namespace", "hybrid", "typed hybrid") or (
        isinstance(key, str) and key in DECLARED)


def fits(shape, key, item):
    types = types_of(shape)
    return not (isinstance(key, str) and key in types) or isinstance(item, types[key])


def same(one, other):
    """The same values under the same names; values are compared as objects."""
    return len(one) == len(other) and all(k in other and other[k] is v for k, v in one.items())


def view(box):
    return {k: v for k, v in box.items()}


def compare(box, model, order):
    """Every way to look at the container agrees with the dictionary."""
    seen = list(box)
    expect(len(seen) == len(model) and set(seen) == set(model), lambda: (
        f"the container has {seen}, expected {list(model)}"))
    if order:
        expect(seen == list(model), lambda: f"the order is {seen}, expected {list(model)}")
    expect(len(box) == len(model), lambda: f"the length is {len(box)} of {len(model)}")
    expect(bool(box) is bool(model), lambda: f"the truth of a container of {len(model)} is {bool(box)}")
    expect(list(box.keys()) == seen, "keys differ from iteration")
    expect([*box.values()] == [box[n] for n in seen] or all(
        x is box[n] for x, n in zip(box.values(), seen)), "values differ from the items")
    items = list(box.items())
    expect([k for k, _ in items] == seen, "items differ from iteration")
    expect(same(dict(items), model), lambda: f"the items are {items}, expected {model}")
    expect(same(dict(box), model), lambda: f"as a dictionary it is {dict(box)}, expected {model}")
    expect(sut.run(sut.aconsume(box)) == seen, "async iteration differs")
    for key in (*FREE, *ODD):
        inside = key in model
        expect((key in box) is inside, lambda: f"membership of {key!r} is {key in box}, expected {inside}")
        if inside:
            expect(box[key] is model[key], lambda: f"item {key!r} is {box[key]!r}, expected {model[key]!r}")
            if isinstance(key, str):
                expect(getattr(box, key) is model[key], lambda: f"attribute {key!r} is not the item")
        else:
            missing(box, key)


def missing(box, key):
    for look in (lambda: box[key], *([lambda: getattr(box, key)] if isinstance(key, str) else [])):
        try:
            found = look()
        except (AttributeError, KeyError):
            continue
        expect(False, lambda: f"{key!r} is absent and yet found as {found!r}")


def apply(box, op):
    """Performs an operation; returns the error it raised, if any."""
    kind = op["op"]
    try:
        if kind == "setitem":
            box[name(op["name"])] = value(op["value"])
        elif kind == "setattr":
            setattr(box, name(op["name"]), value(op["value"]))
        elif kind == "delitem":
            del box[name(op["name"])]
        elif kind == "delattr":
            delattr(box, name(op["name"]))
        elif kind in ("update", "init"):
            how = op["how"]
            method = box.update if kind == "update" else box.__init__
            data = [(name(n), value(v)) for n, v in op["pairs"]]
            kw = {n: value(v) for n, v in op["kw"] if isinstance(n, str)}
            method(*([dict(data)] if how == "mapping" else [data] if how == "pairs" else
                     [type(box)(dict(data))] if how == "box" else []), **kw)
        elif kind == "clear":
            box.clear()
    except Exception as error:
        return error
    return None


def entries(op):
    """The names and values an update or a creation asks for, in order."""
    data = {} if op["how"] == "kw" else {name(n): value(v) for n, v in op["pairs"]}
    data.update({n: value(v) for n, v in op["kw"] if isinstance(n, str)})
    return data


def copies(box):
    try:
        return copy.copy(box)
    except Exception:
        return None


def op(kind, **fields):
    return st.fixed_dictionaries({"op": st.just(kind), **fields})


updates = {"pairs": pairs, "kw": pairs, "how": st.sampled_from(["mapping", "pairs", "kw", "box"])}
ops = st.one_of(
    op("setitem", name=names, value=values), op("setattr", name=names, value=values),
    op("setitem", name=names, value=values), op("setattr", name=names, value=values),
    op("delitem", name=names), op("delattr", name=names),
    op("update", **updates), op("init", **updates), op("clear"), op("copy"), op("show"),
)
