"""A small database in a chosen state, for the checks that disturb its operations (C45, C46)."""

from pathlib import Path

from hypothesis import strategies as st

from lib import strategies as S

ROOT_TAGS, CHILD_TAGS, CHILD = ["a", "b", "c"], ["a", "d"], "kids"
KEY = b"k" * 64
STATES = ("absent", "saved", "saved", "changed", "new", "cached")
states = st.fixed_dictionaries({t: st.sampled_from(STATES) for t in ROOT_TAGS})
child_states = st.fixed_dictionaries({t: st.sampled_from(STATES) for t in CHILD_TAGS})


def op(kind, /, **fields):
    return st.fixed_dictionaries({"op": st.just(kind), **fields})


OPS = S.weighted(
    (op("save"), 5), (op("save_tag", tag=st.sampled_from(ROOT_TAGS), drop=st.booleans()), 3),
    (op("set", tag=st.sampled_from(ROOT_TAGS)), 2),
    (op("pop", tag=st.sampled_from(ROOT_TAGS), silent=st.booleans()), 3),
    (op("delete_child"), 2), (op("delete"), 2), (op("exit"), 1),
)


def content(number, size):
    return [number, "v" * size]


class Model:
    def __init__(self, case):
        self.saved, self.held = {}, {}
        number = 0
        for place, tags in ((None, case["root"]), (CHILD, case["child"] or {})):
            for tag, state in tags.items():
                number += 10
                if state in ("saved", "changed", "cached"):
                    self.saved[place, tag] = content(number, case["size"])
                if state in ("changed", "new", "cached"):
                    self.held[place, tag] = content(number + (state != "cached"), case["size"])

    def value(self, key):
        return self.held.get(key, self.saved.get(key))


def keys(case):
    yield from ((None, tag) for tag in case["root"])
    yield from ((CHILD, tag) for tag in case["child"] or ())


def files(home):
    return {p.name: p.read_bytes() for p in Path(home).iterdir() if p.is_file()}


def valid(case):
    one = case["op"]
    if one["op"] == "delete_child":
        return case["child"] is not None
    if one["op"] == "save_tag":
        return case["root"][one["tag"]] in ("changed", "new", "cached")
    if one["op"] == "pop":
        return case["root"][one["tag"]] != "absent"
    return True
