"""C42: stored databases and profiles keep their format."""

import os

from hypothesis import strategies as st

from lib import refdb
from lib import strategies as S
from lib import sut
from lib.dbmodel import same, value_of, values
from lib.harness import Part, Violation, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "differential property-based testing against an independent implementation of the stored "
    "format: generated databases, children, ciphertexts and profiles written by either side must "
    "be read in full by the other"
)
RULE = (
    "a case is a tree of databases, or a profile, with the side that writes it; non-trivial when "
    "at least one value is stored. Distinct by the whole case."
)
ASSUMPTIONS = (
    "the reference in lib/refdb.py is the format of the released version: it was written from its "
    "code and reads and writes what the unchanged version does",
)

tags = st.one_of(st.sampled_from(["a", "b", "", "0", "1", "é", "a\x00", "tag " * 30]), st.text(max_size=12).filter(
    lambda text: text.isprintable()))
shelves = st.integers(0, 3).flatmap(lambda size: st.lists(
    st.tuples(tags, values), min_size=size, max_size=3, unique_by=lambda pair: pair[0])).map(lambda pairs: [list(pair) for pair in pairs])
names = st.sampled_from(["kids", "x", "0", "a", "é", "two words"])


def trees(depth):
    inner = st.lists(st.tuples(names, trees(depth - 1)), max_size=2, unique_by=lambda pair: pair[0]).map(
        lambda pairs: [list(pair) for pair in pairs]) if depth else st.just([])
    return st.fixed_dictionaries({"values": shelves, "children": inner})


sealings = st.lists(st.fixed_dictionaries({
    "how": st.sampled_from(["bytes", "json", "token"]), "file": st.sampled_from(["", "a", "file", "é"]), "aad": S.aads,
    "data": S.blobs(0, 40), "is_async": st.booleans()}), max_size=2)
databases = st.fixed_dictionaries({
    "key": S.keys, "tree": trees(2), "more": shelves, "is_async": st.booleans(), "preload": st.booleans(),
    "sealings": sealings, "entropy": st.integers(0, 2**16)})


def contents(tree):
    return {tag: value_of(node) for tag, node in tree["values"]}, {name: contents(inner) for name, inner in tree["children"]}


def do(base, is_async, name, *args, **kw):
    if is_async:
        return sut.run(getattr(base, "a" + name)(*args, **kw))
    return getattr(base, name)(*args, **kw)


def make(is_async, *args, **kw):
    if is_async:
        async def build():
            return await aiootp.AsyncDatabase(*args, **kw)
        return sut.run(build())
    return aiootp.Database(*args, **kw)


def fill(base, is_async, held):
    for tag, value in held[0].items():
        do(base, is_async, "set_tag", tag, value)
    for name, inner in held[1].items():
        fill(do(base, is_async, "metatag", name), is_async, inner)


def alike(left, right):
    return set(left[0]) == set(right[0]) and all(same(left[0][tag], right[0][tag]) for tag in left[0]) and set(left[1]) == set(
        right[1]) and all(alike(left[1][name], right[1][name]) for name in left[1])


def dump(base, is_async):
    return ({tag: do(base, is_async, "query_tag", tag) for tag in base.tags},
            {name: dump(do(base, is_async, "metatag", name), is_async) for name in base.metatags})


def reference_reads(folder, store, held, what):
    used = set()
    try:
        found = store.read(used)
    except FileNotFoundError as error:
        raise Violation(f"{what}: there is no file {os.path.basename(str(error.filename))}, where the format has it") from None
    except (refdb.Damaged, ValueError, KeyError) as error:
        raise Violation(f"{what}: the files cannot be read in the stored format ({type(error).__name__} {error})") from None
    expect(alike(found, held), lambda: f"{what}: the files hold {found!r} and not {held!r}")
    there = {name for name in os.listdir(folder) if os.path.isfile(os.path.join(folder, name))}
    expect(there == used, lambda: f"{what}: files {sorted(there ^ used)} are not those of the format")


def evaluate_writing(case):
    folder = sut.scratch()
    try:
        held = contents(case["tree"])
        base = make(case["is_async"], blob(case["key"]), path=folder)
        fill(base, case["is_async"], held)
        do(base, case["is_async"], "save_database")
        store = refdb.Store(folder, blob(case["key"]))
        reference_reads(folder, store, held, "written by the package")
        exchange(case, base, store)
    finally:
        sut.remove_scratch(folder)


def evaluate_reading(case):
    folder = sut.scratch()
    try:
        held = contents(case["tree"])
        store = refdb.Store(folder, blob(case["key"]))
        store.write(*held, b"%d" % case["entropy"])
        base = make(case["is_async"], blob(case["key"]), path=folder, preload=case["preload"])
        found = dump(base, case["is_async"])
        expect(alike(found, held), lambda: f"stored are {held!r}, the package reads {found!r}")
        exchange(case, base, store)
        more = {tag: value_of(node) for tag, node in case["more"]}
        fill(base, case["is_async"], (more, {}))
        do(base, case["is_async"], "save_database")
        reference_reads(folder, store, ({**held[0], **more}, held[1]), "written again by the package")
    finally:
        sut.remove_scratch(folder)


def exchange(case, base, store):
    """Ciphertexts made with the keys of a database."""
    for each in case["sealings"]:
        data, aad = blob(each["data"]), blob(each["aad"])
        key, entropy = store.file_key(each["file"], aad), b"seal%d" % case["entropy"]
        named = {"filename": each["file"], "aad": aad}
        if each["how"] == "token":
            theirs = refdb.from_text(do(base, case["is_async"], "make_token", data, **named))
            ours = refdb.to_text(refdb.seal("Slick256", key, data, entropy))
            opened = do(base, case["is_async"], "read_token", ours, **named)
            read = refdb.unseal("Slick256", key, theirs)
        elif each["how"] == "json":
            theirs = do(base, case["is_async"], "json_encrypt", data.hex(), **named)
            opened = bytes.fromhex(do(base, case["is_async"], "json_decrypt", refdb.seal(
                "Chunky2048", key, b'"%s"' % data.hex().encode(), entropy), **named))
            read = bytes.fromhex(refdb.json.loads(refdb.unseal("Chunky2048", key, theirs)))
        else:
            theirs = do(base, case["is_async"], "bytes_encrypt", data, **named)
            opened = do(base, case["is_async"], "bytes_decrypt", refdb.seal("Chunky2048", key, data, entropy), **named)
            read = refdb.unseal("Chunky2048", key, theirs)
        expect(opened == data, lambda: f"a stored {each['how']} ciphertext of {data!r} opens as {opened!r}")
        expect(read == data, lambda: f"a {each['how']} ciphertext of {data!r} reads as {read!r} in the stored format")


# ------------------------------------------------------------------ profiles

pieces = st.one_of(st.sampled_from([{"h": ""}, {"h": "61"}]), S.blobs(0, 20), S.sized_blobs(S.near([64, 136, 168], spread=1)))
profiles = st.fixed_dictionaries({
    "username": pieces, "passphrase": pieces.filter(lambda piece: blob(piece)), "salt": pieces, "aad": pieces, "others": st.lists(pieces, max_size=2),
    "cost": st.sampled_from([[1, 1, 1], [1, 1, 1], [2, 1, 2], [1, 2, 1], [1, 3, 1]]), "is_async": st.booleans(), "by": st.sampled_from(["package", "format"]),
    "values": shelves, "entropy": st.integers(0, 2**16)})


def evaluate_profiles(case):
    folder = sut.scratch()
    try:
        given = {n: blob(case[n]) for n in ("username", "passphrase", "salt", "aad")}
        others = [blob(piece) for piece in case["others"]]
        costs = dict(zip(("mb", "cpu", "cores"), case["cost"]))
        held = ({tag: value_of(node) for tag, node in case["values"]}, {})

        def read(path):
            if not os.path.exists(path):
                raise Violation(f"there is no salt file {os.path.relpath(path, folder)}, where the format has it")
            os.chmod(path, 0o600)
            with open(path, "rb") as file:
                salt = file.read()
            os.chmod(path, 0)
            return salt

        def write(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as file:
                file.write(refdb.R.shake_128(b"%d" % case["entropy"] + os.path.basename(path).encode()).digest(32))
            return read(path)

        if case["by"] == "format":
            key = refdb.profile(folder, others=others, **given, **costs, summon=write)
            refdb.Store(folder, key).write(*held, b"%d" % case["entropy"])
        if case["is_async"]:
            base = sut.run(aiootp.AsyncDatabase.agenerate_profile(*others, **given, **costs, path=folder))
        else:
            base = aiootp.Database.generate_profile(*others, **given, **costs, path=folder)
        if case["by"] == "format":
            found = dump(base, case["is_async"])
            expect(alike(found, held), lambda: f"the profile holds {held!r}, the package reads {found!r}")
        else:
            fill(base, case["is_async"], held)
            do(base, case["is_async"], "save_database")
            key = refdb.profile(folder, others=others, **given, **costs, summon=read)
            reference_reads(folder, refdb.Store(folder, key), held, "profile")
    finally:
        sut.remove_scratch(folder)


def stored(case):
    return bool(case["tree"]["values"] or any(inner["values"] for _, inner in case["tree"]["children"]))


def labels(case):
    yield f"{len(case['tree']['values'])} values"
    yield f"{len(case['tree']['children'])} children"
    if any(inner["children"] for _, inner in case["tree"]["children"]):
        yield "grandchildren"
    for each in case["sealings"]:
        yield each["how"]


PARTS = [
    Part("written by the package", databases, evaluate_writing, 200, 4000, nontrivial=stored, labels=labels),
    Part("read by the package", databases, evaluate_reading, 200, 4000, nontrivial=stored, labels=labels),
    Part("profiles", profiles, evaluate_profiles, 40, 800, nontrivial=lambda case: bool(case["values"]),
         labels=lambda case: [f"by the {case['by']}", f"cost {case['cost']}"]),
]
