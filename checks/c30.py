"""C30: frozen containers never change once set."""

from hypothesis import strategies as st

from lib import boxes as B
from lib import sut
from lib.harness import Part, Sweep, expect
from lib.sut import aiootp

TECHNIQUE = (
    "stateful model-based property testing: generated frozen classes and histories of "
    "every kind of write against a set-once model; the package's own frozen objects are "
    "collected and attacked the same way with every value compared by identity"
)
RULE = (
    "a case is a frozen class or object and a history of writes; non-trivial when at "
    "least one write aims at a value that is already set. Distinct by the whole case."
)
ASSUMPTIONS = (
    "writing into an object's own __dict__ or through object.__setattr__ is documented "
    "as unsupported and not generated; an update that is refused half way may or may "
    "not have set names that were unset",
)

histories = st.fixed_dictionaries({
    "shape": B.shapes, "ops": st.lists(B.ops, min_size=4, max_size=16),
    "start": st.lists(st.tuples(B.names, B.values).map(list), max_size=4),
})


def can_set(shape, model, key, item):
    return key not in model and B.takes(shape, key) and B.fits(shape, key, item)


def attempt(shape, box, model, step):
    """One operation on a set-once container and what it may do."""
    kind = step["op"]
    if kind in ("setattr", "delattr") and not isinstance(B.name(step["name"]), str):
        return
    if kind in ("copy", "show"):
        if kind == "show":
            repr(box), str(box), f"{box}"
        else:
            twin = B.copies(box)
            if twin is not None and twin is not box:
                expect(B.same(B.view(twin), model), "a copy has other values")
        return
    if kind in ("update", "init") and step["how"] == "box":
        step = {**step, "how": "mapping"}
    error = B.apply(box, step)
    if kind in ("setitem", "setattr"):
        key, item = B.name(step["name"]), B.value(step["value"])
        wanted = can_set(shape, model, key, item)
        expect((error is None) is wanted, lambda: (
            f"setting {key!r} {'again' if key in model else 'to ' + repr(item)} on a frozen {shape['kind']} "
            f"{'is accepted' if error is None else f'is refused: {error!r}'}"))
        if wanted:
            model[key] = item
    elif kind in ("delitem", "delattr"):
        expect(error is not None, lambda: f"deleting {B.name(step['name'])!r} is accepted")
    elif kind == "clear":
        expect(error is not None or not model, "clearing is accepted")
    else:
        data = B.entries(step)
        now = B.view(box)
        possible = all(can_set(shape, model, key, item) for key, item in data.items())
        expect((error is None) is possible, lambda: (
            f"an update of {list(model)} with {data} is {'accepted' if error is None else f'refused: {error!r}'}"))
        for key, item in data.items():
            if key not in model and key in now:
                expect(can_set(shape, model, key, item) and now[key] is item,
                       lambda: f"an update with {data} sets {key!r} to {now[key]!r}")
                model[key] = item
        if possible:
            expect(all(key in model for key in data), "an update is dropped")


def evaluate(case):
    shape = case["shape"]
    cls = B.make(shape, True)
    model = {}
    for n, v in case["start"]:
        key, item = B.name(n), B.value(v)
        if can_set(shape, model, key, item):
            model[key] = item
    box = cls(dict(model))
    for step in case["ops"]:
        before = dict(model)
        attempt(shape, box, model, step)
        expect(all(model[k] is v for k, v in before.items()), "the model lost a value")
        B.compare(box, model, shape["kind"] == "namespace")


# ------------------------------------------------------- plain frozen instances

instances = st.fixed_dictionaries({
    "split": st.integers(0, 3), "dict": st.booleans(),
    "start": st.lists(st.tuples(st.sampled_from("abc"), B.values).map(list), max_size=3),
    "ops": st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["setattr", "setattr", "delattr", "init"]),
        "name": st.sampled_from(["a", "b", "c", "q", "method", "constant"]), "value": B.values,
    }), min_size=3, max_size=12),
})


def evaluate_instances(case):
    Base = aiootp.commons.instances.FrozenInstance
    one = type("One", (Base,), {"__slots__": tuple("abc"[:case["split"]]), "constant": 5,
                                "method": lambda self: 1})
    two = type("Two", (one,), {"__slots__": (*"abc"[case["split"]:], *(["__dict__"] if case["dict"] else []))})
    model = {}
    for n, v in case["start"]:
        model.setdefault(n, B.value(v))
    box = two(dict(model))
    for step in case["ops"]:
        key, item, error = step["name"], B.value(step["value"]), None
        try:
            if step["op"] == "setattr":
                setattr(box, key, item)
            elif step["op"] == "delattr":
                delattr(box, key)
            else:
                box.__init__(**{key: item})
        except Exception as caught:
            error = caught
        wanted = step["op"] != "delattr" and key not in model and (
            key in "abc" or key == "q" and case["dict"])
        expect((error is None) is wanted, lambda: (
            f"{step['op']} of {key} ({'set' if key in model else 'unset'}) is "
            f"{'accepted' if error is None else f'refused: {error!r}'}"))
        if wanted:
            model[key] = item
        repr(box)
        for n in "abcq":
            expect(getattr(box, n, box) is model.get(n, box), lambda: (
                f"{n} is {getattr(box, n, '-')!r} after {step['op']} of {key}, expected {model.get(n, '-')!r}"))
        expect(box.constant == 5 and box.method() == 1, "a class attribute is replaced")


# --------------------------------------------------------------- configurations

config_ops = st.one_of(
    st.fixed_dictionaries({"op": st.just("put"), "id": st.integers(0, 11), "config": st.integers(0, 4),
                           "how": st.sampled_from(["item", "attr", "update"])}),
    st.fixed_dictionaries({"op": st.just("del"), "id": st.integers(0, 11), "how": st.sampled_from(["item", "attr"])}),
    st.fixed_dictionaries({"op": st.just("clear"), "id": st.just(0)}),
    st.fixed_dictionaries({"op": st.just("type"), "id": st.just(0)}),
    st.fixed_dictionaries({"op": st.just("write"), "config": st.integers(0, 4), "id": st.integers(0, 11),
                           "name": st.sampled_from(["N", "S", "CONFIG_ID"]), "value": B.values,
                           "how": st.sampled_from(["item", "attr", "update", "method"])}),
)
configs = st.fixed_dictionaries({"ops": st.lists(config_ops, min_size=3, max_size=14)})
IDS = ("x", "y", "keys", 7, b"x", None, "7", "None", "X", 7.5, ("x",), "b'x'")


def renamings(tier):
    """A configuration which has an id is given another one, however alike."""
    for one in range(len(IDS)):
        for other in range(len(IDS)):
            for config in (0, 2):
                for how in ("item", "update"):
                    put = {"op": "put", "config": config, "how": how}
                    write = {"op": "write", "config": config, "name": "CONFIG_ID", "value": "zero", "how": how}
                    yield {"ops": [{**put, "id": one}, {**put, "id": other}, {**put, "id": other, "config": 1}]}
                    yield {"ops": [{**write, "id": one}, {**write, "id": other}, {**put, "id": other}]}


def evaluate_configs(case):
    Config, ConfigMap = aiootp.commons.configs.Config, aiootp.commons.configs.ConfigMap
    One = type("One", (Config,), {"__slots__": ("N", "S"), "slots_types": {"N": int, "S": str},
                                  "__init__": lambda self, n: (setattr(self, "N", n), None)[1]})
    Other = type("Other", (One,), {"__slots__": (), "slots_types": {}})
    Foreign = type("Foreign", (Config,), {"__slots__": ("N", "S"), "slots_types": {"N": int, "S": str},
                                          "__init__": lambda self, n: (setattr(self, "N", n), None)[1]})
    pool = [One(0), One(1), Other(2), Foreign(3), object()]
    known = [{"N": n} for n in range(4)] + [{}]      # what each configuration has
    mapped = ConfigMap(config_type=One)
    model = {}
    for step in case["ops"]:
        kind, cid = step["op"], IDS[step["id"]]
        error = None
        if kind == "write":
            number = step["config"] % 4
            name = step["name"]
            item = cid if name == "CONFIG_ID" else B.value(step["value"])
            error = attempted(lambda: (
                pool[number].set_config_id(item) if name == "CONFIG_ID" and step["how"] == "method" else
                write(pool[number], name, item, step["how"])))
            has = known[number]
            wanted = name not in has and (name == "CONFIG_ID" or isinstance(item, {"N": int, "S": str}[name]))
            again = name == "CONFIG_ID" and name in has and has[name] == item
            expect((error is None) is (wanted or again), lambda: (
                f"writing {name} = {item!r} over {has} is {'accepted' if error is None else repr(error)}"))
            if wanted:
                has[name] = item
        elif kind == "put":
            config, has = pool[step["config"]], known[step["config"]]
            how = step["how"] if isinstance(cid, str) or step["how"] == "update" else "item"
            error = attempted(lambda: write(mapped, cid, config, how))
            fine = (
                step["config"] < 3 and has.get("CONFIG_ID", cid) == cid
                and model.get(cid, config) is config and cid != "keys"
            )
            expect((error is None) is fine, lambda: (
                f"configuration {step['config']} {has} as {cid!r} in {model} is "
                f"{'accepted' if error is None else f'refused: {error!r}'}"))
            if fine:
                model[cid] = config
                has["CONFIG_ID"] = cid
        elif kind == "del":
            error = attempted(lambda: delete(mapped, cid, step["how"]))
            expect(error is not None, "a configuration is deleted")
        elif kind == "clear":
            error = attempted(mapped.clear)
            expect(error is not None or not model, "configurations are cleared")
        else:
            error = attempted(lambda: setattr(mapped, "CONFIG_TYPE", Foreign))
            expect(error is not None, "the type of the configurations is replaced")
        expect(B.same(B.view(mapped), model), lambda: f"after {step} the map has {B.view(mapped)}")
        for config, has in zip(pool[:4], known):
            expect(B.view(config) == has, lambda: f"after {step} a configuration has {B.view(config)}, expected {has}")


def attempted(action):
    try:
        action()
    except Exception as error:
        return error
    return None


def write(box, name, item, how):
    if how == "item":
        box[name] = item
    elif how == "update":
        box.update({name: item})
    else:
        setattr(box, name, item)


def delete(box, name, how):
    if how == "item" or not isinstance(name, str):
        del box[name]
    else:
        delattr(box, name)


# ------------------------------------------------------- the package's objects


KEY = bytes(range(168))
ROOTS = {
    "package": lambda: aiootp.commons, "asynchs": lambda: aiootp.asynchs, "keygens": lambda: aiootp.keygens,
    "ciphers": lambda: aiootp.ciphers, "randoms": lambda: aiootp.randoms, "generics": lambda: aiootp.generics,
    "databases": lambda: aiootp.databases,
    "Chunky2048": lambda: aiootp.Chunky2048(KEY), "Slick256": lambda: aiootp.Slick256(KEY),
    "X25519": lambda: aiootp.X25519().generate(), "Ed25519": lambda: aiootp.Ed25519().generate(),
    "X25519 unset": lambda: aiootp.X25519(), "Ed25519 unset": lambda: aiootp.Ed25519(),
    "client": lambda: aiootp.X25519().generate().dh2_client(),
    "server": lambda: aiootp.X25519().generate().dh2_server(),
    "triple client": lambda: aiootp.X25519().generate().dh3_client(),
    "triple server": lambda: aiootp.X25519().generate().dh3_server(),
    "Passcrypt": lambda: aiootp.Passcrypt(tag_size=16, mb=1, cpu=1, cores=1),
    "clock": lambda: aiootp.asynchs.Clock(),
    "GUID": lambda: aiootp.GUID(), "SequenceID": lambda: aiootp.SequenceID(key=KEY[:60], config_id=12),
    "DomainKDF": lambda: aiootp.DomainKDF(b"d", b"x", key=KEY),
    "guard": lambda: aiootp.asynchs.ConcurrencyGuard(aiootp.asynchs.DequePair()),
    "deques": lambda: aiootp.asynchs.DequePair(),
}


def roots():
    found = {}
    for name, build in ROOTS.items():
        try:
            found[name] = build()
        except Exception:
            # whether it can be built is not this property's business
            continue
    return found


def frozen_types():
    return (
        aiootp.commons.instances.FrozenInstance, aiootp.commons.slots.FrozenSlots,
        aiootp.commons.namespaces.FrozenNamespace, aiootp.commons.typed_slots.FrozenTypedSlots,
    )


def fields(one):
    """The values an object has, by name."""
    found = {}
    for cls in type(one).__mro__:
        slots = cls.__dict__.get("__slots__", ())
        for name in (slots,) if isinstance(slots, str) else slots:
            if name not in ("__dict__", "__weakref__"):
                try:
                    found[name] = getattr(one, name)
                except Exception:
                    continue
    found.update(getattr(one, "__dict__", {}))
    return found


def collect():
    """Every frozen object reachable from the roots, by its path."""
    types, found, seen = frozen_types(), {}, set()
    queue = list(roots().items())
    for path, one in queue:
        if id(one) in seen or path.count(".") > 4:
            continue
        seen.add(id(one))
        inside = {}
        if isinstance(one, types):
            found[path] = one
            inside = fields(one)
        for name, item in inside.items():
            if not isinstance(name, str) or name.startswith("__"):
                continue
            if isinstance(item, types) or isinstance(item, type):
                queue.append((f"{path}.{name}", item))
        if isinstance(one, type) and one.__module__.startswith("aiootp"):
            # configurations are kept by the classes
            queue.extend((f"{path}.{n}", item) for n, item in vars(one).items() if isinstance(item, types))
    return found


_objects = None


def objects():
    global _objects
    if _objects is None:
        _objects = collect()
    return _objects


def object_cases(tier):
    everything = sorted({*objects(), *roots()})
    for path in everything:
        for how in ("setattr", "delattr", "setitem", "delitem", "update", "clear", "init"):
            yield {"object": path, "how": how}


def evaluate_objects(case):
    path, how = case["object"], case["how"]
    one = objects()[path] if path in objects() else ROOTS[path]()
    before = fields(one)
    mapping = hasattr(one, "update") and hasattr(one, "items")
    if how in ("setitem", "delitem", "update", "clear") and not mapping:
        return
    if how == "init" and not mapping:
        return
    new = object()
    try:
        if how == "clear":
            expect(attempted(one.clear) is not None or not before, f"{path} can be cleared")
            check(path, one, before, how)
            return
        for name, item in before.items():
            if not isinstance(name, str):
                continue
            for value in (new, item):
                error = attempted(lambda: {
                    "setattr": lambda: setattr(one, name, value), "delattr": lambda: delattr(one, name),
                    "setitem": lambda: one.__setitem__(name, value), "delitem": lambda: one.__delitem__(name),
                    "update": lambda: one.update({name: value}), "init": lambda: one.update(**{name: value}),
                }[how]())
                # the same value once more may be tolerated
                expect(error is not None or (value is item and not how.startswith("del")),
                       lambda: f"{how} of {path}.{name} is accepted")
                check(path, one, before, f"{how} of {name}")
    except BaseException:
        # put everything back: the objects belong to the whole package
        for name, item in before.items():
            try:
                object.__setattr__(one, name, item)
            except Exception:
                one.__dict__[name] = item
        raise


def check(path, one, before, what):
    after = fields(one)
    expect(set(after) == set(before), lambda: f"{what}: {path} has {set(before) ^ set(after)} more or less")
    for name, item in before.items():
        expect(after[name] is item or after[name] == item, lambda: f"{what} changes {path}.{name}")


def nontrivial(case):
    seen = {str(n) for n, _ in case["start"]}
    for step in case["ops"]:
        if step["op"] == "clear" and seen:
            return True
        if "name" in step:
            if str(step["name"]) in seen:
                return True
            if step["op"].startswith("set"):
                seen.add(str(step["name"]))
    return False


def labels(case):
    yield case["shape"]["kind"]
    for step in case["ops"]:
        yield step["op"]


PARTS = [
    Part("histories", histories, evaluate, 1200, 25000, nontrivial=nontrivial, labels=labels),
    Part("instances", instances, evaluate_instances, 400, 6000, nontrivial=lambda c: bool(c["start"])),
    Part("configurations", configs, evaluate_configs, 400, 6000, nontrivial=lambda c: any(
        s["op"] == "put" for s in c["ops"]), labels=lambda c: (s["op"] for s in c["ops"])),
    Sweep("renamed configurations", renamings, evaluate_configs),
    Sweep("objects", object_cases, evaluate_objects, labels=lambda c: [c["how"]]),
]
