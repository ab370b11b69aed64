"""C41: async file and system helpers have the effects of the plain calls."""

import asyncio
import os
import stat as stat_module
from pathlib import Path

from hypothesis import strategies as st

from lib import sut
from lib.harness import Part, Sweep, Violation, expect
from lib.sut import aiootp

TECHNIQUE = (
    "model-based property testing: generated sequences of file operations are done with the "
    "package's helpers in one scratch directory and with plain operations in another; results, "
    "errors and directory trees are compared after every step"
)
RULE = (
    "a case is a sequence of operations; non-trivial when at least one changes a file that "
    "an earlier one made, or fails. Distinct by the whole case."
)
ASSUMPTIONS = (
    "file permissions bind the process: it gives up the privilege to override them",
    "appends which run concurrently end up one after the other in some order",
)
io = aiootp.generics.ByteIO
aos = aiootp.asynchs.aos
sut.drop_file_privileges()

NAMES = ["a", "b", "d", "d/a", "d/e", "d/e/a", "link", "loop", "dangling", "missing/a", "é☂", "a/b", ""]
names = st.sampled_from(NAMES + ["a", "b", "d/a"] * 3)
datas = st.one_of(
    st.tuples(st.sampled_from(["bytes", "bytes", "bytes", "bytearray", "memoryview"]), st.one_of(
        st.integers(0, 20), st.sampled_from([0, 1, 4095, 4096, 8191, 8192, 8193, 70000])),
        st.integers(0, 255)),
    st.tuples(st.sampled_from(["text", "none", "number"]), st.just(3), st.just(0)),
)
modes = st.sampled_from([0o600, 0o644, 0o400, 0o200, 0o000, 0o700, 0o755, 0o500, 0o777])


def op(name, **fields):
    return st.fixed_dictionaries({"op": st.just(name), **fields})


files = st.one_of(
    op("read", path=names, is_async=st.booleans(), size=st.one_of(
        st.none(), st.just(-1), st.integers(0, 30), st.sampled_from([0, 0, 1, 4096, 10**6])),
        keyword=st.booleans()),
    op("write", path=names, is_async=st.booleans(), data=datas, keyword=st.booleans()),
    op("append", path=names, is_async=st.booleans(), data=datas, keyword=st.booleans()),
)
system = st.one_of(
    op("chmod", path=names, mode=modes),
    op("chown", path=names, uid=st.sampled_from([-1, 65534, 0]), gid=st.sampled_from([-1, 65534])),
    op("makedirs", path=st.sampled_from(["d", "d/e", "x/y/z", "a/x", "d/new/er", ""]),
       mode=st.one_of(st.none(), modes), exist_ok=st.one_of(st.none(), st.booleans())),
    op("mkdir", path=st.sampled_from(["d", "n", "d/n", "missing/n", "a", ""]),
       mode=st.one_of(st.none(), modes), at=st.booleans()),
    op("rename", path=names, to=names, at=st.booleans()),
    op("remove", path=names, at=st.booleans()),
    op("rmdir", path=st.sampled_from(["d", "d/e", "d/empty", "n", "a", "link", "missing"])),
    op("sendfile", path=names, to=names, offset=st.integers(0, 10), count=st.integers(0, 5000)),
    op("stat", path=names, follow=st.one_of(st.none(), st.booleans()), at=st.booleans()),
)
steps = st.lists(st.one_of(files, files, system), min_size=1, max_size=12)
cases = st.fixed_dictionaries({"steps": steps, "as_path": st.booleans()})


def content(spec):
    kind, size, byte = spec
    data = bytes((byte + i * 7) % 256 for i in range(size))
    return {"bytes": data, "bytearray": bytearray(data), "memoryview": memoryview(data),
            "text": "abc", "none": None, "number": 7}[kind]


def furnish(root):
    """Some files to begin with."""
    os.makedirs(f"{root}/d/e")
    os.mkdir(f"{root}/d/empty")
    for name, data in (("a", b"first file\n" * 500), ("d/a", b""), ("d/e/a", b"\x00\xff\r\n")):
        with open(f"{root}/{name}", "wb") as file:
            file.write(data)
    os.symlink("a", f"{root}/link")
    os.symlink("loop", f"{root}/loop")
    os.symlink("nowhere", f"{root}/dangling")


def tree(root):
    out = {}
    pending = [""]
    while pending:
        name = pending.pop()
        path = os.path.join(root, name)
        info = os.lstat(path)
        entry = [stat_module.S_IFMT(info.st_mode), stat_module.S_IMODE(info.st_mode), info.st_uid,
                 info.st_gid]
        if stat_module.S_ISLNK(info.st_mode):
            entry.append(os.readlink(path))
        elif stat_module.S_ISREG(info.st_mode):
            entry.append(contents(path, info))
        elif stat_module.S_ISDIR(info.st_mode):
            entry.append(None)
            pending += [os.path.join(name, n) for n in listing(path, info)]
        out[name] = tuple(entry)
    return out


def contents(path, info):
    try:
        with open(path, "rb") as file:
            return file.read()
    except PermissionError:
        if info.st_uid != os.getuid():
            return f"{info.st_size} bytes"
        os.chmod(path, 0o600)
        with open(path, "rb") as file:
            data = file.read()
        os.chmod(path, stat_module.S_IMODE(info.st_mode))
        return data


def listing(path, info):
    try:
        names = os.listdir(path)
        for name in names:
            os.lstat(os.path.join(path, name))
        return names
    except PermissionError:
        return []


# --------------------------------------------------------------- the steps

def facts(info):
    return (stat_module.S_IFMT(info.st_mode), stat_module.S_IMODE(info.st_mode), info.st_size,
            info.st_uid, info.st_gid, info.st_nlink)


def where(root, name, as_path):
    path = os.path.join(root, name) if name else root + "/"
    return Path(path) if as_path else path


def keywords(step, *names):
    return {n: step[n] for n in names if step.get(n) is not None}


def with_fd(root, step, function):
    """The same call relative to a directory."""
    if not step.get("at"):
        return function({}, lambda name: where(root, name, False))
    fd = os.open(root, os.O_RDONLY | os.O_DIRECTORY)
    try:
        return function(fd, lambda name: name or ".")
    finally:
        os.close(fd)


def system_call(call, root, step, as_path):
    """`call(name, *args, **kw)` does an operation of the system."""
    name = step["op"]
    path = where(root, step["path"], as_path)
    if name == "chmod":
        return call("chmod", path, step["mode"])
    if name == "chown":
        return call("chown", path, step["uid"], step["gid"])
    if name == "makedirs":
        return call("makedirs", path, **keywords(step, "mode", "exist_ok"))
    if name == "rmdir":
        return call("rmdir", path)
    if name == "sendfile":
        source = os.open(path, os.O_RDONLY)
        try:
            target = os.open(where(root, step["to"], as_path), os.O_WRONLY)
            try:
                sent = call("sendfile", target, source, step["offset"], step["count"])
                return sent
            finally:
                os.close(target)
        finally:
            os.close(source)

    def relative(fd, at):
        kw = {} if fd == {} else {"dir_fd": fd}
        if name == "mkdir":
            return call("mkdir", at(step["path"]), **keywords(step, "mode"), **kw)
        if name == "remove":
            return call("remove", at(step["path"]), **kw)
        if name == "stat":
            if step["follow"] is not None:
                kw["follow_symlinks"] = step["follow"]
            return facts(call("stat", at(step["path"]), **kw))
        if kw:
            kw = {"src_dir_fd": fd, "dst_dir_fd": fd}
        return call("rename", at(step["path"]), at(step["to"]), **kw)

    return with_fd(root, step, relative)


def plain(root, step, as_path):
    name = step["op"]
    path = where(root, step["path"], as_path)
    if name == "read":
        with open(path, "rb") as file:
            return file.read(-1 if step["size"] is None else step["size"])
    if name in ("write", "append"):
        data = memoryview(content(step["data"]))
        with open(path, "wb" if name == "write" else "ab") as file:
            file.write(data)
        return None
    return system_call(lambda name, *a, **kw: getattr(os, name)(*a, **kw), root, step, as_path)


def helped(root, step, as_path):
    name = step["op"]
    path = where(root, step["path"], as_path)
    if name in ("read", "write", "append"):
        kw = {}
        if name == "read":
            args = (path,) if step["size"] is None else (path, step["size"])
        else:
            args = (path, content(step["data"]))
        if step["keyword"]:
            kw = dict(zip(("path", "size" if name == "read" else "data"), args))
            args = ()
        if step["is_async"]:
            return sut.run(getattr(io, "a" + name)(*args, **kw))
        return getattr(io, name)(*args, **kw)
    return system_call(lambda name, *a, **kw: sut.run(getattr(aos, name)(*a, **kw)), root, step,
                       as_path)


def outcome(function, *args):
    try:
        return "returned", function(*args)
    except Violation:
        raise
    except Exception as error:
        return "raised", type(error).__name__, getattr(error, "errno", None)


def left_open(root):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(root + "/"):
            out.append(target)
    return out


def soften(root):
    """So that the directory can be removed."""
    for base, folders, _ in os.walk(root):
        for folder in folders:
            path = os.path.join(base, folder)
            if not os.path.islink(path):
                os.chmod(path, 0o700)


def evaluate(case):
    ours, theirs = sut.scratch(), sut.scratch()
    try:
        for root in (ours, theirs):
            os.chmod(root, 0o755)
            furnish(root)
        for index, step in enumerate(case["steps"]):
            wanted = outcome(plain, ours, step, case["as_path"])
            got = outcome(helped, theirs, step, case["as_path"])
            expect(wanted == got, lambda: (
                f"step {index}, {step['op']} {step['path']!r}: {brief(got)}, but the plain call "
                f"{brief(wanted)}"))
            ideal, real = tree(ours), tree(theirs)
            for name in sorted(ideal.keys() | real.keys()):
                expect(ideal.get(name) == real.get(name), lambda: (
                    f"step {index}, {step['op']} {step['path']!r}: {name!r} is "
                    f"{brief(real.get(name))}, after the plain call {brief(ideal.get(name))}"))
            leaks = left_open(theirs)
            expect(not leaks, lambda: f"step {index}, {step['op']}: still open: {leaks}")
    finally:
        for root in (ours, theirs):
            os.chmod(root, 0o755)
            soften(root)
            sut.remove_scratch(root)


def brief(value):
    text = repr(value)
    return text if len(text) < 120 else text[:90] + f"..({len(text)})"


def nontrivial(case):
    made, busy = {"a", "d/a", "d/e/a"}, False
    for step in case["steps"]:
        if step["op"] in ("write", "append"):
            busy = busy or step["path"] in made
            made.add(step["path"])
        if step["op"] in ("rename", "remove", "chmod"):
            busy = True
    return busy


# ------------------------------------------------------------- concurrency

chunks = st.lists(st.tuples(
    st.integers(0, 2), st.one_of(st.integers(1, 30), st.sampled_from([4096, 9000, 100000]))),
    min_size=2, max_size=12)
concurrent = st.fixed_dictionaries({"chunks": chunks, "kind": st.sampled_from(["append", "own"])})


def evaluate_concurrent(case):
    root = sut.scratch()
    try:
        pieces = [(f"{root}/{target}", bytes([65 + index]) * size)
                  for index, (target, size) in enumerate(case["chunks"])]

        async def append():
            await asyncio.gather(*(io.aappend(path, data) for path, data in pieces))

        async def own():
            await asyncio.gather(*(
                io.awrite(f"{path}-{i}", data) for i, (path, data) in enumerate(pieces)))
            return await asyncio.gather(*(
                io.aread(f"{path}-{i}") for i, (path, data) in enumerate(pieces)))

        if case["kind"] == "own":
            read = sut.run(own())
            expect(read == [data for _, data in pieces], "concurrent files are mixed up")
            return
        sut.run(append())
        for path in {path for path, _ in pieces}:
            with open(path, "rb") as file:
                left = file.read()
            parts = [data for where, data in pieces if where == path]
            while left:
                match = [part for part in parts if left.startswith(part) and part]
                expect(match, lambda: f"appended pieces are torn or foreign: {brief(left)}")
                parts.remove(match[0])
                left = left[len(match[0]):]
            expect(not parts, lambda: f"appended pieces are lost: {brief(parts)}")
    finally:
        sut.remove_scratch(root)


# ------------------------------------------------------- wrapped functions

values = st.one_of(st.none(), st.integers(-3, 3), st.text(max_size=3), st.booleans())
wrapped = st.fixed_dictionaries({
    "calls": st.lists(st.fixed_dictionaries({
        "args": st.lists(values, max_size=3),
        "kw": st.dictionaries(st.sampled_from(
            ["a", "function", "args", "self", "func", "executor", "key"]), values, max_size=3),
        "raises": st.sampled_from([None, None, "ValueError", "OSError", "KeyError", "TimeoutError"]),
    }), min_size=1, max_size=5),
    "together": st.booleans(),
})


def evaluate_wrapped(case):
    def work(*args, **kw):
        """Documentation."""
        spec = case["calls"][args[0]]
        if spec["raises"]:
            error = {"ValueError": ValueError, "OSError": OSError, "KeyError": KeyError,
                     "TimeoutError": TimeoutError}[spec["raises"]]("x", args)
            made[args[0]] = error
            raise error
        made[args[0]] = result = (args, kw, [])
        return result

    made = {}
    runner = aiootp.asynchs.loops.wrap_in_executor(work)
    expect(runner.__name__ == "work" and runner.__doc__ == "Documentation.",
           "the wrapper does not carry the name and text of its function")

    async def go():
        tasks = [runner(i, *spec["args"], **spec["kw"]) for i, spec in enumerate(case["calls"])]
        if case["together"]:
            return await asyncio.gather(*tasks, return_exceptions=True)
        out = []
        for task in tasks:
            out += await asyncio.gather(task, return_exceptions=True)
        return out

    for index, (result, spec) in enumerate(zip(sut.run(go()), case["calls"])):
        same = result is made.get(index) or spec["raises"] and (
            # asyncio copies some errors
            type(result) is type(made.get(index)) and result.args == made[index].args)
        expect(same, lambda: (
            f"call {index} gave {result!r}, its function {made.get(index)!r}"))
        if not spec["raises"]:
            expect(result[:2] == ((index, *spec["args"]), spec["kw"]), lambda: (
                f"call {index} got other arguments: {result[:2]!r}"))


def large(tier):
    """Sizes of buffers, written, appended and read with limits around them."""
    for is_async in (False, True):
        for n, size in enumerate((4097, 8193, 65535, 65536, 65537, 2**18 + 1, 2**20 + 1)):
            def step(op, **fields):
                return {"op": op, "path": "a", "is_async": is_async, "keyword": n % 2 == 0, **fields}
            yield {"as_path": n % 2 == 1, "steps": [
                step("write", data=["bytes", size, n]), step("read", size=None), step("read", size=size),
                step("read", size=size - 1), step("read", size=size + 1),
                step("append", data=["bytes", size, n + 1]), step("read", size=size + 1),
                step("read", size=-1), step("write", data=["bytes", size - 1, n + 2]), step("read", size=None)]}


PARTS = [
    Sweep("large", large, evaluate),
    Part("sequences", cases, evaluate, 700, nontrivial=nontrivial,
         labels=lambda case: {step["op"] for step in case["steps"]}),
    Part("concurrent files", concurrent, evaluate_concurrent, 150,
         nontrivial=lambda case: len(case["chunks"]) > 2, labels=lambda case: [case["kind"]]),
    Part("wrapped functions", wrapped, evaluate_wrapped, 200,
         nontrivial=lambda case: any(c["args"] or c["kw"] or c["raises"] for c in case["calls"])),
]
