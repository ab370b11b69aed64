"""C20: a package signature covers every signed file and every summary field."""

import copy
import hashlib
import json
import os
import time

from hypothesis import strategies as st

from lib import strategies as S
from lib import sut
from lib.harness import Part, Sweep, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "stateful property-based testing against a model of what was signed: generated "
    "signer histories, then generated edits of every summary field, of the files on "
    "disk and of the verifying key"
)
RULE = (
    "a case is a signer history with attempts to verify altered summaries or files; "
    "non-trivial when at least one attempt alters something or the history signs more "
    "than once. Distinct by the whole case."
)

NAMES = ["a.py", "b.py", "pkg/a.py", "pkg/sub/c.txt", "with space", "é.txt", "-x", "a.py.bak"]
FIELDS = ["author", "license", "a", "zz", "_note", "é", "0"]
values = st.one_of(S.json_trees(4), st.sampled_from(["", "x", 0, 1, True, None, 1.0, "1", [], {}]))
# contents which differ only in what text handling tends to make equal
TEXTS = [
    b"a\nb\n", b"a\r\nb\r\n", b"a\rb\r", b"a\nb", b"a\tb \n", b"a b\n", b"\xef\xbb\xbfa\n", b"a\n",
    b" a", b"a ", b"a\0", b"\0a", b"A\n", b"\xff\xfea\0", b"\xc3\xa9", b"e\xcc\x81", b"\n", b"\n\n",
    b"\x1a", b"x = 1  # y\n", b"\0" * 128, b"-----BEGIN\n",
]
texts = st.sampled_from([{"h": text.hex()} for text in TEXTS])
EDITS = {
    "crlf": lambda d: d.replace(b"\n", b"\r\n"), "lf": lambda d: d.replace(b"\r\n", b"\n"),
    "cr": lambda d: d.replace(b"\r", b"\n"), "strip": bytes.strip, "end": bytes.rstrip,
    "start": bytes.lstrip, "newline": lambda d: d + b"\n", "space": lambda d: d + b" ",
    "nul": lambda d: d + b"\0", "first nul": lambda d: b"\0" + d, "no nul": lambda d: d.strip(b"\0"),
    "bom": lambda d: b"\xef\xbb\xbf" + d, "no bom": lambda d: d.removeprefix(b"\xef\xbb\xbf"),
    "case": bytes.swapcase, "tabs": bytes.expandtabs, "twice": lambda d: d + d,
    "lines": lambda d: b"".join(sorted(d.splitlines(True))), "reversed": lambda d: d[::-1],
    "comment": lambda d: d.split(b"#")[0], "eof": lambda d: d + b"\x1a",
    "high": lambda d: bytes(b | 0x80 for b in d), "low": lambda d: bytes(b & 0x7f for b in d),
    "composed": lambda d: d.replace(b"\xc3\xa9", b"e\xcc\x81"),
}
contents = st.one_of(S.blobs(0, 12), texts, S.sized_blobs(st.sampled_from([0, 1, 63, 64, 127, 128, 129, 5000])))
seeds = st.builds(lambda s: {"s": [s, 32]}, st.integers(0, 5))

OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("add"), "name": st.sampled_from(NAMES), "data": contents}),
    st.fixed_dictionaries({"op": st.just("add"), "name": st.sampled_from(NAMES), "data": contents}),
    st.fixed_dictionaries({"op": st.just("drop"), "name": st.sampled_from(NAMES)}),
    st.fixed_dictionaries({"op": st.sampled_from(["scope", "credential"]),
                           "name": st.sampled_from(FIELDS), "value": values}),
    st.fixed_dictionaries({"op": st.just("version"), "value": st.sampled_from(["1.0", "1.1", "2"])}),
    st.fixed_dictionaries({"op": st.just("key"), "key": seeds,
                           "form": st.sampled_from(["bytes", "object", "native"])}),
    st.fixed_dictionaries({"op": st.sampled_from(["sign", "sign", "summary", "summary", "reopen"])}),
)
tampers = st.one_of(
    st.fixed_dictionaries({
        "t": st.sampled_from(["change", "change", "delete", "add", "rename", "swap", "hex", "signature",
                              "checksum", "key-field", "digest-of-change"]),
        "a": st.integers(0, 10**6), "b": st.integers(0, 10**6), "value": values,
        "fix": st.sampled_from(["no", "no", "checksum", "resign"]),
        "form": st.sampled_from(["dict", "text", "bytes"]), "files": st.booleans(),
    }),
    st.fixed_dictionaries({
        "t": st.sampled_from(["none", "disk-flip", "disk-append", "disk-cut", "disk-remove", "disk-swap",
                              "disk-extra", "disk-empty", "disk-edit", "disk-edit", "verifier"]),
        "a": st.integers(0, 10**6), "b": st.integers(0, 10**6), "value": st.none(),
        "fix": st.just("no"), "form": st.sampled_from(["dict", "text", "bytes"]), "files": st.booleans(),
    }),
)
cases = st.fixed_dictionaries({
    "ops": st.lists(OPS, min_size=3, max_size=12),
    "final": st.lists(st.tuples(st.sampled_from(NAMES), contents).map(list), max_size=4),
    "tampers": st.lists(tampers, min_size=2, max_size=12),
    "date": st.sampled_from([None, 0, 1, 20000]),
})
DAY = 86_400 * 10**9
COSTS = {"mb": 1, "cpu": 1, "cores": 1}
LOGIN = {"username": b"user", "passphrase": b"passphrase 123", "salt": b"salt"}


def sha(data):
    return hashlib.sha384(data).hexdigest()


class Signer:
    """The code under test together with the model of it."""

    def __init__(self, case, root):
        self.root = root
        self.date = case["date"]
        self.version = "1.0"
        self.extras, self.credentials, self.files = {}, {}, {}
        self.contents = {}
        self.public = None
        self.signed = {}
        self.opened = time.time_ns() // DAY
        self.open()

    def open(self):
        self.signer = aiootp.PackageSigner("pkg", self.version, date=self.date, **self.extras)
        self.signer.connect_to_secure_database(path=self.root, **LOGIN, **COSTS)
        for name, data in self.contents.items():
            self.signer.add_file(name, data)

    def state(self):
        return json.dumps([sorted(self.files.items()), sorted(self.credentials.items()),
                           sorted(self.extras.items()), self.version, self.public])

    def apply(self, op):
        name = op["op"]
        if name == "add":
            data = blob(op["data"])
            self.signer.add_file(op["name"], data)
            self.contents[op["name"]] = data
            self.files[op["name"]] = sha(data)
        elif name == "drop":
            if op["name"] in self.files:
                del self.signer.files[op["name"]]
                del self.files[op["name"]], self.contents[op["name"]]
        elif name == "scope":
            self.signer.update_scope(**{op["name"]: op["value"]})
            self.extras[op["name"]] = op["value"]
        elif name == "version":
            self.signer.update_scope(version=op["value"])
            self.version = op["value"]
        elif name == "credential":
            self.signer.update_public_credentials(**{op["name"]: op["value"]})
            self.credentials[op["name"]] = op["value"]
        elif name == "key":
            raw = blob(op["key"])
            native = aiootp.Ed25519().import_secret_key(raw)
            argument = {"bytes": raw, "native": native.secret_key, "object": native}[op["form"]]
            self.signer.update_signing_key(argument)
            self.public = native.public_bytes.hex()
        elif name == "sign":
            worked, got = attempt(self.signer.sign_package)
            expect(worked == (self.public is not None), lambda: (
                f"signing fails: {got!r}" if not worked else "signed without a signing key"))
            if worked:
                self.signed[self.version] = self.state()
        elif name == "reopen":
            self.signer.db.save_database()
            self.open()
            if self.public:
                got = self.signer.signing_key.public_bytes.hex()
                expect(got == self.public, "another signing key comes back from the database")
        else:
            self.summary()

    def summary(self):
        worked, got = attempt(self.signer.summarize)
        fresh = self.public is not None and self.signed.get(self.version) == self.state()
        expect(worked == fresh, lambda: (
            f"no summary of a package as it was signed: {got!r}" if fresh else
            "a summary is given although the package is not as it was signed"
        ))
        if not worked:
            return None
        scope = {**self.extras, "package": "pkg", "version": self.version}
        got_scope = dict(got["scope"])
        date = got_scope.pop("date", None)
        dates = [self.date] if self.date else range(self.opened, time.time_ns() // DAY + 1)
        expect(type(date) is int and date in dates, lambda: (
            f"the date in the summary is {date!r} instead of {self.date or 'the day, counted from 1970'}"))
        for field, wanted in (("checksums", self.files), ("public_credentials", self.credentials)):
            expect(same(got[field], wanted), lambda: f"{field} in the summary: {got[field]!r}")
        expect(same(got_scope, scope), lambda: f"scope in the summary: {got_scope!r}")
        expect(got["signing_key"] == self.public, "another key in the summary")
        return got


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def attempt(function):
    try:
        return True, function()
    except Exception as error:  # noqa: BLE001
        return False, error


def write(src, name, data):
    path = os.path.join(src, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as file:
        file.write(data)


def evaluate(case):
    root = sut.scratch()
    try:
        signer = Signer(case, root)
        for op in case["ops"]:
            signer.apply(op)
        if signer.public is None:
            signer.apply({"op": "key", "key": {"s": [9, 32]}, "form": "bytes"})
        for name, data in case["final"]:
            signer.apply({"op": "add", "name": name, "data": data})
        signer.apply({"op": "sign"})
        summary = signer.summary()
        for tamper in case["tampers"]:
            src = sut.scratch()
            try:
                for name, data in signer.contents.items():
                    write(src, name, data)
                judge(signer, summary, tamper, src)
            finally:
                sut.remove_scratch(src)
    finally:
        sut.remove_scratch(root)


# ----------------------------------------------- many files, large files

def large_cases(tier):
    for count in (101, 260) + (1100,) * (tier == "thorough"):
        yield {"count": count, "size": 3, "form": ("dict", "text")[count % 2]}
    for n, size in enumerate((65536, 65537, 10**6) + (2**24 + 1,) * (tier == "thorough")):
        yield {"count": 2, "size": size, "form": ("bytes", "dict", "text")[n]}


def evaluate_large(case):
    root, src = sut.scratch(), sut.scratch()
    try:
        signer = Signer({"date": 0}, root)
        signer.apply({"op": "key", "key": {"s": [9, 32]}, "form": "bytes"})
        names = [f"pkg/{n:04}.py" for n in range(case["count"])]
        for n, name in enumerate(names):
            signer.apply({"op": "add", "name": name, "data": {"s": [n, case["size"]]}})
        signer.apply({"op": "sign"})
        summary = signer.summary()
        for name, data in signer.contents.items():
            write(src, name, data)
        last = case["count"] - 1
        for which, kind, b in (
            (0, "none", 0), (last, "disk-flip", case["size"] - 1), (last, "disk-append", 0),
            (last, "disk-cut", 0), (last // 2, "disk-flip", case["size"] // 2), (last, "disk-remove", 0),
            (0, "disk-flip", 0), (0, "none", 1),
        ):
            judge(signer, summary, {"t": kind, "a": which, "b": b, "value": None, "fix": "no",
                                    "form": case["form"], "files": True}, src)
            for name in names:
                write(src, name, signer.contents[name])
        # and one file more than the summary names, or one less
        for fix in ("no", "checksum"):
            for kind in ("delete", "rename", "change"):
                altered = copy.deepcopy(summary)
                digests = altered["checksums"]
                value = digests.pop(names[-1])
                if kind != "delete":
                    digests["x" if kind == "rename" else names[-1]] = value if kind == "rename" else sha(b"")
                if fix != "no":
                    repair(signer, altered, {"fix": fix, "b": 0})
                worked, _ = attempt(lambda: aiootp.PackageVerifier(
                    bytes.fromhex(signer.public), verify_files=False).verify_summary(altered))
                expect(not worked, lambda: f"verifies although the last file's entry was altered ({kind}, {fix})")
    finally:
        sut.remove_scratch(root)
        sut.remove_scratch(src)


def paths(value, prefix=()):
    """Every position inside a JSON value."""
    found = []
    if isinstance(value, dict):
        for name in value:
            found.append((*prefix, name))
            found += paths(value[name], (*prefix, name))
    elif isinstance(value, list):
        for i in range(len(value)):
            found.append((*prefix, i))
            found += paths(value[i], (*prefix, i))
    return found


def container(value, path):
    for name in path[:-1]:
        value = value[name]
    return value


def other(value, replacement):
    if not same(value, replacement):
        return replacement
    if isinstance(value, str):
        return value + "x"
    return [value]


def judge(signer, summary, tamper, src):
    altered, disk_changed, key = copy.deepcopy(summary), False, signer.public
    kind = tamper["t"]
    files = sorted(signer.contents)
    if kind.startswith("disk"):
        disk_changed = change_disk(signer, tamper, src, files)
    elif kind == "verifier":
        other_key = aiootp.Ed25519().import_secret_key(bytes([tamper["a"] % 256]) * 32)
        key = other_key.public_bytes.hex()
    elif kind != "none":
        change_summary(signer, altered, tamper, src, files)
    unchanged = (
        same(strip(altered), strip(summary)) and key == signer.public
        and not (disk_changed and tamper["files"])
        and decoded(altered) == decoded(summary)
    )
    argument = altered
    if tamper["form"] != "dict":
        argument = json.dumps(altered)
        if tamper["form"] == "bytes":
            argument = argument.encode()
    kw = {"path": src} if tamper["files"] else {"verify_files": False}
    worked, got = attempt(lambda: aiootp.PackageVerifier(bytes.fromhex(key), **kw).verify_summary(argument))
    if unchanged and not same_order(altered, summary):
        return
    expect(worked == unchanged, lambda: (
        f"a package as it was signed is refused: {got!r}" if unchanged else
        f"verifies although altered ({kind}, {tamper['fix']})"
    ))
    expect(not worked or got is None, "verifying returns something")


def strip(summary):
    return {k: v for k, v in summary.items() if k not in ("checksum", "signature")}


def decoded(summary):
    try:
        return [bytes.fromhex(summary[n]) for n in ("checksum", "signature")]
    except (KeyError, TypeError, ValueError):
        return None


def same_order(a, b):
    return json.dumps(a) == json.dumps(b)


def change_disk(signer, tamper, src, files):
    kind = tamper["t"]
    if kind == "disk-extra":
        write(src, "not-listed.txt", b"x")
        return False
    if not files:
        return False
    name = files[tamper["a"] % len(files)]
    data = signer.contents[name]
    if kind == "disk-remove":
        os.unlink(os.path.join(src, name))
        return True
    if kind == "disk-swap":
        second = files[tamper["b"] % len(files)]
        write(src, name, signer.contents[second])
        write(src, second, data)
        return signer.contents[second] != data
    new = {
        "disk-flip": lambda: data[:tamper["b"] % len(data)] + bytes([data[tamper["b"] % len(data)] ^ 1])
        + data[tamper["b"] % len(data) + 1:] if data else b"\0",
        "disk-append": lambda: data + b"\n",
        "disk-cut": lambda: data[:-1],
        "disk-empty": lambda: b"",
        "disk-edit": lambda: EDITS[sorted(EDITS)[tamper["b"] % len(EDITS)]](data),
    }[kind]()
    write(src, name, new)
    return new != data


def change_summary(signer, altered, tamper, src, files):
    kind, a, b = tamper["t"], tamper["a"], tamper["b"]
    if kind == "hex":
        name = ("checksum", "signature", "signing_key")[a % 3]
        altered[name] = altered[name].upper() if b % 2 else altered[name][:2] + " " + altered[name][2:]
    elif kind in ("signature", "checksum", "key-field"):
        name = "signing_key" if kind == "key-field" else kind
        raw = bytearray(bytes.fromhex(altered[name]))
        raw[a % len(raw)] ^= 1 << b % 8
        altered[name] = bytes(raw).hex()
    elif kind == "digest-of-change":
        # a changed file whose digest is updated along with it
        if files:
            name = files[a % len(files)]
            data = signer.contents[name] + b"!"
            write(src, name, data)
            altered["checksums"][name] = sha(data)
    else:
        places = paths(altered)
        path = places[a % len(places)]
        holder = container(altered, path)
        if kind == "change":
            holder[path[-1]] = other(holder[path[-1]], tamper["value"])
        elif kind == "delete":
            del holder[path[-1]]
        elif kind == "swap":
            second = places[b % len(places)]
            if path[:len(second)] != second and second[:len(path)] != path:
                second_holder = container(altered, second)
                holder[path[-1]], second_holder[second[-1]] = (
                    second_holder[second[-1]], holder[path[-1]])
        elif isinstance(holder, dict):
            if kind == "rename":
                value = holder.pop(path[-1])
                holder[path[-1] + "x"] = value
            else:
                holder["added" if b % 2 else "added/file"] = tamper["value"]
    if tamper["fix"] != "no":
        repair(signer, altered, tamper)


def repair(signer, altered, tamper):
    """The attacker updates what depends on the change."""
    mine = aiootp.Ed25519().import_secret_key(b"m" * 32)
    if tamper["fix"] == "resign":
        if "signing_key" in altered and tamper["b"] % 2:
            altered["signing_key"] = mine.public_bytes.hex()
    digest = hashlib.sha384(json.dumps(strip(altered)).encode()).digest()
    altered["checksum"] = digest.hex()
    if tamper["fix"] == "resign":
        altered["signature"] = mine.sign(digest).hex()


# -------------------------------------------------- recovering the key

logins = st.fixed_dictionaries({
    "change": st.sampled_from(["none", "username", "passphrase", "salt", "credentials", "path", "package"]),
    "how": st.sampled_from(["append", "cut", "case"]), "key": seeds, "token": st.booleans(),
})


def evaluate_login(case):
    root, elsewhere = sut.scratch(), sut.scratch()
    try:
        signer = aiootp.PackageSigner("pkg", "1")
        signer.connect_to_secure_database(b"extra", path=root, **LOGIN, **COSTS)
        signer.update_signing_key(blob(case["key"]))
        public = signer.signing_key.public_bytes
        token = signer.db["pkg"]["signing_key"]
        signer.db.save_database()

        login, extra, path, package = dict(LOGIN), b"extra", root, "pkg"
        edit = {"append": lambda v: v + b"\0", "cut": lambda v: v[:-1],
                "case": lambda v: v.swapcase()}[case["how"]]
        if case["change"] in login:
            login[case["change"]] = edit(login[case["change"]])
        elif case["change"] == "credentials":
            extra = edit(extra)
        elif case["change"] == "path":
            path = elsewhere
        elif case["change"] == "package":
            package = "other"
        second = aiootp.PackageSigner(package, "1")

        def recover():
            second.connect_to_secure_database(extra, path=path, **login, **COSTS)
            if case["token"]:
                # the stored, encrypted key is moved to where it is wanted
                second.db[package]["signing_key"] = token
            return second.signing_key.public_bytes

        worked, got = attempt(recover)
        expect(worked == (case["change"] == "none"), lambda: (
            f"the signing key is lost: {got!r}" if not worked else
            f"the signing key is recovered with another {case['change']}"
        ))
        expect(not worked or got == public, "another signing key is recovered")
    finally:
        sut.remove_scratch(root)
        sut.remove_scratch(elsewhere)


# -------------------------------------------- near misses of a signed file


def near_contents(tier):
    for text in TEXTS + [bytes(range(256)), b"line\n" * 60]:
        yield {"text": {"h": text.hex()}}


def evaluate_near(case):
    data, root, src = blob(case["text"]), sut.scratch(), sut.scratch()
    try:
        signer = aiootp.PackageSigner("pkg", "1.0")
        signer.connect_to_secure_database(path=root, **LOGIN, **COSTS)
        signer.update_signing_key(b"k" * 32)
        signer.add_file("m.py", data)
        signer.sign_package()
        summary = signer.summarize()
        verifier = aiootp.PackageVerifier(signer.signing_key.public_bytes, path=src)
        variants = [edit(data) for edit in EDITS.values()] + TEXTS
        for variant in [data, *variants, data]:
            write(src, "m.py", variant)
            worked, got = attempt(lambda: verifier.verify_summary(summary))
            expect(worked == (variant == data), lambda: (
                f"a package as it was signed is refused: {got!r}" if variant == data else
                f"verifies although {data!r} became {variant!r}"
            ))
    finally:
        sut.remove_scratch(root)
        sut.remove_scratch(src)


def signing_again(tier):
    """Each kind of change between two signatures, with and without files."""
    key = {"op": "key", "key": {"s": [1, 32]}, "form": "bytes"}
    file = {"op": "add", "name": "a.py", "data": {"h": "61"}}
    changes = [
        [], [dict(key, key={"s": [2, 32]})], [dict(key, form="object")], [{"op": "version", "value": "1.1"}],
        [{"op": "version", "value": "1.1"}, {"op": "sign"}, {"op": "version", "value": "1.0"}],
        [file], [dict(file, data={"h": "62"})], [dict(file, name="b.py")], [{"op": "drop", "name": "a.py"}],
        [{"op": "drop", "name": "a.py"}, file], [{"op": "reopen"}],
    ]
    for op in ("scope", "credential"):
        for value in ("x", None, {}) if tier == "quick" else ("x", "", None, 0, False, [], {}):
            first = {"op": op, "name": "author", "value": value}
            changes += [[first], [first, dict(first, value="y")],
                        [first, {"op": "sign"}, {"op": "summary"}, dict(first, value="y")]]
        betweens = [[], [{"op": "summary"}], [{"op": "reopen"}]]
    for files in ([], [file], [file, dict(file, name="pkg/a.py")]):
        for i, change in enumerate(changes):
            for between in betweens if tier == "thorough" else betweens[(i + len(files)) % 2::3]:
                yield {
                    "ops": [key, *files, {"op": "sign"}, *change, *between, {"op": "sign"}, {"op": "summary"}],
                    "final": [], "date": None, "tampers": [
                        {"t": "none", "a": 0, "b": 0, "value": None, "fix": "no", "form": "dict", "files": True},
                    ],
                }


def labels(case):
    for tamper in case["tampers"]:
        yield f"{tamper['t']} {'' if tamper['fix'] == 'no' else tamper['fix']}".strip()


PARTS = [
    Sweep("near-contents", near_contents, evaluate_near),
    Sweep("large", large_cases, evaluate_large),
    Sweep("signing-again", signing_again, evaluate),
    Part("packages", cases, evaluate, 150, 1500, labels=labels,
         nontrivial=lambda c: any(t["t"] != "none" for t in c["tampers"])),
    Part("recovery", logins, evaluate_login, 40, 300, nontrivial=lambda c: c["change"] != "none",
         labels=lambda c: [c["change"]]),
]
