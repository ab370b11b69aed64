"""C43: identifiers, exchanges and signatures stay compatible with the released version."""

import json
import os
from hashlib import sha384

from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey
from hypothesis import strategies as st

from checks.c13 import stretch
from lib import refdb
from lib import refmodel as R
from lib import strategies as S
from lib import sut
from lib.ciph import call
from lib.harness import Part, expect
from lib.strategies import blob
from lib.sut import aiootp

TECHNIQUE = (
    "differential property-based testing against independent implementations: generated identifiers, "
    "key exchanges and signed packages in which one side is the package and the other a reference of "
    "the released version must agree in both directions"
)
RULE = (
    "a case is an identifier, an exchange or a package with the side the reference plays; non-trivial "
    "when the values are not all zero or empty. Distinct by the whole case."
)
ASSUMPTIONS = (
    "the references in lib/refmodel.py, lib/refdb.py and here are what the released version does: they "
    "were written from its code, on hashlib and the curve operations of the cryptography package",
)

keys = st.one_of(S.SEEDS.map(lambda seed: {"s": [seed, 400]}), st.sampled_from([{"h": "00"}, {"h": "ff"}, {"h": "0001"}]))

# --------------------------------------------------------------- identifiers

sequences = st.fixed_dictionaries({
    "size": st.one_of(st.integers(1, 32), st.sampled_from([1, 2, 12, 12, 32])), "key": keys, "is_async": st.booleans(),
    "unstated": st.booleans(),
    "values": st.lists(st.one_of(st.integers(0, 300), S.SEEDS, st.integers(0, 2**256 - 1), st.integers(-3, -1)), min_size=1, max_size=6),
})


def evaluate_sequences(case):
    size = case["size"]
    key = stretch(blob(case["key"]), 5 * size)
    expect(aiootp.SequenceID.key_size(size) == 5 * size, lambda: f"ids of {size} bytes take keys of {aiootp.SequenceID.key_size(size)} bytes")
    kind = {} if case["unstated"] and size == 12 else {"config_id": size}  # twelve bytes unless stated
    ids, chain = aiootp.SequenceID(key=key, **kind), R.Chain(key, size)
    for value in case["values"]:
        value %= 256**size
        issued = chain.permute(value).to_bytes(size, "big")
        new = call(ids, "new", case["is_async"], value)
        expect(new == issued, lambda: f"number {value} has the id {new.hex()} instead of {issued.hex()}")
        back = call(ids, "read", case["is_async"], issued)
        expect(back == value, lambda: f"the id {issued.hex()} of {value} reads as {back}")


guids = st.fixed_dictionaries({
    "size": st.one_of(st.integers(12, 32), st.just(16)), "key": st.one_of(st.none(), keys), "is_async": st.booleans(), "unstated": st.booleans(),
    "node": st.one_of(st.sampled_from([0, 1, 128, 255]), st.integers(0, 255)), "count": st.integers(1, 3),
    "at": st.one_of(st.integers(0, 300), st.integers(0, 2**62), st.sampled_from([2**32, 2**56 - 1])),
    "byte": st.sampled_from([0, 255, 65]), "raw": S.SEEDS.map(lambda seed: {"s": [seed, 32]}),
})


def default_key(size):
    """The key of identifiers made without one, from the device's own salt."""
    path = refdb.private_file(os.path.join(sut.REPO, "aiootp", "db", "secure", "_admin"), R.encode_constant(b"default_guid_salt", size=16))
    expect(os.path.exists(path), "the device's salt for identifiers is not where the released version keeps it")
    try:
        with open(path, "rb") as file:
            salt = file.read()
    except PermissionError:
        return None
    return R.hash_bytes(b"default_guid_salt", repr(size).encode(), b"", key=salt, hasher=R.shake_256, size=5 * size)


def evaluate_guids(case):
    size, at = case["size"], case["at"]
    key = None if case["key"] is None else stretch(blob(case["key"]), 5 * size)
    known = key or default_key(size)
    if known is None:
        return
    chain = R.Chain(known, size)
    kind = {} if case["unstated"] and size == 16 else {"config_id": size}  # sixteen bytes unless stated
    try:
        sut.randomness.fix(case["byte"])
        sut.wall.freeze(R.EPOCH_NS + at)
        maker = aiootp.GUID(key=key, node_id=bytes([case["node"]]), **kind)
        for number in range(1, case["count"] + 1):
            new = call(maker, "new", case["is_async"])
            plain = chain.invert(int.from_bytes(new, "big")).to_bytes(size, "big")
            expect(plain[:8] == at.to_bytes(8, "big") and plain[-2] == case["node"], lambda: (
                f"identifier {number} made at {at} by node {case['node']} is {plain.hex()} underneath"))
        plain = blob(case["raw"])[:size]
        issued = chain.permute(int.from_bytes(plain, "big")).to_bytes(size, "big")
        got = call(maker, "read", case["is_async"], issued)
        parts = (got.timestamp, got.token, got.node_id, got.ticker)
        expect(parts == (plain[:8], plain[8:-2], plain[-2:-1], plain[-1:]), lambda: f"an identifier made of {plain.hex()} reads as {parts}")
    finally:
        sut.randomness.real()
        sut.wall.real()


# ----------------------------------------------------------------- exchanges

secrets = S.SEEDS.map(lambda seed: {"s": [seed, 32]})
exchanges = st.fixed_dictionaries({
    "protocol": st.sampled_from(["dh2", "dh3"]), "package": st.sampled_from(["client", "server"]), "is_async": st.booleans(),
    "identity": secrets, "peer": secrets, "ephemeral": secrets, "aad": S.aads, "data": S.blobs(0, 40), "objects": st.booleans(),
})


def raw(key):
    return key.public_key().public_bytes_raw()


def evaluate_exchanges(case):
    mine = aiootp.X25519().import_secret_key(blob(case["identity"]))
    peer, ephemeral = (X25519PrivateKey.from_private_bytes(blob(case[n])) for n in ("peer", "ephemeral"))

    def give(key):
        return key.public_key() if case["objects"] else raw(key)

    def shared(key, public):
        return key.exchange(X25519PublicKey.from_public_bytes(public))

    three, is_async = case["protocol"] == "dh3", case["is_async"]
    identity = mine.public_bytes
    if case["package"] == "client":
        client = mine.dh3_client() if three else aiootp.X25519.dh2_client()
        sent = call(client, "send", is_async, give(peer))
        theirs = sent[1] if three else sent
        expect(not three or sent[0] == identity, "the client sends another identity key")
        ours = call(client, "receive", is_async, give(ephemeral))
        key = shared(peer, theirs) + (shared(ephemeral, identity) if three else b"") + shared(ephemeral, theirs)
        seen = ([identity] if three else []) + [theirs, raw(peer), raw(ephemeral)]
    else:
        server = mine.dh3_server() if three else mine.dh2_server()
        ours = call(server, "receive", is_async, *([give(peer)] if three else []), give(ephemeral))
        theirs = call(server, "send", is_async)
        key = shared(ephemeral, identity) + (shared(peer, theirs) if three else b"") + shared(ephemeral, theirs)
        seen = ([raw(peer)] if three else []) + [raw(ephemeral), identity, theirs]
    kdf = R.KDF(R.encode_constant("diffie_hellman_3x" if three else "diffie_hellman_2x"), *seen, key=key)
    data, aad = blob(case["data"]), blob(case["aad"])
    for name, size in (("sha3_256", None), ("sha3_512", None), ("shake_128", 40), ("shake_256", 200)):
        sized = {} if size is None else {"size": size}
        got = call(ours, name, is_async, data, aad=aad, **sized)
        want = kdf.derive(name, data, aad=aad, size=size)
        expect(got == want, lambda: f"the {case['package']} of {case['protocol']} derives {got.hex()}, a released peer {want.hex()}")


# ------------------------------------------------------------------ packages

fields = st.dictionaries(st.sampled_from(["author", "license", "a", "zz", "é", "0"]), S.json_trees(4), max_size=3)
packages = st.fixed_dictionaries({
    "by": st.sampled_from(["package", "format"]), "files": st.lists(st.tuples(
        st.sampled_from(["a.py", "b.py", "é.txt", "with space"]), S.blobs(0, 20)).map(list), max_size=3, unique_by=lambda pair: pair[0]),
    "scope": fields, "credentials": fields, "version": st.sampled_from(["1.0", "2"]), "date": st.integers(1, 30000), "key": secrets,
    "name": st.sampled_from(["pkg", "é", "a-b"]), "entropy": S.SEEDS, "others": st.lists(S.blobs(0, 8), max_size=1),
})
COSTS = {"mb": 1, "cpu": 1, "cores": 1}
LOGIN = {"username": b"user", "passphrase": b"passphrase 123", "salt": b"salt"}


def summary_of(case, key):
    files = {name: sha384(blob(data)).hexdigest() for name, data in case["files"]}
    scope = {**case["scope"], "package": case["name"], "version": case["version"], "date": case["date"]}
    body = {
        "checksums": dict(sorted(files.items())), "public_credentials": dict(sorted(case["credentials"].items())),
        "scope": dict(sorted(scope.items())), "signing_key": raw(key).hex(),
    }
    checksum = sha384(json.dumps(body).encode()).digest()
    return {"checksum": checksum.hex(), **body, "signature": key.sign(checksum).hex()}


def evaluate_packages(case):
    folder = sut.scratch()
    try:
        key, others = Ed25519PrivateKey.from_private_bytes(blob(case["key"])), [blob(each) for each in case["others"]]
        entropy = b"%d" % case["entropy"]
        summary = summary_of(case, key)

        def salt(path):
            if not os.path.exists(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as file:
                    file.write(R.shake_128(entropy + os.path.basename(path).encode()).digest(32))
            else:
                os.chmod(path, 0o600)
            with open(path, "rb") as file:
                content = file.read()
            os.chmod(path, 0)
            return content

        def store():
            return refdb.Store(folder, refdb.profile(
                folder, aad=b"", others=[b"PackageSigner", *others], **LOGIN, **COSTS, summon=salt))

        aad = R.canonical_pack(R.encode_constant("PackageSigner"), case["name"].encode())
        signer = aiootp.PackageSigner(case["name"], case["version"], date=case["date"], **case["scope"])
        if case["by"] == "format":
            kept = store()
            kept.salt = R.shake_128(b"root salt" + entropy).digest(24)
            token = refdb.to_text(refdb.seal("Slick256", kept.file_key("", aad), blob(case["key"]), entropy)).decode()
            kept.write({case["name"]: {
                "signing_key": token, "versions": {case["version"]: summary["signature"]}, "public_credentials": case["credentials"],
            }}, {}, entropy)
            signer.connect_to_secure_database(*others, path=folder, **LOGIN, **COSTS)
            for name, data in case["files"]:
                signer.add_file(name, blob(data))
            found = signer.summarize()
        else:
            signer.connect_to_secure_database(*others, path=folder, **LOGIN, **COSTS)
            signer.update_signing_key(blob(case["key"]))
            signer.update_public_credentials(**case["credentials"])
            for name, data in case["files"]:
                signer.add_file(name, blob(data))
            signer.sign_package()
            signer.db.save_database()
            found = signer.summarize()
            kept = store()
            values, _ = kept.read()
            record = values[case["name"]]
            opened = refdb.unseal("Slick256", kept.file_key("", aad), refdb.from_text(record["signing_key"].encode()))
            expect(opened == blob(case["key"]), "the stored signing key is another one")
            expect(record["versions"] == {case["version"]: summary["signature"]}, "the stored signature is another one")
            expect(record["public_credentials"] == case["credentials"], "the stored credentials are other ones")
        expect(json.dumps(found) == json.dumps(summary), lambda: f"the summary is {found}, of the released version {summary}")
        for name, data in case["files"]:
            with open(os.path.join(folder, name), "wb") as file:
                file.write(blob(data))
        aiootp.PackageVerifier(raw(key), path=folder).verify_summary(json.dumps(summary))
    finally:
        sut.remove_scratch(folder)



PARTS = [
    Part("sequence identifiers", sequences, evaluate_sequences, 800, 16000, nontrivial=lambda case: any(case["values"]),
         labels=lambda case: [f"size {case['size']}"]),
    Part("global identifiers", guids, evaluate_guids, 600, 12000, nontrivial=lambda case: bool(case["at"]),
         labels=lambda case: [f"size {case['size']}", "own key" if case["key"] else "device key"]),
    Part("key exchanges", exchanges, evaluate_exchanges, 400, 8000, nontrivial=lambda case: True,
         labels=lambda case: [case["protocol"], f"package is {case['package']}"]),
    Part("packages", packages, evaluate_packages, 40, 800, nontrivial=lambda case: bool(case["files"]),
         labels=lambda case: [f"by the {case['by']}", f"{len(case['files'])} files"]),
]
