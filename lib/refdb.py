"""
A reference implementation of what databases and profiles keep on disk:
names of files, keys and contents. Only hashlib, the reference cipher and
plain files.
"""

import base64
import json
import os
from hashlib import sha3_256, sha3_512

from lib import refmodel as R

ALPHABET = "-0123456789_abcdefghijklmnopqrstuvwxyz"


def domain(name):
    return R.encode_constant(name, size=16, domain=b"database_constants")


def file_name(value):
    number, digits = int.from_bytes(value, "big"), ""
    while number:
        number, digit = divmod(number, len(ALPHABET))
        digits = ALPHABET[digit] + digits
    return digits or ALPHABET[0]


class Damaged(Exception):
    """A ciphertext is not one the reference can read."""


def seal(name, key, payload, entropy, timestamp=0):
    """Seals the payload; the entropy supplies salt, IV and the random rest."""
    many = R.shake_128(entropy).digest(400)
    padded = R.pad_plaintext(name, payload, timestamp, many[:R.spec(name).siv], many[32:])
    return R.encrypt(name, key, many[16:24], b"", many[24:32], padded)


def unseal(name, key, ciphertext):
    padded, right = R.decrypt(name, key, b"", ciphertext)
    if not right:
        raise Damaged
    return R.unpad(name, padded)


def to_text(data):
    return base64.urlsafe_b64encode(data).rstrip(b"=")


def from_text(text):
    return base64.urlsafe_b64decode(text + b"=" * (-len(text) % 4))


class Store:
    """The files of one database in a directory, and of its children."""

    def __init__(self, folder, key):
        self.folder, self.kdf = folder, R.KDF(domain("root_kdf"), key=key, label=b"database_domain_kdf_salt")
        self.name = file_name(self.kdf.derive("shake_128", size=24, aad=domain("root_filename")))
        self.ledger_key = self.kdf.derive("shake_128", size=168, aad=domain("manifest"))

    def path(self, name):
        return os.path.join(self.folder, name)

    def tag_name(self, tag):
        return file_name(self.kdf.derive("shake_128", self.salt, tag.encode(), aad=domain("filename"), size=24))

    def file_key(self, name, aad=b""):
        return self.kdf.derive("shake_128", domain("cipher"), self.salt, name.encode(), aad=aad, size=64)

    def child(self, name):
        return Store(self.folder, self.kdf.derive("sha3_512", self.salt, name.encode(), aad=domain("metatag_key")))

    def write(self, values, children, entropy):
        """Values by tag and, by name, the values and children of children."""
        self.salt = R.shake_128(b"root salt" + entropy).digest(24)
        ledger = {"0": to_text(self.salt).decode(), "1": list(children)}
        for tag, value in values.items():
            name = self.tag_name(tag)
            ledger[name] = tag
            data = b"\x01\x02" + value if isinstance(value, bytes) else json.dumps(value).encode()
            with open(self.path(name), "wb") as file:
                file.write(seal("Chunky2048", self.file_key(name), data, entropy + tag.encode()))
        with open(self.path(self.name), "wb") as file:
            file.write(seal("Chunky2048", self.ledger_key, json.dumps(ledger).encode(), entropy))
        for name, (inner, more) in children.items():
            self.child(name).write(inner, more, entropy + b"/" + name.encode())

    def read(self, used=None):
        """Values and children, as `write` takes them."""
        used = set() if used is None else used
        with open(self.path(self.name), "rb") as file:
            ledger = json.loads(unseal("Chunky2048", self.ledger_key, file.read()))
        used.add(self.name)
        self.salt, values = from_text(ledger.pop("0").encode()), {}
        names = ledger.pop("1")
        for name, tag in ledger.items():
            if name != self.tag_name(tag):
                raise Damaged
            with open(self.path(name), "rb") as file:
                data = unseal("Chunky2048", self.file_key(name), file.read())
            values[tag] = data[2:] if data[:2] == b"\x01\x02" else json.loads(data)
            used.add(name)
        return values, {name: self.child(name).read(used) for name in names}


# ------------------------------------------------------------------ profiles


def salt_name(key):
    mixed = 0
    for at in range(0, len(key), 8):
        mixed ^= int.from_bytes(key[at:at + 8], "big")
    return file_name(sha3_256(mixed.to_bytes(8, "big")).digest()[:24])


def private_file(folder, key):
    return os.path.join(folder, salt_name(key))


def device_salt_path(folder):
    return private_file(os.path.join(folder, "secure", "_admin"), domain(b"device_salt"))


def profile(folder, username, passphrase, salt, aad, others, mb, cpu, cores, summon):
    """The key of a profile; `summon(path)` supplies the salt kept at a path."""
    device = summon(device_salt_path(folder))
    gist = R.hash_bytes(domain("profile_credential_gist"), device, salt, aad, username, *others, key=device, hasher=sha3_512)
    local = summon(private_file(os.path.join(folder, "secure"), gist))
    return R.passcrypt(
        R.hash_bytes(domain("temporary_profile_prekey"), local, gist, key=passphrase, hasher=sha3_512),
        local, domain("profile_login_key"), mb=mb, cpu=cpu, cores=cores, tag_size=64)
