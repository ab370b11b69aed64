"""
Reference implementations, written from the documented constructions and
independent of the package: only hashlib and integers.

They are the oracles of the differential checks. Speed does not matter;
being straightforward does.
"""

import hashlib
import math
from hashlib import sha3_256, sha3_512, shake_128, shake_256

HASHERS = {
    "sha3_256": sha3_256,
    "sha3_512": sha3_512,
    "shake_128": shake_128,
    "shake_256": shake_256,
    "sha256": hashlib.sha256,
    "sha512": hashlib.sha512,
    "blake2b": hashlib.blake2b,
    "sha3_384": hashlib.sha3_384,
}
EPOCH_S = 1672531200
EPOCH_NS = EPOCH_S * 10**9


# ------------------------------------------------- encodings and hashing


def be(number, size):
    return number.to_bytes(size, "big")


def le(number, size):
    return number.to_bytes(size, "little")


def pad_block(data, blocksize, pad):
    short = -len(data) % blocksize
    return data + pad * short


def encode_key(key, blocksize, pad=b"\x00"):
    return pad_block(key + le(len(key), 8) + le(blocksize, 8) + pad, blocksize, pad)


def canonical_pack(*items, blocksize=1, pad=b"\x00", int_bytes=8):
    every = (be(blocksize, int_bytes), pad) + items
    out = bytearray([int_bytes])
    out += be(len(every), int_bytes)
    for item in every:
        out += be(len(item), int_bytes)
        out += item
    return pad_block(bytes(out), blocksize, pad)


class NotCanonical(Exception):
    pass


def canonical_unpack(blob):
    """The strict inverse of `canonical_pack`."""
    if not blob:
        raise NotCanonical
    width = blob[0]
    at = 1

    def take(size):
        nonlocal at
        chunk = blob[at:at + size]
        if len(chunk) != size:
            raise NotCanonical
        at += size
        return chunk

    count = int.from_bytes(take(width), "big")
    if count < 2 or count > len(blob):
        raise NotCanonical
    items = []
    for _ in range(count):
        size = int.from_bytes(take(width), "big")
        if size > len(blob):
            raise NotCanonical
        items.append(take(size))
    blocksize = int.from_bytes(items[0], "big")
    pad = items[1]
    if len(items[0]) != width or len(pad) != 1:
        raise NotCanonical
    if not blocksize or len(blob) % blocksize:
        raise NotCanonical
    if any(byte != pad[0] for byte in blob[at:]):
        raise NotCanonical
    return items[2:]


def hash_bytes(*items, hasher=sha3_512, pad=b"\x00", size=None, key=None):
    obj = hasher()
    data = b""
    if key is not None:
        data += encode_key(key, obj.block_size, pad)
    data += canonical_pack(
        be(size or obj.digest_size, 8), *items, blocksize=obj.block_size, pad=pad,
    )
    obj = hasher(data)
    return obj.digest(size) if size else obj.digest()


def encode_constant(constant, size=8, domain=b"", aad=b"", pad=b"\x00"):
    if isinstance(constant, str):
        constant = constant.encode()
    return hash_bytes(
        b"domain_constant_encoder", domain, aad, constant,
        hasher=shake_128, size=size, pad=pad,
    )


class KDF:
    """DomainKDF."""

    def __init__(self, domain, *data, key, label=b"domain_kdf_salt"):
        self.absorbed = encode_constant(label, size=168) + hash_bytes(
            encode_constant("key_derivation_function"), domain, *data,
            key=key + domain, size=168, hasher=shake_128,
        )

    def update(self, *data):
        self.absorbed += canonical_pack(*data, blocksize=168)

    def copy(self):
        new = KDF.__new__(KDF)
        new.absorbed = self.absorbed
        return new

    def derive(self, name, *data, size=None, aad=b""):
        hasher = HASHERS[name]
        return hash_bytes(
            aad, *data, size=size, hasher=hasher,
            key=shake_128(self.absorbed).digest(hasher().block_size),
        )


# --------------------------------------------------------- permutations


def _is_prime(n):
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    if n in small:
        return True
    if n < 2 or any(n % p == 0 for p in small):
        return False
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for i in range(24):
        a = 2 + int.from_bytes(shake_128(b"witness%d" % i + be(n, 600)).digest(40), "big") % (n - 3)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


_primes = {}


def prime_above(bits):
    """The smallest prime greater than 2**bits."""
    if bits not in _primes:
        n = (1 << bits) + 1
        while not _is_prime(n):
            n += 2
        _primes[bits] = n
    return _primes[bits]


def _likely_safe(multiplier, prime):
    size = prime.bit_length()
    root = 1 << (size // 2)
    text = f"{multiplier:b}"
    flips = sum(a != b for a, b in zip(text, text[1:]))
    span = int(math.log2(size) - 1)
    return (
        multiplier & 1
        and root < multiplier < 4 * root
        and flips - span < size / 4 < flips + span
    )


_multipliers = {}


def multiplier_of(size):
    if size not in _multipliers:
        prime = prime_above(8 * size)
        top = 1 << (prime.bit_length() // 2)
        i = 0
        while True:
            value = int.from_bytes(
                encode_constant(
                    f"multiplicative_key_{i}_{prime}",
                    domain=b"affine_permutation_constant", size=size,
                ), "big",
            )
            key = top | (value & (top - 1))
            if _likely_safe(key, prime):
                break
            i += 1
        _multipliers[size] = key
    return _multipliers[size]


class Affine:
    def __init__(self, key, size):
        assert len(key) == 2 * size
        self.size = size
        self.prime = prime_above(8 * size)
        self.limit = 1 << (8 * size)
        self.m = multiplier_of(size)
        self.inv = pow(self.m, -1, self.prime)
        self.a = int.from_bytes(key, "big")

    def permute(self, v):
        v = (self.m * v + self.a) % self.prime
        while v >= self.limit:
            v = (self.m * v + self.a) % self.prime
        return v

    def invert(self, v):
        v = self.inv * (v - self.a) % self.prime
        while v >= self.limit:
            v = self.inv * (v - self.a) % self.prime
        return v


class Chain:
    """AffineXORChain (fast=False) and FastAffineXORChain (fast=True)."""

    def __init__(self, key, size, fast=True):
        self.size = size
        assert len(key) == (5 if fast else 9) * size
        cut = [key[i * size:(i + 1) * size] for i in range(3)]
        rest = key[3 * size:]
        self.k_in, mid, self.k_out = (int.from_bytes(c, "big") for c in cut)
        self.k_mid_1 = mid ^ int.from_bytes(b"\xa3" * size, "big")
        self.k_mid_2 = mid ^ int.from_bytes(b"\x1b" * size, "big")
        self.inc = int.from_bytes(b"\x8d" * size, "big")
        if fast:
            self.affs = [Affine(rest, size)] * 3
        else:
            self.affs = [
                Affine(rest[2 * i * size:2 * (i + 1) * size], size)
                for i in range(3)
            ]

    def uncapped_permute(self, v):
        a, b, c = self.affs
        return c.permute(b.permute(a.permute(v) ^ self.k_mid_1) ^ self.k_mid_2)

    def uncapped_invert(self, v):
        a, b, c = self.affs
        return a.invert(b.invert(c.invert(v) ^ self.k_mid_2) ^ self.k_mid_1)

    def permute(self, v):
        return self.uncapped_permute(v ^ self.k_in) ^ self.k_out

    def invert(self, v):
        return self.uncapped_invert(v ^ self.k_out) ^ self.k_in

    def step(self):
        self.k_in = (self.k_in + self.inc) % (1 << (8 * self.size))

    def update_increment(self, value):
        self.inc = (self.inc ^ value) | 1


# --------------------------------------------------------------- ciphers


def xor(a, b):
    assert len(a) == len(b)
    return bytes(x ^ y for x, y in zip(a, b))


class Spec:
    """The published parameters of one of the two ciphers."""

    def __init__(self, name, blocksize, siv, tag, block_id, pads, header):
        self.name = name
        self.block = blocksize
        self.siv = siv
        self.tag = tag
        self.block_id = block_id
        self.header = 4 + siv
        self.pads = pads
        self.overhead = tag + 16
        self.perm_size = header
        self.perm_key = 5 * header
        vector = be(
            Chain(shake_128(name.encode()).digest(self.perm_key), header).permute(0),
            header,
        )
        sl = lambda *a: str(slice(*a)).encode()  # noqa: E731
        whole = str(slice(None)).encode()
        primer = 168 * (1 + math.ceil(self.perm_key / 168))
        self.primer = primer
        common = [
            name.encode(), name.encode(), be(EPOCH_NS, 16), be(blocksize, 2),
            be(0, 2), sl(0, tag, 1), sl(0, block_id, 1), sl(tag, tag + 8, 1),
            sl(tag + 8, tag + 16, 1), sl(0, 4, 1), sl(4, 4 + siv, 1),
            sl(-1, None, 1), be(primer, 2), sl(0, 168, 1), vector,
            str(header).encode(), sl(-self.perm_key, None, 1),
        ]
        if name == "Chunky2048":
            cap = (336 - blocksize) // 2
            half = self.header // 2
            common += [
                sl(0, cap, 1), sl(-cap, None, 1), sl(cap, -cap, 1),
                sl(self.header, None, 1), sl(cap + half, -cap - half, 1),
                sl(2 * self.header, None, 1), sl(-tag, None, 1),
            ]
            slices = {"block_id_kdf": whole, "shmac_kdf": whole,
                      "left_kdf": sl(0, None, 2), "right_kdf": sl(1, None, 2)}
            order = ["block_id_kdf", "shmac_kdf", "left_kdf", "right_kdf"]
        else:
            common += [
                sl(2 * blocksize, 168, 1), sl(0, blocksize, 1),
                sl(blocksize, 2 * blocksize, 1), sl(-tag, None, 1),
            ]
            slices = {"block_id_kdf": whole, "shmac_kdf": whole}
            order = ["block_id_kdf", "shmac_kdf"]
        for kdf in order:
            common += [pads[kdf], b"shake_128", slices[kdf]]
        self.metadata = canonical_pack(*common, int_bytes=1)
        self.bases = {
            kdf: encode_constant(
                f"{kdf}_salt", size=336, domain=name.encode(), aad=self.metadata,
            )
            for kdf in order
        }


_specs = {}


def spec(name):
    if name not in _specs:
        if name == "Chunky2048":
            _specs[name] = Spec(
                name, 256, 16, 32, 24, dict(
                    block_id_kdf=b"\xac", shmac_kdf=b"\x9a",
                    left_kdf=b"\x5c", right_kdf=b"\x36",
                ), 20,
            )
        else:
            _specs[name] = Spec(
                name, 32, 8, 24, 16, dict(
                    block_id_kdf=b"\x9a", shmac_kdf=b"\xac",
                ), 32,
            )
    return _specs[name]


class Session:
    """One message under one of the two ciphers, either direction."""

    def __init__(self, name, key, salt, aad, iv):
        self.spec = s = spec(name)
        self.name = name
        summary = canonical_pack(salt, aad, iv, int_bytes=4)

        def keyed(kdf):
            pad = s.pads[kdf]
            return shake_128(
                s.bases[kdf] + encode_key(key, 168, pad)
                + pad_block(summary, 168, pad),
            )

        self.mac = keyed("shmac_kdf")
        primer = self.mac.digest(s.primer)
        self.cur = self.prev = primer[:168]
        self.perm = Chain(primer[-s.perm_key:], s.perm_size)
        self.first = True
        self.id_digest = self.cur
        if name == "Chunky2048":
            self.left, self.right = keyed("left_kdf"), keyed("right_kdf")

    def _absorb(self, data):
        self.mac.update(data)
        self.prev, self.cur = self.cur, self.mac.digest(168)

    def _keystream(self, ratchet):
        self.left.update(ratchet[::2])
        self.right.update(ratchet[1::2])
        return self.left.digest(168) + self.right.digest(168)

    def _chunky(self, block, encrypt):
        h = self.spec.header
        if self.first:
            head, body = block[:h], block[h:]
            if encrypt:
                clear = head
                masked = be(self.perm.permute(int.from_bytes(head, "big")), h)
            else:
                masked = head
                clear = be(self.perm.invert(int.from_bytes(head, "big")), h)
            self.mac.update(clear + masked + self.cur[2 * h:])
            key = self._keystream(self.mac.digest(336))
            cut = 40 + h // 2
            other = xor(key[cut:336 - cut], body)
            out = (masked if encrypt else clear) + other
            cipher = out if encrypt else block
        else:
            key = self._keystream(self.cur + self.prev)
            out = xor(key[40:296], block)
            cipher = out if encrypt else block
        self._absorb(key[:40] + cipher + key[296:])
        self.first = False
        return out

    def _slick(self, block, encrypt):
        in_key, out_key, rest = self.cur[:32], self.cur[32:64], self.cur[64:]
        if encrypt:
            mixed = self.perm.uncapped_permute(int.from_bytes(xor(in_key, block), "big"))
            out = xor(out_key, be(mixed, 32))
            self._absorb(block + out + rest)
        else:
            mixed = self.perm.uncapped_invert(int.from_bytes(xor(out_key, block), "big"))
            out = xor(in_key, be(mixed, 32))
            self._absorb(out + block + rest)
        return out

    def transform(self, block, encrypt):
        self.id_digest = self.cur
        if self.name == "Chunky2048":
            return self._chunky(block, encrypt)
        return self._slick(block, encrypt)

    def block_id(self, block, size=None, aad=b"", before=False):
        """The id of the block just transformed (or about to be)."""
        size = size or self.spec.block_id
        digest = self.cur if before else self.id_digest
        return shake_128(
            self.spec.bases["block_id_kdf"] + digest + be(size, 1)
            + be(len(aad), 8) + aad + be(len(block), 8) + block,
        ).digest(size)

    def tag(self):
        return self.mac.digest(336)[-self.spec.tag:]


def pad_plaintext(name, data, timestamp, siv, filler):
    """`filler` supplies the random bytes of the footer, last first."""
    s = spec(name)
    size = s.block - (s.header + len(data)) % s.block
    footer = (filler * (1 + s.block // max(1, len(filler))))[: size - 1]
    return be(timestamp, 4) + siv + data + footer + be(size % s.block, 1)


def split(data, size):
    return [data[i:i + size] for i in range(0, len(data), size)]


def encrypt_blocks(name, key, salt, aad, iv, padded):
    session = Session(name, key, salt, aad, iv)
    out = []
    for block in split(padded, session.spec.block):
        sealed = session.transform(block, True)
        out.append((session.block_id(sealed), sealed))
    return out, session.tag()


def encrypt(name, key, salt, aad, iv, padded):
    blocks, tag = encrypt_blocks(name, key, salt, aad, iv, padded)
    return tag + salt + iv + b"".join(block for _, block in blocks)


def decrypt(name, key, aad, ciphertext):
    """Returns (padded plaintext, tag is right)."""
    s = spec(name)
    tag, salt, iv = (
        ciphertext[: s.tag], ciphertext[s.tag: s.tag + 8],
        ciphertext[s.tag + 8: s.tag + 16],
    )
    session = Session(name, key, salt, aad, iv)
    blocks = split(ciphertext[s.tag + 16:], s.block)
    padded = b"".join(session.transform(block, False) for block in blocks)
    return padded, session.tag() == tag


def unpad(name, padded):
    s = spec(name)
    return padded[s.header: len(padded) - (padded[-1] or s.block)]


def ciphertext_size(name, payload_size):
    """Fixed overhead plus the smallest number of whole blocks."""
    s = spec(name)
    content = s.header + payload_size + 1
    return s.overhead + s.block * math.ceil(content / s.block)


# ------------------------------------------------------------- passcrypt

PASSCRYPT_METADATA = None


def passcrypt_metadata():
    global PASSCRYPT_METADATA
    if PASSCRYPT_METADATA is None:
        b8 = lambda n: be(n, 8)  # noqa: E731
        tx = lambda v: str(v).encode()  # noqa: E731
        PASSCRYPT_METADATA = canonical_pack(
            b"Passcrypt", tx(range(1, 9)), tx(slice(12, 13, 1)), tx(range(1, 33)),
            tx(slice(11, 12, 1)), b8(2), b8(4), b8(1), b8(64), b8(8),
            be(EPOCH_NS, 16), tx(slice(0, 14, 1)), b8(256), b8(256), b8(256**3),
            b8(256), b8(3), tx(range(1, 512)), tx(slice(8, 11, 1)), b8(1), b8(1),
            b8(1), b8(12), b8(4), b8(34), b8(16), b"\xf2", tx(slice(13, 14, 1)),
            b"nanoseconds", tx(slice(0, 8, 1)), int_bytes=1,
        )
    return PASSCRYPT_METADATA


def _passcrypt_core(passphrase, salt, aad, mb, cpu, cores, tag_size):
    domain = encode_constant("passcrypt")
    parameters = hash_bytes(
        domain, passcrypt_metadata(), salt, aad, be(mb, 8), be(cpu, 8),
        be(cores, 8), be(tag_size, 8), key=passphrase + salt + aad,
        hasher=shake_128, size=336, pad=b"\xf2",
    )
    proof = shake_128(
        encode_constant(b"passcrypt_proof_kdf_salt", domain=domain, size=168)
        + parameters,
    )
    rounds = max(1, cpu // 2)
    row = 336 * rounds
    rows = math.ceil(1024 * 1024 * mb / row)
    total = row * rows
    ram = bytearray(proof.digest(total))
    proof.update(bytes(ram[-168:]))
    for column in range(rounds):
        for number in range(rows):
            start = number * row
            proof.update(bytes(ram[start:start + row]))
            ram[start + 336 * column:start + 336 * column + 168] = proof.digest(168)
            mirror = (rows - 1 - number) * row
            # (the construction absorbs nothing where the mirror of the
            # first row, the last row, would be expected)
            if number:
                proof.update(bytes(ram[mirror:mirror + row]))
            at = mirror + 336 * column + 168
            ram[at:at + 168] = proof.digest(168)
    for i in range(cpu + 2):
        ram[168 * i:168 * i + 84] = proof.digest(84)
        proof.update(bytes(ram))
    return proof.digest(168)


def passcrypt(passphrase, salt, aad=b"", pepper=b"", mb=1, cpu=1, cores=1, tag_size=16):
    results = []
    for core in range(cores):
        core_aad = canonical_pack(
            pepper, aad, be(core, 8), be(mb, 8),
        )
        results.append(
            _passcrypt_core(
                passphrase, salt, core_aad, math.ceil(mb / cores), cpu, cores, tag_size,
            ),
        )
    return hash_bytes(*results, size=tag_size, hasher=shake_128, key=results[0])


def passcrypt_hash(timestamp, passphrase, salt, aad=b"", pepper=b"", mb=1, cpu=1,
                   cores=1, tag_size=16):
    tag = passcrypt(passphrase, salt, timestamp + aad, pepper, mb, cpu, cores, tag_size)
    return (
        timestamp + be(mb - 1, 3) + be(cpu - 1, 1) + be(cores - 1, 1)
        + be(len(salt) - 1, 1) + salt + tag
    )


# ------------------------------------------------------ keyed selections


def keyed_choice_indexes(total, size, domain, key):
    stream = KDF(domain, be(total, 8), be(size, 8), key=key).derive(
        "shake_256", size=16 * size, aad=encode_constant("pseudo_random_number_generator"),
    )
    return [int.from_bytes(chunk, "big") % total for chunk in split(stream, 16)]
