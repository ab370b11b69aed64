"""C48: cancelled stream calls never lead to wrong data which is accepted."""

import asyncio

from hypothesis import strategies as st

from lib import sched
from lib import strategies as S
from lib.harness import Part, Sweep, expect
from lib.sut import aiootp

TECHNIQUE = (
    "property-based exploration of cancellations: generated programs of buffering, iterating "
    "and finalizing run on a deterministic loop, each call cancelled at a chosen turn or not, "
    "and go on; the data they lead to is compared with the data given"
)
RULE = (
    "a case is a program over one stream; non-trivial when a call that had begun was cancelled. "
    "Distinct by the whole case."
)
ASSUMPTIONS = ()

KEY, AAD = b"k" * 64, b"associated"
TURNS = S.weighted((st.none(), 2), (st.integers(0, 12), 3), (st.integers(0, 80), 2))
step = st.fixed_dictionaries({
    "op": st.sampled_from(["buffer", "buffer", "buffer", "iterate"]), "cancel": TURNS, "again": st.booleans(),
    "size": S.weighted((st.integers(0, 40), 2), (S.near([32, 224, 256, 512, 700], spread=2), 2), (st.integers(0, 3000), 1)),
})
cases = st.fixed_dictionaries({
    "cipher": st.sampled_from(S.CIPHERS), "is_encrypting": st.booleans(),
    "steps": st.lists(step, min_size=1, max_size=6), "end": TURNS,
})
LAST = {"cancelled": False}


def piece(number, size):
    return bytes([65 + number]) * size


class Program:
    """Calls on one stream, some of them cancelled."""

    def __init__(self, stream):
        self.stream, self.out = stream, []

    async def iterated(self, source):
        async for block in source:
            self.out.append(block)

    async def call(self, coroutine, turns):
        """True when the call came to its end; its errors are its own."""
        task = asyncio.ensure_future(coroutine)
        if turns is not None:
            await sched.turns(turns)
            if task.cancel():
                LAST["cancelled"] |= turns > 0
                try:
                    await task
                    return True
                except asyncio.CancelledError:
                    return False
        await task
        return True


async def encrypting(case):
    cipher = getattr(aiootp, case["cipher"])(KEY)
    stream = await cipher.astream_encrypt(aad=AAD)
    program = Program(stream)
    allowed, certain = {b""}, True
    try:
        for number, one in enumerate(case["steps"]):
            for turns in [one["cancel"], None][:1 + one["again"]]:
                if one["op"] == "buffer":
                    data = piece(number, one["size"])
                    ended = await program.call(stream.abuffer(data), turns)
                    allowed = {text + data for text in allowed} | (set() if ended else allowed)
                else:
                    ended = await program.call(program.iterated(stream), turns)
                    certain &= ended
                if ended:
                    break
        if not await program.call(program.iterated(stream.afinalize()), case["end"]):
            certain = False
            await program.call(program.iterated(stream.afinalize()), None)
        shmac = stream.shmac.result
    except Exception as error:  # noqa: BLE001
        expect(not certain, lambda: f"a call failed though only buffering calls were cancelled: {error!r}")
        return
    sealed = b"".join([shmac, stream.salt, stream.iv, *(block for _, block in program.out)])
    try:
        text = cipher.bytes_decrypt(sealed, aad=AAD)
    except Exception as error:  # noqa: BLE001
        expect(not certain, lambda: f"only buffering calls were cancelled, and the result is refused: {error!r}")
        return
    expect(text in allowed, lambda: (
        f"{len(text)} bytes decrypt from what an interrupted stream produced; the pieces whole, or absent where "
        f"they were cancelled, make {sorted({len(t) for t in allowed})}"))


async def decrypting(case):
    cipher = getattr(aiootp, case["cipher"])(KEY)
    sender = cipher.stream_encrypt(aad=AAD)
    given = b"".join(piece(n, one["size"]) for n, one in enumerate(case["steps"]))
    sender.buffer(given)
    packets = [identifier + block for identifier, block in sender.finalize()]
    stream = await cipher.astream_decrypt(aad=AAD, salt=sender.salt, iv=sender.iv)
    program = Program(stream)
    sendings = sum(one["op"] == "buffer" for one in case["steps"]) or 1
    share = -(-len(packets) // sendings)
    disturbed, at, ended = False, 0, False
    try:
        for one in [*case["steps"], {"op": "rest", "cancel": None, "again": False}]:
            if one["op"] == "iterate" and not at:
                continue  # nothing has been received yet
            for turns in [one["cancel"], None][:1 + one["again"]]:
                if one["op"] == "iterate":
                    over = await program.call(program.iterated(stream), turns)
                else:
                    data = b"".join(packets[at:] if one["op"] == "rest" else packets[at:at + share])
                    over = not data or await program.call(stream.abuffer(data), turns)
                disturbed |= not over
                if over:
                    break
            if one["op"] == "buffer":
                at += share
        if not await program.call(program.iterated(stream.afinalize()), case["end"]):
            disturbed = True
            await program.call(program.iterated(stream.afinalize()), None)
        await stream.shmac.atest_shmac(sender.shmac.result)
        ended = True
    except Exception as error:  # noqa: BLE001
        expect(disturbed, lambda: f"a call failed though none was cancelled: {error!r}")
    released = b"".join(program.out)
    expect(given.startswith(released), lambda: (
        f"an interrupted stream released {len(released)} bytes which are not the beginning of the {len(given)} sent"))
    if ended:
        expect(released == given, lambda: (
            f"an interrupted stream was authenticated to its end and released {len(released)} of {len(given)} bytes"))


def evaluate(case):
    LAST["cancelled"] = False
    try:
        sched.run((encrypting if case["is_encrypting"] else decrypting)(case), limit=60000)
    except sched.Stuck as error:
        expect(False, f"after a cancellation: {error}", key="stuck")


def nontrivial(case):
    # judged after the case has run
    return LAST["cancelled"]


def labels(case):
    yield "encrypting" if case["is_encrypting"] else "decrypting"
    for one in case["steps"]:
        if one["cancel"] is not None:
            yield f"{one['op']} cancelled"
    if case["end"] is not None:
        yield "finalizing cancelled"


def every_turn(tier):
    """One call of each kind, cancelled at each of its turns, repeated or not."""
    for cipher in S.CIPHERS:
        for is_encrypting in (True, False):
            for op in ("buffer", "iterate", "end"):
                for again in (False, True):
                    for at in range(30):
                        steps = [{"op": "buffer", "size": 700, "cancel": None, "again": False},
                                 {"op": op, "size": 300, "cancel": at, "again": again},
                                 {"op": "buffer", "size": 300, "cancel": None, "again": False}]
                        if op == "end":
                            del steps[1]
                        yield {"cipher": cipher, "is_encrypting": is_encrypting, "steps": steps,
                               "end": at if op == "end" else None}


PARTS = [
    Sweep("every turn", every_turn, evaluate, nontrivial=nontrivial, labels=labels),
    Part("programs", cases, evaluate, 2500, nontrivial=nontrivial, labels=labels),
]
