"""One history of lost workers, in a process of its own (see C44)."""

import asyncio
import json
import multiprocessing
import os
import signal
import sys

from lib import refmodel as R
from lib import sut, work
from lib.harness import Violation, expect
from lib.sut import aiootp

Processes, Threads = aiootp.asynchs.Processes, aiootp.asynchs.Threads
PASSPHRASE, SALT = b"a passphrase of the check", b"salt of the check"
COSTS = {"mb": 1, "cpu": 1, "cores": 1, "tag_size": 16}
HASHES = {}


def hasher(cores):
    return aiootp.Passcrypt(**{**COSTS, "cores": cores})


class World:
    """What is known of the pool: fresh (must work), broken or either (may not)."""

    def __init__(self):
        Processes.reset_pool()
        self.state = "fresh"
        self.number = 0

    async def ended(self, what, awaitable):
        """The result or the error of one call."""
        try:
            return "done", await awaitable
        except Processes.BrokenPool as error:
            return "broken", error
        except RuntimeError as error:
            return "refused", error

    async def submit(self, is_async, function, *args):
        if is_async:
            future = await Processes.asubmit(function, *args)
            return await future.aresult()
        return await asyncio.to_thread(lambda: Processes.submit(function, *args).result())

    async def hashed(self, is_async, cores):
        if is_async:
            return await hasher(cores).anew(PASSPHRASE, SALT)
        return await asyncio.to_thread(hasher(cores).new, PASSPHRASE, SALT)

    def expect(self, found, value, state, what):
        kind, result = found
        if kind == "done":
            expect(result == value, lambda: f"{what} gave {result!r} instead of {value!r}")
        else:
            expect(state != "fresh", lambda: f"{what} failed on a working pool: {result!r}")

    async def work(self, one):
        self.number += 1
        function = work.aecho if one["is_async"] and self.number % 2 else work.echo
        found = await self.ended("work", self.submit(one["is_async"], function, self.number))
        self.expect(found, self.number, self.state, "work")
        if found[0] != "done":
            self.state = "broken"

    async def die(self, one):
        function = work.adie if one["is_async"] else work.die
        kind, result = await self.ended("death", self.submit(one["is_async"], function, os.getpid(), one["how"]))
        expect(kind != "done", lambda: f"a call whose worker died returned {result!r}")
        self.state = "broken"

    async def kill(self, one):
        """A worker is killed while it has nothing to do."""
        kind, result = await self.ended("its number", self.submit(one["is_async"], os.getpid))
        if kind == "done":
            children = {child.pid for child in multiprocessing.active_children()}
            expect(result != os.getpid() and result in children,
                   "the work was not done by a process of the pool")
            os.kill(result, signal.SIGKILL)
            self.state = "either" if self.state != "broken" else "broken"
        else:
            expect(self.state != "fresh", lambda: f"work failed on a working pool: {result!r}")
            self.state = "broken"

    async def hash(self, one):
        found = await self.ended("hashing", self.hashed(one["is_async"], one["cores"]))
        self.expect(found, HASHES[one["cores"]], self.state, "hashing")
        if found[0] != "done":
            # whoever is told so can try again
            self.state = "fresh"

    async def reset(self, one):
        Processes.reset_pool()
        self.state = "fresh"

    async def resets(self, one):
        """Several threads replace the pools at once, and use them."""
        def run(n):
            for _ in range(60):
                for helper in (Processes, Threads):
                    helper.reset_pool()
                if Threads.submit(work.echo, n).result() != n:
                    return False
            return True

        found = await asyncio.gather(*[asyncio.to_thread(run, n) for n in range(6)])
        expect(all(found), "work sent to threads gave another result")
        self.state = "fresh"

    async def outstanding(self, one):
        """The pools are replaced while work is under way."""
        self.number += 1
        for helper in (Processes, Threads):
            if helper is Processes and self.state != "fresh":
                continue
            futures = [await helper.asubmit(work.echo, (self.number, n), 40) for n in range(one["many"])]
            helper.reset_pool()
            for n, future in enumerate(futures):
                result = await future.aresult() if one["is_async"] else await asyncio.to_thread(future.result)
                expect(result == (self.number, n), lambda: f"work gave {result!r} instead of {(self.number, n)}")

    async def single(self, one):
        self.number += 1
        if one["is_async"]:
            result = await Processes.anew(work.aecho, self.number)
        else:
            result = await asyncio.to_thread(Processes.new, work.echo, self.number)
        expect(result == self.number, lambda: f"work in a process of its own gave {result!r} instead of {self.number}")

    async def single_die(self, one):
        try:
            if one["is_async"]:
                result = await Processes.anew(work.adie, os.getpid(), one["how"])
            else:
                result = await asyncio.to_thread(Processes.new, work.die, os.getpid(), one["how"])
        except Exception:  # noqa: BLE001
            return
        raise Violation(f"a call whose process died returned {result!r}")

    async def together(self, one):
        before = self.state
        dies = any(p["op"] == "die" for p in one["pieces"])
        state = before if before != "fresh" else "either" if dies else "fresh"
        # hashing replaces a broken pool, for the others as well
        hashes = any(p["op"] == "hash" for p in one["pieces"])
        if state == "broken" and hashes:
            state = "either"

        async def run(n, p):
            if p["op"] == "work":
                return await self.ended("work", self.submit(one["is_async"], work.echo, n, p["delay"]))
            if p["op"] == "die":
                return await self.ended("death", self.submit(
                    one["is_async"], work.die, os.getpid(), p["how"], p["delay"]))
            return await self.ended("hashing", self.hashed(one["is_async"], p["cores"]))

        found = await asyncio.gather(*[run(n, p) for n, p in enumerate(one["pieces"])])
        for n, (p, result) in enumerate(zip(one["pieces"], found)):
            if p["op"] == "die":
                expect(result[0] != "done", lambda: f"a call whose worker died returned {result[1]!r}")
            else:
                self.expect(result, n if p["op"] == "work" else HASHES[p["cores"]], state, p["op"])
        if dies:
            self.state = "either" if hashes else "broken"
        elif state == "either":
            self.state = "either"


async def play(case):
    world = World()
    for one in case["ops"]:
        await getattr(world, one["op"].replace(" ", "_"))(one)
    # in the end: at most one refusal, then the right result
    is_async = case["ops"][0]["is_async"]
    for attempt in range(2):
        if world.state == "fresh":
            break
        await world.hash({"is_async": is_async, "cores": 1})
    await world.hash({"is_async": not is_async, "cores": 1})


def main():
    case = json.loads(sys.argv[1])
    for cores in (1, 2):
        HASHES[cores] = R.passcrypt(PASSPHRASE, SALT, b"", b"", **{**COSTS, "cores": cores})
    try:
        sut.run(play(case))
    except Violation as error:
        print(json.dumps({"violation": str(error)}))
    else:
        print(json.dumps({"violation": None}))


if __name__ == "__main__":
    main()
