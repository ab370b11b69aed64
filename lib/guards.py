"""
Users of guards, run by threads and tasks under a chosen schedule, and the
record of who held what, when.

A case is {"actors": [...], "switches": [[n, k], ...]}. An
actor is a thread {"uses": [...]} or an event loop {"tasks": [{"uses":
[...], "cancel": n or None}, ...]}. A use is one context: {"wait", "hold",
"end", "mode", "target", "interrupt"}.
"""

import asyncio

from lib import sched, tsched
from lib.harness import Violation, expect

ARRIVED_TURNS = 12  # turns of a loop after which a waiting task has arrived


class Boom(Exception):
    pass


class Interrupt(BaseException):
    """What a signal handler raises into a waiting thread."""


class Quit(BaseException):
    pass


#   what a context may end with
ERRORS = {"error": Boom, "quit": Quit, "interrupt": KeyboardInterrupt, "exit": SystemExit,
          "generator": GeneratorExit, "stop": StopIteration, "timeout": TimeoutError,
          "index": IndexError, "cancelled": asyncio.CancelledError}


class User:
    """One context of one actor."""

    def __init__(self, world, name, use):
        self.world = world
        self.name = name
        self.use = use
        self.target = use.get("target", 0)
        self.exclusive = use.get("mode", "guard") == "guard"
        self.state = "new"  # waiting, held, left, gone
        self.arrived = False
        self.began_turn = None
        self.before = []

    def began(self, turn=None):
        self.state = "waiting"
        self.began_turn = turn
        self.before = [
            other for other in self.world.users
            if other.state == "waiting" and other.has_arrived() and other.conflicts(self)
        ]
        self.world.users.append(self)

    def has_arrived(self):
        if self.began_turn is None:
            return self.arrived
        loop, turn = self.began_turn
        return loop.turns - turn >= ARRIVED_TURNS

    def conflicts(self, other):
        return other is not self and self.target == other.target and (self.exclusive or other.exclusive)

    def entered(self):
        for other in self.world.users:
            if other.state == "held" and self.conflicts(other):
                self.world.fail(f"{self.name} is let in while {other.name} holds the guard")
        for other in self.before if self.world.judge_order else ():
            if other.state == "waiting":
                self.world.fail(f"{self.name} is let in before {other.name}, which waited already when it arrived")
        self.state = "held"
        self.world.entered.append(self)

    def left(self):
        self.state = "left"


class World:
    """`make(user)` returns a new guard for a user; `queues()` what is left of them."""

    def __init__(self, case, make, leftovers, locks=lambda: ()):
        self.case = case
        self.make = make
        self.leftovers = leftovers
        self.users = []
        self.entered = []
        self.judge_order = True
        self.failure = None
        self.threads = tsched.Threads(case["switches"], within=("asynchs",))
        self.threads.busy = lambda: any(lock.locked() for lock in locks())

    def fail(self, message):
        if self.failure is None:
            self.failure = message

    def run(self):
        for number, actor in enumerate(self.case["actors"]):
            if "tasks" in actor:
                self.threads.spawn(lambda n=number, a=actor: self.loop(n, a))
            else:
                self.threads.spawn(lambda n=number, a=actor: self.thread(n, a))
        try:
            self.threads.run()
        except sched.Stuck as error:
            if self.failure is None:
                waiting = [u.name for u in self.users if u.state == "waiting"]
                raise Violation(f"{', '.join(waiting) or 'nobody'} is never let in ({error})") from error
        if self.failure is not None:
            raise Violation(self.failure)
        left = self.leftovers()
        expect(not left, lambda: f"everybody has left and {left} remains")

    # ---------------------------------------------------------------- threads

    def thread(self, number, actor):
        worker = self.threads.local.worker
        for at, use in enumerate(actor["uses"]):
            user = User(self, f"thread {number} use {at}", use)
            for _ in range(use["wait"]):
                self.threads.sleep()
            sleeps = [0]

            def on_sleep(user=user, use=use, sleeps=sleeps):
                if user.state != "waiting":
                    return
                user.arrived = True
                sleeps[0] += 1
                if use["interrupt"] is not None and sleeps[0] > use["interrupt"]:
                    user.state = "gone"
                    raise Interrupt

            boom = ERRORS.get(use["end"], Boom)()
            worker.on_sleep = on_sleep
            try:
                guard = self.make(user)
                user.began()
                with guard:
                    user.entered()
                    try:
                        for _ in range(use["hold"]):
                            self.threads.sleep()
                        while "until" in use and not use["until"]():
                            self.threads.sleep(0.001)
                        if use["end"] in ERRORS:
                            raise boom
                    finally:
                        user.left()
                if use["end"] in ERRORS:
                    self.fail(f"the error raised inside the context of {user.name} is swallowed")
            except Interrupt:
                if user.state != "gone":
                    raise
            except tsched.Ended:
                raise
            except BaseException as error:  # noqa: BLE001
                if error is not boom:
                    self.fail(f"{user.name} fails with {error!r}")
            finally:
                worker.on_sleep = None
                if user.state == "waiting":
                    user.state = "gone"

    # ------------------------------------------------------------------ tasks

    def loop(self, number, actor):
        async def main():
            running = asyncio.get_running_loop()

            async def cancel(task, users, turns):
                await sched.turns(turns)
                for user in users:
                    if user.state == "waiting":
                        user.state = "gone"
                return task.cancel()

            tasks = []
            for n, one in enumerate(actor["tasks"]):
                users = []
                task = running.create_task(self.task(f"loop {number} task {n}", one, users))
                canceller = one["cancel"] is not None and running.create_task(cancel(task, users, one["cancel"]))
                tasks.append((task, canceller))
            for task, canceller in tasks:
                cancelled = canceller and await canceller
                try:
                    await task
                    if cancelled:
                        self.fail("the cancellation of a task is swallowed")
                except asyncio.CancelledError:
                    if not cancelled:
                        raise
                except Exception as error:  # noqa: BLE001
                    self.fail(f"a task fails with {error!r}")

        sched.run(main(), actor.get("choices", ()), on_idle=self.threads.sleep, limit=60000)

    async def task(self, name, one, users):
        loop = asyncio.get_running_loop()
        for at, use in enumerate(one["uses"]):
            user = User(self, f"{name} use {at}", use)
            users.append(user)
            await sched.turns(use["wait"])
            boom = ERRORS.get(use["end"], Boom)()
            try:
                guard = self.make(user)
                user.began((loop, loop.turns))
                async with guard:
                    user.entered()
                    try:
                        await sched.turns(use["hold"])
                        while "until" in use and not use["until"]():
                            await asyncio.sleep(0.001)
                        if use["end"] in ERRORS:
                            raise boom
                    finally:
                        user.left()
                if use["end"] in ERRORS:
                    self.fail(f"the error raised inside the context of {user.name} is swallowed")
            except BaseException as error:  # noqa: BLE001
                if error is not boom:
                    raise
            finally:
                if user.state == "waiting":
                    user.state = "gone"
