"""
A deterministic event loop whose interleavings are chosen by the case.

The ready queue keeps asyncio's own order, so that every explored schedule
is one a real loop could produce. What is chosen is what really varies:
how many turns of the loop a call handed to a thread takes. Time is
virtual: a sleep ends when nothing else can run, at once.
"""

import asyncio
import selectors


class Stuck(Exception):
    """The tasks do not come to an end."""


class _Selector(selectors.DefaultSelector):
    loop = None

    def select(self, timeout=None):
        if timeout is None:
            raise Stuck("every task waits for something that never happens")
        if timeout > 0:
            self.loop.virtual += timeout
            if self.loop.on_idle is not None:
                self.loop.on_idle()
        return []


class Loop(asyncio.SelectorEventLoop):
    on_idle = None

    def __init__(self, choices=(), limit=20000, spread=6):
        self.virtual = 0.0
        selector = _Selector()
        selector.loop = self
        super().__init__(selector)
        self.choices = list(choices)
        self.at = 0
        self.limit = limit
        self.spread = spread
        self.turns = 0
        self.set_exception_handler(lambda loop, context: None)

    def time(self):
        return self.virtual

    def choose(self, n):
        if self.at >= len(self.choices):
            return 0
        self.at += 1
        return self.choices[self.at - 1] % n

    def _run_once(self):
        self.turns += 1
        if self.turns > self.limit:
            raise Stuck(f"not finished after {self.limit} turns of the loop")
        super()._run_once()

    def run_in_executor(self, executor, func, *args):
        future = self.create_future()

        def turn(left):
            if left:
                self.call_soon(turn, left - 1)
                return
            if future.cancelled():
                # as a thread pool does with a call it has not begun
                return
            try:
                result = func(*args)
            except BaseException as error:  # noqa: BLE001
                if isinstance(error, StopIteration):
                    error = RuntimeError("StopIteration in a thread")
                if not future.done():
                    future.set_exception(error)
            else:
                if not future.done():
                    future.set_result(result)

        self.call_soon(turn, self.choose(self.spread))
        return future


def run(coroutine, choices=(), limit=20000, on_idle=None, spread=6):
    """Runs one coroutine to its end on a fresh loop."""
    loop = Loop(choices, limit, spread)
    loop.on_idle = on_idle
    try:
        return loop.run_until_complete(coroutine)
    finally:
        for task in asyncio.all_tasks(loop):
            task._log_destroy_pending = False
            task.cancel()
        loop.limit = loop.turns + 2000
        try:
            loop.run_until_complete(asyncio.sleep(0))
            loop.run_until_complete(asyncio.sleep(0))
        except Exception:  # noqa: BLE001
            pass
        loop.close()


async def turns(n):
    for _ in range(n):
        await asyncio.sleep(0)
