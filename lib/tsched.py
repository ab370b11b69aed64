"""
Threads that run one at a time, with preemptions chosen by the case.

Every thread runs until it sleeps, ends or reaches a chosen preemption
point; points are the lines of the code under test that it executes. A sleep is virtual: the next thread runs. The code under test is
not changed, only traced.

A thread that really blocks (on a lock held by one that was preempted)
would stop everything: after a while without progress all threads are let
run freely, and the case is judged by what happens then.
"""

import os
import sys
import threading

from lib import sut
from lib.sched import Stuck

ROOT = os.path.join(os.path.realpath(sut.REPO), "aiootp") + os.sep


class Ended(BaseException):
    """Unwinds the threads of a case that is given up."""


class Worker:
    def __init__(self, number, function):
        self.number = number
        self.function = function
        self.baton = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.on_sleep = None


class Threads:
    def __init__(self, switches=(), limit=30000, within=("",)):
        #  parts of the package whose lines count as points
        self.within = tuple(ROOT + name for name in within)
        #  after how many more points to switch, and to which other thread
        self.switches = [list(s) for s in switches]
        self.limit = limit
        self.points = 0
        self.workers = []
        self.current = None
        self.free = False
        self.over = False
        self.finished = threading.Event()
        self.busy = lambda: False
        self.local = threading.local()
        #  the lines in the order of their points, for those who ask
        self.trail = None

    def spawn(self, function):
        self.workers.append(Worker(len(self.workers), function))
        return self.workers[-1]

    # ------------------------------------------------------- in a worker

    def _main(self, worker):
        worker.baton.acquire()
        self.local.worker = worker
        sys.settrace(self._trace)
        try:
            if not self.over:
                worker.function()
        except Ended:
            pass
        except BaseException as error:  # noqa: BLE001
            worker.error = error
        finally:
            sys.settrace(None)
            worker.done = True
            self._leave(worker)

    def _leave(self, worker):
        left = [w for w in self.workers if not w.done]
        if not left:
            self.finished.set()
        elif not self.free:
            self._next(worker).baton.release()

    def _next(self, worker, skip=0):
        """The other threads in turn."""
        n = len(self.workers)
        others = [w for w in (self.workers[(worker.number + i) % n] for i in range(1, n)) if not w.done]
        return others[skip % len(others)] if others else None

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.within):
            return None
        return self._point

    def _point(self, frame, event, arg):
        if event == "line" and not self.free:
            self._count()
            if self.trail is not None:
                self.trail.append((frame.f_code.co_filename, frame.f_lineno))
            if self.switches:
                self.switches[0][0] -= 1
                if self.switches[0][0] < 0 and not self.busy():
                    self._switch(self.switches.pop(0)[1])
        return self._point

    def _count(self):
        self.points += 1
        if self.over or self.points > self.limit:
            self.over = True
            raise Ended

    def _switch(self, skip=0):
        me = self.local.worker
        other = self._next(me, skip)
        if other is not None:
            self.current = other
            other.baton.release()
            me.baton.acquire()
        if self.over:
            raise Ended

    def sleep(self, seconds=0):
        """A thread of the case sleeps: the others run."""
        me = getattr(self.local, "worker", None)
        if me is None:
            return False
        if me.on_sleep is not None:
            me.on_sleep()
        if self.over:
            raise Ended
        if self.free:
            return False
        self._count()
        self._switch()
        return True

    # ------------------------------------------------------ in the caller

    def run(self):
        threads = [threading.Thread(target=self._main, args=(w,), daemon=True) for w in self.workers]
        sut.sleeping.hook = self.sleep
        try:
            for thread in threads:
                thread.start()
            self.workers[0].baton.release()
            points, idle = -1, 0
            while not self.finished.wait(0.5):
                idle = idle + 1 if self.points == points else 0
                points = self.points
                if idle and not self.free:
                    self.free, idle = True, 0
                    for worker in self.workers:
                        worker.baton.release()
                elif idle > 12:
                    self.over = True
                    self.finished.wait(10)
                    raise Stuck("threads wait for each other forever")
            for thread in threads:
                thread.join(10)
        finally:
            sut.sleeping.hook = None
        if self.over:
            raise Stuck(f"not finished after {self.points} steps")
        for worker in self.workers:
            if worker.error is not None:
                raise worker.error
