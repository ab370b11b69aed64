"""
Loads the code under test from the working tree of /repo and owns every
piece of process-wide state the checks need around it: the controllable
wall clock, the event loop, scratch directories.

Nothing here looks at how the package is written; it is only imported.
"""

import asyncio
import atexit
import fcntl
import os
import random
import secrets
import shutil
import signal
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")

# Never reuse byte code: a stale .pyc would let a check judge other code
# than that of the working tree.
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-pycache"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONPYCACHEPREFIX"] = sys.pycache_prefix
sys.path.insert(0, REPO)


def drop_file_privileges():
    """From now on file permissions bind this process, root or not."""
    import ctypes

    libc = ctypes.CDLL(None, use_errno=True)

    class Header(ctypes.Structure):
        _fields_ = [("version", ctypes.c_uint32), ("pid", ctypes.c_int)]

    class Data(ctypes.Structure):
        _fields_ = [("effective", ctypes.c_uint32), ("permitted", ctypes.c_uint32),
                    ("inheritable", ctypes.c_uint32)]

    header, data = Header(0x20080522, 0), (Data * 2)()
    if libc.capget(ctypes.byref(header), data) != 0:
        raise RuntimeError("the capabilities of the process cannot be read")
    for name in ("effective", "permitted", "inheritable"):
        # all but CAP_DAC_OVERRIDE and CAP_DAC_READ_SEARCH
        setattr(data[0], name, getattr(data[0], name) & ~0b110)
    if libc.capset(ctypes.byref(header), data) != 0:
        raise RuntimeError("privileges cannot be dropped")


class WallClock:
    """Stands in for `time.time_ns` / `time.time`; real unless frozen."""

    def __init__(self):
        self._real_ns = time.time_ns
        self._real_s = time.time
        self._frozen = None
        self._step = 0

    def freeze(self, ns, step=0):
        """Every reading returns `ns`, then advances by `step`."""
        self._frozen, self._step = int(ns), int(step)

    def real(self):
        self._frozen = None

    def time_ns(self):
        if self._frozen is None:
            return self._real_ns()
        now = self._frozen
        self._frozen += self._step
        return now

    def time(self):
        if self._frozen is None:
            return self._real_s()
        return self.time_ns() / 1e9


wall = WallClock()
_time_ns, _time_s = wall.time_ns, wall.time
time.time_ns = lambda: _time_ns()
time.time = lambda: _time_s()


class Sleep:
    """Stands in for `time.sleep`; real unless a scheduler takes it over."""

    def __init__(self):
        self._real = time.sleep
        self.hook = None

    def sleep(self, seconds):
        if self.hook is None or not self.hook(seconds):
            self._real(seconds)


sleeping = Sleep()
_sleep = sleeping.sleep
time.sleep = lambda seconds: _sleep(seconds)


class Randomness:
    """Stands in for `secrets.token_bytes`; real unless fixed."""

    def __init__(self):
        self._real = secrets.token_bytes
        self._byte = None

    def fix(self, byte):
        """Every request is answered with one repeated byte."""
        self._byte = bytes([byte])

    def vary(self, seed):
        """Requests are answered with the bytes of a generator."""
        self._byte, self._varied = b"", random.Random(seed)

    def real(self):
        self._byte = None

    def token_bytes(self, nbytes=None):
        if self._byte is None:
            return self._real(nbytes)
        if not self._byte:
            return self._varied.randbytes(32 if nbytes is None else nbytes)
        return self._byte * (32 if nbytes is None else nbytes)


randomness = Randomness()
_token_bytes = randomness.token_bytes
secrets.token_bytes = lambda nbytes=None: _token_bytes(nbytes)


def _import():
    # the package writes a seed file while it is imported: parallel
    # checks take turns
    fd = os.open(REPO, os.O_RDONLY)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX)
        import aiootp
    finally:
        fcntl.flock(fd, fcntl.LOCK_UN)
        os.close(fd)
    where = os.path.realpath(aiootp.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"aiootp was imported from {where}, not {REPO}")
    return aiootp


aiootp = _import()

_loop = None


def loop():
    global _loop
    if _loop is None or _loop.is_closed():
        _loop = asyncio.new_event_loop()
        asyncio.set_event_loop(_loop)
    return _loop


def drop_loop():
    """Forget the current loop (after a hang it cannot be trusted)."""
    global _loop
    _loop = None


def run(coro):
    return loop().run_until_complete(coro)


async def aconsume(agen):
    return [item async for item in agen]


_scratch = []


def scratch(prefix="verif-"):
    path = tempfile.mkdtemp(prefix=prefix)
    _scratch.append((os.getpid(), path))
    return path


def remove_scratch(path):
    if os.path.basename(path).startswith("verif-"):
        shutil.rmtree(path, ignore_errors=True)


def kill_children():
    """
    No process outlives the check: pool workers of the code under test
    would keep the check's output open. The tracker of the shared
    resources ends by itself, after tidying up.
    """
    children = []
    for name in filter(str.isdigit, os.listdir("/proc")):
        try:
            with open(f"/proc/{name}/stat") as file:
                parent = int(file.read().rpartition(")")[2].split()[1])
        except OSError:
            continue
        if parent == os.getpid():
            children.append(int(name))
    for child in children:
        try:
            with open(f"/proc/{child}/cmdline", "rb") as file:
                if b"resource_tracker" in file.read():
                    continue
            os.kill(child, signal.SIGKILL)
        except OSError:
            continue


@atexit.register
def cleanup():
    kill_children()
    for pid, path in _scratch:
        if pid == os.getpid():
            remove_scratch(path)
