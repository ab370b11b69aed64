"""
Requests for randomness: shared by the check of randomness and by the
process it clones.

Run as a program it answers, for every line of JSON it reads, with what
identical clones of itself draw: each line names the requests and the
number of clones, which are forked with their clocks, process and thread
numbers standing still, as copies of one virtual machine would start.
"""

import hashlib
import json
import os
import sys

ENTROPIES = (
    ("default", None), ("bytes", b"seed"), ("empty", b""), ("text", "seed"), ("number", 7),
    ("none", None), ("list", [1, "x"]), ("long", b"\x00" * 5000), ("type", dict),
)
PLAIN = ("csprng", "random_number_generator", "token_bytes", "pool", "sha3 pool", "token")


class Source:
    """Every way of drawing bytes, under one name each."""

    def __init__(self, aiootp):
        self.randoms = aiootp.randoms
        self.simple = aiootp.randoms.simple
        module = aiootp.randoms.threading_safe_entropy_pool
        self.pools = {
            "pool": module.ThreadingSafeEntropyPool(
                b"data", obj=hashlib.shake_256, pool=[b"p" * 32, b"q" * 32]),
            "sha3 pool": module.ThreadingSafeEntropyPool(
                b"data", obj=hashlib.sha3_512, pool=[b"p" * 32, b"q" * 32]),
        }

    def call(self, request):
        """(function, positional, keywords, expected size)"""
        op, is_async, size, entropy, freshness = request
        label, entropy = ENTROPIES[entropy]
        kw = {} if label == "default" else {"entropy": entropy}
        prefix = "a" if is_async else ""
        if op == "csprng":
            return getattr(self.randoms, prefix + op), (size,), kw, size
        if op == "random_number_generator":
            kw["freshness"] = freshness
            return getattr(self.randoms, prefix + op), (size,), kw, size
        if op == "token_bytes":
            return getattr(self.randoms, prefix + op), (size,), {}, size
        if op == "pool":
            pool = self.pools[op].copy() if freshness else self.pools[op]
            return getattr(pool, prefix + "hash"), ((b"data",) * (entropy is None)), {"size": size}, size
        if op == "sha3 pool":
            pool = self.pools[op].copy() if freshness else self.pools[op]
            return getattr(pool, prefix + "hash"), (), {"size": 0}, 64
        if op == "token":
            return getattr(self.simple, prefix + "canonical_token"), (), {}, 56
        raise ValueError(op)


def main():
    import _thread
    import threading
    import time

    still = {"on": False}

    def standing(real, value):
        return lambda: value if still["on"] else real()

    time.perf_counter_ns = standing(time.perf_counter_ns, 1_000_000_007)
    time.perf_counter = standing(time.perf_counter, 1.000000007)
    time.monotonic_ns = standing(time.monotonic_ns, 1_000_000_007)
    os.getpid = standing(os.getpid, 4242)
    _thread.get_ident = standing(_thread.get_ident, 4343)
    threading.get_native_id = standing(threading.get_native_id, 4343)

    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import asyncio
    import signal

    from lib import sut

    source = Source(sut.aiootp)
    print("ready", flush=True)
    for line in sys.stdin:
        order = json.loads(line)
        children = []
        for _ in range(order["clones"]):
            read, write = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    signal.alarm(20)
                    sut.wall.freeze(10**18)
                    still["on"] = True
                    drawn = []
                    for request in order["requests"]:
                        call, args, kw, _ = source.call(request)
                        value = call(*args, **kw)
                        if request[1]:
                            loop = asyncio.new_event_loop()
                            value = loop.run_until_complete(value)
                        drawn.append(value.hex())
                    os.write(write, json.dumps(drawn).encode())
                except BaseException as error:
                    os.write(write, json.dumps({"error": repr(error)}).encode())
                finally:
                    os._exit(0)
            os.close(write)
            children.append((pid, read))
        answers = []
        for pid, read in children:
            with os.fdopen(read, "rb") as file:
                answers.append(json.loads(file.read() or b"null"))
            os.waitpid(pid, 0)
        print(json.dumps(answers), flush=True)


if __name__ == "__main__":
    main()
