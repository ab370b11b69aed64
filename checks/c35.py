"""C35: randomness has the requested size and range and never repeats."""

import asyncio
import atexit
import json
import os
import subprocess
import sys
import threading
import warnings

from hypothesis import strategies as st

from lib import draws, sut, tsched
from lib.harness import Discard, Part, Sweep, expect
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing of generated series of requests for randomness, drawn in turn, "
    "concurrently, in threads, in identical forked clones and in separate processes, with "
    "size, range, coverage and pairwise-unrelatedness oracles"
)
RULE = (
    "a case is a series of requests; non-trivial when it asks for at least two outputs of "
    "16 bytes or more, or for a choice among at least two. Distinct by the whole case."
)
ASSUMPTIONS = (
    "the operating system's randomness is good: clones have equal clocks, process and "
    "thread numbers, but each asks the operating system for itself",
    "chance: a false alarm has a probability below 2**-40 for a whole run",
    "the plain form of the slow generator is not called inside of a running event loop",
)
randoms = aiootp.randoms
SOURCE = draws.Source(aiootp)
ASYNC = ("csprng", "random_number_generator", "token_bytes", "pool", "sha3 pool", "token")
sizes = st.one_of(st.integers(16, 80), st.integers(1, 15), st.sampled_from(
    [16, 31, 32, 33, 64, 65, 135, 136, 137, 255, 256, 272, 500, 1000, 4096]))
entropies = st.integers(0, len(draws.ENTROPIES) - 1)


def request_lists(low, high, slow=True):
    fast = [op for op in draws.PLAIN if op != "random_number_generator"]
    ops = st.sampled_from(fast * 4 + (["random_number_generator"] if slow else []))
    return st.lists(st.tuples(
        ops, st.booleans(), sizes, entropies, st.sampled_from([0, 0, 1, 2])), min_size=low,
        max_size=high)


def unrelated(outputs, where):
    """No sixteen bytes at a multiple of sixteen occur twice."""
    seen = {}
    for name, value in outputs:
        if "token)" in name:
            # the rest is the time, the thread and the process
            value = value[:32]
        for at in range(0, len(value) - 15, 16):
            window = bytes(value[at:at + 16])
            expect(window not in seen, lambda: (
                f"{where}: {name} at byte {at} repeats {seen[window][0]} at byte "
                f"{seen[window][1]}"))
            seen[window] = name, at


def sized(name, value, size):
    expect(type(value) is bytes and len(value) == size, lambda: (
        f"{name} was asked for {size} bytes and gave {type(value).__name__} of {len(value)}"))


# ------------------------------------------------------------------- series

series = st.fixed_dictionaries({
    "requests": st.one_of(
        request_lists(2, 10),
        # the same request over and over
        st.tuples(request_lists(1, 1, slow=False), st.integers(2, 12)).map(lambda p: p[0] * p[1])),
    "together": st.booleans(),
})


def evaluate_series(case):
    calls = [(request, SOURCE.call(request)) for request in case["requests"]]
    outputs = []

    async def gathered():
        tasks = [call(*args, **kw) for request, (call, args, kw, _) in calls if request[1]]
        return await asyncio.gather(*tasks)

    together = iter(sut.run(gathered()) if case["together"] else ())
    for index, (request, (call, args, kw, size)) in enumerate(calls):
        name = f"request {index} ({'a' * request[1]}{request[0]})"
        if not request[1]:
            value = call(*args, **kw)
        elif case["together"]:
            value = next(together)
        else:
            value = sut.run(call(*args, **kw))
        sized(name, value, size)
        outputs.append((name, value))
    unrelated(outputs, "one process")


def nontrivial_requests(case):
    return sum(1 for request in case["requests"] if request[2] >= 16) > 1


def labels_requests(case):
    yield "together" if case.get("together") else "in turn"
    for request in case["requests"]:
        yield ("async " if request[1] else "sync ") + request[0]


def large(tier):
    """Long outputs, where a repeating stretch would begin."""
    sizes = [4097, 10000, 65536, 65537, 2**18 + 3] + [2**20, 2**22] * (tier == "thorough")
    for op in ("csprng", "token_bytes", "pool", "random_number_generator"):
        for is_async in (False, True):
            for size in sizes:
                if op == "random_number_generator" and size > 5000:
                    continue
                yield {"requests": [[op, is_async, size, 0, 1], [op, is_async, size, 1, 0]], "together": False}


# ------------------------------------------------------------------- threads

threads = st.fixed_dictionaries({
    "requests": st.one_of(request_lists(2, 4), st.lists(st.tuples(
        st.just("random_number_generator"), st.just(False), st.just(32), entropies,
        st.sampled_from([0, 1])), min_size=1, max_size=2)),
    "threads": st.integers(2, 6),
})


def evaluate_threads(case):
    outputs, errors = [], []
    start = threading.Barrier(case["threads"])

    def work(number):
        try:
            start.wait(30)
            for index, request in enumerate(case["requests"]):
                call, args, kw, size = SOURCE.call(request)
                value = call(*args, **kw)
                if request[1]:
                    loop = asyncio.new_event_loop()
                    try:
                        value = loop.run_until_complete(value)
                    finally:
                        loop.close()
                outputs.append((f"request {index} ({request[0]}) of thread {number}", value, size))
        except Exception as error:
            errors.append(error)

    workers = [threading.Thread(target=work, args=(number,)) for number in range(case["threads"])]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for worker in workers:
            worker.start()
        for worker in workers:
            worker.join()
    expect(not errors, lambda: f"valid requests of concurrent threads failed: {errors[0]!r}")
    for name, value, size in outputs:
        sized(name, value, size)
    unrelated([output[:2] for output in outputs], "concurrent threads")


schedules = st.fixed_dictionaries({
    "requests": st.lists(st.tuples(
        st.sampled_from(["csprng", "pool", "sha3 pool"]), st.just(False), st.just(32),
        st.sampled_from([0, 1, 2]), st.just(0)), min_size=1, max_size=2),
    "threads": st.integers(2, 3),
    "switches": st.lists(st.tuples(st.integers(0, 16), st.integers(0, 1)), max_size=5),
})


def evaluate_schedules(case):
    threads = tsched.Threads(case["switches"], within=("randoms",))
    outputs = []

    def work(number):
        for index, request in enumerate(case["requests"]):
            call, args, kw, size = SOURCE.call(request)
            value = call(*args, **kw)
            outputs.append((f"request {index} ({request[0]}) of thread {number}", value, size))

    for number in range(case["threads"]):
        threads.spawn(lambda number=number: work(number))
    threads.run()
    for name, value, size in outputs:
        sized(name, value, size)
    unrelated([output[:2] for output in outputs], "interleaved threads")


# ------------------------------------------------------------- variation

variations = st.fixed_dictionaries({
    "request": st.tuples(
        st.sampled_from(["csprng", "token_bytes", "pool", "sha3 pool"]), st.booleans(),
        st.one_of(st.integers(1, 40), st.sampled_from([64, 136, 137, 300])), entropies,
        st.sampled_from([0, 1])),
})


def evaluate_variation(case):
    request = case["request"]

    async def many():
        call, args, kw, _ = SOURCE.call(request)
        return await asyncio.gather(*(call(*args, **kw) for _ in range(100)))

    call, args, kw, size = SOURCE.call(request)
    values = sut.run(many()) if request[1] else [call(*args, **kw) for _ in range(100)]
    some, every = 0, (1 << 8 * size) - 1
    for value in values:
        sized(request[0], value, size)
        number = int.from_bytes(value, "big")
        some, every = some | number, every & number
    full = (1 << 8 * size) - 1
    expect(some == full and every == 0, lambda: (
        f"bits of {request[0]} never change in 100 outputs of {size} bytes: "
        f"always zero {(full ^ some):0{2 * size}x}, always one {every:0{2 * size}x}"))


# ------------------------------------------------------------------- ranges

reals = st.one_of(st.integers(-10**6, 10**6), st.floats(-1e9, 1e9), st.just(0))
ranges = st.one_of(
    st.fixed_dictionaries({"kind": st.just("choice"), "is_async": st.booleans(), "seq": st.one_of(
        st.lists(st.integers(0, 9), min_size=1, max_size=6)),
        "form": st.sampled_from(["list", "tuple", "bytes", "text", "range"])}),
    st.fixed_dictionaries({
        "kind": st.just("bits"), "is_async": st.booleans(),
        "k": st.one_of(st.integers(0, 5), st.integers(0, 600))}),
    st.fixed_dictionaries({
        "kind": st.just("uniform"), "is_async": st.booleans(), "a": reals, "b": reals}),
    st.fixed_dictionaries({
        "kind": st.just("sleep"), "is_async": st.booleans(),
        "seconds": st.one_of(st.integers(1, 100), st.floats(0, 1000, allow_subnormal=False))}),
)


def draw(name, is_async, args, times):
    if not is_async:
        return [getattr(randoms, name)(*args) for _ in range(times)]

    async def gathered():
        return await asyncio.gather(*(getattr(randoms, "a" + name)(*args) for _ in range(times)))

    return sut.run(gathered())


def sleeps(is_async, seconds, times):
    """How long each of many sleeps would have taken."""
    taken = []
    if not is_async:
        own = threading.get_ident()
        sut.sleeping.hook = lambda length: threading.get_ident() == own and not taken.append(length)
        try:
            for _ in range(times):
                randoms.random_sleep(seconds)
        finally:
            sut.sleeping.hook = None
        return taken
    loop = asyncio.new_event_loop()

    def call_later(delay, callback, *args, context=None):
        taken.append(delay)
        return loop.call_soon(callback, *args, context=context)

    loop.call_later = call_later
    try:
        for _ in range(times):
            before = len(taken)
            loop.run_until_complete(randoms.arandom_sleep(seconds))
            if len(taken) == before:
                taken.append(0)
    finally:
        loop.close()
    return taken


def evaluate_ranges(case):
    kind = case["kind"]
    if kind == "choice":
        seq = {"list": list, "tuple": tuple, "bytes": bytes, "range": lambda seq: range(len(seq)),
               "text": lambda seq: "".join(map(str, seq))}[case["form"]](case["seq"])
        values = draw("choice", case["is_async"], (seq,), 400)
        expect(set(values) == set(seq), lambda: (
            f"400 choices from {seq!r} gave the members {sorted(set(values))!r}"))
    elif kind == "bits":
        k = case["k"]
        values = draw("token_bits", case["is_async"], (k,), 1500 if k <= 5 else 120)
        expect(all(type(v) is int and 0 <= v < 1 << k for v in values), lambda: (
            f"{k} bits gave a number out of range"))
        if k <= 5:
            expect(len(set(values)) == 1 << k, lambda: f"{k} bits: not every number occurs")
        else:
            some, every = 0, (1 << k) - 1
            for value in values:
                some, every = some | value, every & value
            expect(some == (1 << k) - 1 and every == 0, lambda: f"{k} bits: some bits are constant")
        if k >= 128:
            expect(len(set(values)) == len(values), lambda: f"{k} bits: a number repeats")
    elif kind == "uniform":
        a, b = case["a"], case["b"]
        values = draw("uniform", case["is_async"], (a, b), 100)
        low, high = min(a, b), max(a, b)
        expect(all(low <= v <= high for v in values), lambda: f"out of [{low}, {high}]: {values!r}")
        middle = low + (high - low) / 2
        if high - low > 1e-3:
            expect(any(v < middle for v in values) and any(v > middle for v in values), lambda: (
                f"100 numbers between {low} and {high} lie in one half"))
    else:
        seconds = case["seconds"]
        taken = sleeps(case["is_async"], seconds, 80)
        expect(len(taken) == 80 and all(0 <= length <= seconds for length in taken), lambda: (
            f"random sleeps of at most {seconds} s took {taken[:5]!r}"))
        if seconds > 1e-3:
            expect(any(t < seconds / 2 for t in taken) and any(t > seconds / 2 for t in taken),
                   lambda: f"80 random sleeps of at most {seconds} s lie in one half")


def nontrivial_ranges(case):
    if case["kind"] == "choice":
        return len(set(case["seq"])) > 1
    if case["kind"] == "bits":
        return case["k"] > 0
    return case.get("a", 0) != case.get("b", 1) and case.get("seconds", 1) > 0


# ------------------------------------------------------------------- clones

_driver = []


def start_driver():
    driver = subprocess.Popen(
        [sys.executable, "-W", "ignore", draws.__file__], stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
        env=dict(os.environ, VERIF_REPO=sut.REPO))
    if driver.stdout.readline().strip() != "ready":
        raise RuntimeError("the process to clone did not start")
    return driver


def ask(driver, requests, clones):
    driver.stdin.write(json.dumps({"requests": requests, "clones": clones}) + "\n")
    driver.stdin.flush()
    return json.loads(driver.stdout.readline())


@atexit.register
def stop_drivers():
    for driver in _driver:
        driver.kill()


clones = st.fixed_dictionaries({
    "requests": request_lists(1, 4).filter(lambda requests: any(r[2] >= 16 for r in requests)),
    "clones": st.integers(2, 4),
})


def drawn(answers, requests, where):
    outputs = []
    for number, answer in enumerate(answers):
        if answer is None:
            raise Discard
        expect(type(answer) is list, lambda: f"{where}: {answer}")
        for index, (request, value) in enumerate(zip(requests, answer)):
            name = f"request {index} ({'a' * request[1]}{request[0]}) of process {number}"
            value = bytes.fromhex(value)
            sized(name, value, SOURCE.call(request)[3])
            outputs.append((name, value))
    unrelated(outputs, where)


def evaluate_clones(case):
    if not _driver:
        _driver.append(start_driver())
    requests = [list(request) for request in case["requests"]]
    drawn(ask(_driver[0], requests, case["clones"]), requests, "forked clones")


def nontrivial_clones(case):
    return any(request[2] >= 16 for request in case["requests"])


def processes(tier):
    yield {"processes": 3 if tier == "quick" else 6}


def evaluate_processes(case):
    requests = [[op, is_async, 64, entropy, 1]
                for op in draws.PLAIN for is_async in (False, True) for entropy in (0, 1)]
    drivers = []
    try:
        for _ in range(case["processes"]):
            drivers.append(start_driver())
        answers = [ask(driver, requests, 1)[0] for driver in drivers]
    finally:
        for driver in drivers:
            driver.kill()
            driver.wait()
    drawn(answers, requests, "separate processes")


PARTS = [
    Sweep("large", large, evaluate_series, labels=labels_requests),
    Part("series of requests", series, evaluate_series, 900, nontrivial=nontrivial_requests,
         labels=labels_requests),
    Part("concurrent threads", threads, evaluate_threads, 150, nontrivial=lambda case: True,
         labels=labels_requests),
    Part("chosen thread schedules", schedules, evaluate_schedules, 400,
         nontrivial=lambda case: bool(case["switches"]), labels=labels_requests),
    Part("variation", variations, evaluate_variation, 200,
         nontrivial=lambda case: case["request"][2] >= 16,
         labels=lambda case: [case["request"][0]]),
    Part("ranges", ranges, evaluate_ranges, 300, nontrivial=nontrivial_ranges,
         labels=lambda case: [case["kind"] + (" async" if case["is_async"] else "")]),
    Part("identical clones", clones, evaluate_clones, 120, nontrivial=nontrivial_clones),
    Sweep("separate processes", processes, evaluate_processes, nontrivial=lambda case: True),
]
