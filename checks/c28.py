"""C28: work sent to threads or processes returns its own result or error."""

import asyncio
import os

from hypothesis import strategies as st

from lib import sut, work
from lib.harness import Part, Sweep, Violation, expect
from lib.sut import aiootp

TECHNIQUE = (
    "property-based testing of generated batches of work (values of many kinds and sizes, "
    "errors, delays that reverse the order of completion, argument names) sent through "
    "every entry point; each result is compared with the function called in place, and a "
    "file counts how often each piece ran"
)
RULE = (
    "a case is a batch for one helper and entry point; non-trivial when it has two or "
    "more pieces, a large value or an error. Distinct by the whole case."
)
ASSUMPTIONS = (
    "errors that unpickle (the interpreter's own and classes that keep their arguments); "
    "StopIteration is excluded as coroutines cannot raise it",
)

NAMES = ["self", "cls", "func", "fn", "queue", "args", "kwargs", "a", "target", "future"]
plain = st.one_of(st.none(), st.integers(-2**70, 2**70), st.text(max_size=5), st.booleans())
values = st.one_of(
    st.tuples(st.just("bytes"), st.sampled_from([0, 1, 4096, 65535, 65536, 70000, 300000])),
    st.tuples(st.just("text"), st.sampled_from([0, 3, 40000])),
    st.tuples(st.just("set"), st.lists(st.integers(0, 5), max_size=3)),
    st.tuples(st.just("tuple"), st.lists(plain, max_size=3)),
    st.tuples(st.just("int"), st.integers(-2**200, 2**200)),
    st.tuples(st.just("nested"), st.integers(0, 5)),
    st.tuples(st.just("none"), st.just(0)),
    st.tuples(st.just("error"), st.sampled_from(["Refusal", "KeyError"])),
    st.tuples(st.just("pair"), st.booleans()),
).map(list)
errors = st.tuples(
    st.sampled_from(["Refusal", "Detailed", "KeyError", "ZeroDivisionError", "OSError", "TypeError",
                     "TimeoutError", "LookupError", "Quit", "Quit", "SystemExit"]),
    st.lists(st.one_of(st.text(max_size=4), st.integers(0, 9)), max_size=3),
).map(list)
items = st.fixed_dictionaries({
    "value": values, "error": st.one_of(st.none(), st.none(), st.none(), errors),
    "delay": st.sampled_from([0, 0, 1, 5, 12]),
    "args": st.lists(plain, max_size=2), "kwargs": st.dictionaries(st.sampled_from(NAMES), plain, max_size=2),
    "as_async": st.booleans(), "bound": st.booleans(),
})


def batches(entries, most):
    return st.fixed_dictionaries({
        "entry": st.sampled_from(entries), "items": st.lists(items, min_size=1, max_size=most),
        "order": st.lists(st.integers(0, 7), max_size=6), "iterator": st.booleans(),
        "probe": st.sampled_from([None, 0.0005, 1]),
        # one function gathered several times
        "repeats": st.sampled_from([0, 0, 1, 2]),
    })


pooled = batches(["submit", "asubmit", "gather", "agather"], 6)
fresh = batches(["new", "anew"], 4)
single = batches(["new", "anew", "anew"], 2)


class Batch:
    def __init__(self, helper, case):
        self.helper, self.case = helper, case
        self.log = os.path.join(sut.scratch(), "log")
        open(self.log, "w").close()
        self.items = [{**item, "number": n} for n, item in enumerate(case["items"])]

    def remove(self):
        sut.remove_scratch(os.path.dirname(self.log))

    def function(self, item, can_async):
        """What is sent, and with which arguments."""
        name = "aperform" if can_async and item["as_async"] else "perform"
        if item["bound"]:
            return getattr(work.Bound(self.log, item), name), item["args"]
        return getattr(work, name), [self.log, item, *item["args"]]

    def probe(self):
        # the largest delay only where nothing has to be waited for twice
        probe = self.case["probe"]
        return {} if probe is None else {"probe_delay": 0.02 if probe == 1 else probe}

    def wanted(self, item):
        if item["error"] is not None:
            name, arguments = item["error"]
            return work.ERRORS[name](*arguments)
        return item["number"], tuple(item["args"]), item["kwargs"], work.value(item["value"])

    def judge(self, item, got, error):
        wanted = self.wanted(item)
        if item["error"] is not None:
            expect(error is not None, lambda: f"a failing function returns {got!r}"[:300])
            expect(same_error(error, wanted), lambda: f"the error is {error!r}, raised was {wanted!r}")
            return
        expect(error is None, lambda: f"a function that works gives the error {error!r}")
        expect(same(got, wanted), lambda: f"the result is {got!r}, expected {wanted!r}"[:600])

    def counted(self):
        with open(self.log) as file:
            return [int(line) for line in file]

    # ------------------------------------------------------------ entry points

    def run(self):
        entry = self.case["entry"]
        getattr(self, entry)()
        runs = self.counted()
        for item in self.items:
            wanted = self.items.count(item)
            times = runs.count(item["number"])
            most_may_miss = entry.endswith("gather") and any(i["error"] for i in self.items)
            expect(times == wanted or (times < wanted and most_may_miss), lambda: (
                f"a function ran {times} times"))

    def new(self):
        for item in self.items:
            function, args = self.function(item, False)
            self.judge(item, *caught(lambda: self.helper.new(function, *args, **self.probe(), **item["kwargs"])))

    def anew(self):
        async def one(item):
            function, args = self.function(item, True)
            return await acaught(self.helper.anew(function, *args, **self.probe(), **item["kwargs"]))

        async def main():
            return await asyncio.gather(*(one(item) for item in self.items))

        for item, (got, error) in zip(self.items, sut.run(main())):
            self.judge(item, got, error)

    def submit(self):
        futures = []
        for item in self.items:
            function, args = self.function(item, False)
            futures.append(self.helper.submit(function, *args, **self.probe(), **item["kwargs"]))
        self.collect(futures)

    def asubmit(self):
        async def main():
            futures = []
            for item in self.items:
                function, args = self.function(item, True)
                futures.append(await self.helper.asubmit(function, *args, **self.probe(), **item["kwargs"]))
            return futures

        self.collect(sut.run(main()))

    def collect(self, futures):
        """In the order of the case, some of them twice, in both forms."""
        order = [n % len(futures) for n in self.case["order"]] + list(range(len(futures)))
        for turn, n in enumerate(order):
            if turn % 2:
                got, error = caught(futures[n].result)
            else:
                got, error = sut.run(acaught(futures[n].aresult()))
            self.judge(self.items[n], got, error)

    def gathered(self, call):
        #  one set of arguments for all
        args = self.items[0]["args"]
        for item in self.items:
            item["args"], item["kwargs"], item["bound"] = args, self.items[0]["kwargs"], True
        functions = [self.function(item, call == "agather")[0] for item in self.items]
        self.items += self.items[:1] * self.case["repeats"]
        functions += functions[:1] * self.case["repeats"]
        given = iter(args) if self.case["iterator"] else args
        kw = {"args": given, "kwargs": self.items[0]["kwargs"]}
        if call == "agather":
            got, error = sut.run(acaught(self.helper.agather(*functions, **kw)))
        else:
            got, error = caught(lambda: self.helper.gather(*functions, **kw))
        if error is not None:
            raised = [self.wanted(i) for i in self.items if i["error"] is not None]
            expect(any(same_error(error, r) for r in raised), lambda: (
                f"gathering gives the error {error!r}, raised were {raised}"))
            return
        expect(not any(i["error"] for i in self.items), "gathering swallows an error")
        expect(type(got) is list and len(got) == len(self.items), lambda: f"{len(got)} results are gathered")
        for item, one in zip(self.items, got):
            self.judge(item, one, None)

    def gather(self):
        self.gathered("gather")

    def agather(self):
        self.gathered("agather")


#   errors of no ordinary kind; the functions raise them themselves
QUITS = (work.Quit, SystemExit)


def same_error(got, wanted):
    return type(got) is type(wanted) and got.args == wanted.args and (
        getattr(got, "detail", None) == getattr(wanted, "detail", None))


def same(got, wanted):
    if isinstance(wanted, Exception):
        return same_error(got, wanted)
    if isinstance(wanted, tuple):
        return type(got) is tuple and len(got) == len(wanted) and all(map(same, got, wanted))
    return type(got) is type(wanted) and got == wanted


def caught(call):
    try:
        return call(), None
    except Violation:
        raise
    except (Exception, *QUITS) as error:  # noqa: BLE001
        return None, error


async def acaught(awaitable):
    try:
        return await awaitable, None
    except (Exception, *QUITS) as error:  # noqa: BLE001
        return None, error


def evaluate_with(helper):
    def evaluate(case):
        batch = Batch(helper, case)
        try:
            batch.run()
        finally:
            batch.remove()
    return evaluate


def process_cases(tier):
    """What a new process may have to send back."""
    for entry in ("anew", "new"):
        for content in (
            [("error", ["Detailed", ["x", 3]]), ("value", ["bytes", 65536]), ("value", ["pair", True])],
            [("value", ["bytes", 300000])],
            [("error", ["Quit", ["q"]])],
        ):
            yield {"entry": entry, "order": [], "iterator": False, "probe": None, "items": [
                {"value": ["int", 5], "error": None, "delay": 5 * n, "args": [1], "kwargs": {"queue": 2, "func": None},
                 "as_async": n % 2 == 0, "bound": n % 2 == 1, name: one} for n, (name, one) in enumerate(content)]}


def many_cases(tier):
    """More pieces of work at once than there are workers."""
    for n, count in enumerate((65, 130, 300) + (2000,) * (tier == "thorough")):
        for entry in ("gather", "agather", "submit", "asubmit"):
            for fails in (False, True):
                yield {"entry": entry, "order": [], "iterator": False, "probe": None, "repeats": 0, "items": [
                    {"value": ["int", i], "delay": 0, "args": [1], "kwargs": {}, "as_async": i % 2 == 0, "bound": True,
                     "error": ["Refusal", ["last"]] if fails and i == count - 1 else None} for i in range(count)]}


def nontrivial(case):
    return len(case["items"]) > 1 or any(
        i["error"] is not None or (i["value"][0] == "bytes" and i["value"][1] > 60000) for i in case["items"])


def labels(case):
    yield case["entry"]
    for item in case["items"]:
        if item["error"] is not None:
            yield case["entry"] + " error"
        if item["value"][0] == "bytes" and item["value"][1] > 65000:
            yield case["entry"] + " large"


Threads, Processes = aiootp.asynchs.Threads, aiootp.asynchs.Processes
PARTS = [
    Part("thread pool", pooled, evaluate_with(Threads), 300, 6000, nontrivial=nontrivial, labels=labels),
    Sweep("many at once", many_cases, evaluate_with(Threads), nontrivial=nontrivial, labels=labels),
    Part("new threads", fresh, evaluate_with(Threads), 250, 5000, nontrivial=nontrivial, labels=labels),
    Part("process pool", pooled, evaluate_with(Processes), 130, 2500, nontrivial=nontrivial, labels=labels),
    Sweep("new processes", process_cases, evaluate_with(Processes), nontrivial=nontrivial, labels=labels),
    Part("more new processes", single, evaluate_with(Processes), 6, 200, nontrivial=nontrivial, labels=labels),
]
