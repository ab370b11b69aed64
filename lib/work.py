"""Functions that checks hand to threads and processes."""

import asyncio
import os
import signal
import time


class Refusal(Exception):
    """An error of the caller's own."""


class Detailed(ValueError):
    def __init__(self, *args):
        super().__init__(*args)
        self.detail = args[-1] if args else None


class Quit(BaseException):
    """Not an error of the ordinary kind."""


ERRORS = {"Quit": Quit, "Refusal": Refusal, "Detailed": Detailed, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError,
          "OSError": OSError, "TypeError": TypeError, "TimeoutError": TimeoutError, "LookupError": LookupError,
          "GeneratorExit": GeneratorExit, "SystemExit": SystemExit}


def value(spec):
    """A picklable value of a plain description."""
    kind, data = spec
    if kind == "bytes":
        return bytes(range(256)) * (data // 256) + bytes(data % 256)
    if kind == "text":
        return "ä" * data
    if kind == "set":
        return frozenset(data)
    if kind == "tuple":
        return tuple(data)
    if kind == "int":
        return data
    if kind == "nested":
        return {"list": [data, None, 1.5], ("key", data): {"inner": b"\0" * data}}
    if kind == "error":
        return ERRORS[data]("as a value")
    if kind == "pair":
        return (data, ERRORS["Refusal"]("as a value"))
    return None


def note(log, number):
    handle = os.open(log, os.O_WRONLY | os.O_APPEND)
    os.write(handle, b"%d\n" % number)
    os.close(handle)


def perform(log, item, /, *args, **kwargs):
    note(log, item["number"])
    time.sleep(item["delay"] / 1000)
    if item["error"] is not None:
        name, arguments = item["error"]
        raise ERRORS[name](*arguments)
    return item["number"], args, kwargs, value(item["value"])


async def aperform(log, item, /, *args, **kwargs):
    note(log, item["number"])
    await asyncio.sleep(item["delay"] / 1000)
    if item["error"] is not None:
        name, arguments = item["error"]
        raise ERRORS[name](*arguments)
    return item["number"], args, kwargs, value(item["value"])


class Bound:
    """The same, as methods of an object that is sent along."""

    def __init__(self, log, item):
        self.log, self.item = log, item

    def perform(self, /, *args, **kwargs):
        return perform(self.log, self.item, *args, **kwargs)

    async def aperform(self, /, *args, **kwargs):
        return await aperform(self.log, self.item, *args, **kwargs)


def add(*numbers):
    return sum(numbers)


def fail(*numbers):
    raise Refusal(*numbers)


def text(*numbers):
    return "".join(map(str, numbers))


def largest(*numbers):
    return max(numbers)


JOBS = {"add": add, "fail": fail, "text": text, "largest": largest}


def echo(value, delay=0):
    time.sleep(delay / 1000)
    return value


async def aecho(value, delay=0):
    await asyncio.sleep(delay / 1000)
    return value


def die(caller, how, delay=0):
    """Ends the worker process, but never the caller's own."""
    time.sleep(delay / 1000)
    if os.getpid() == caller:
        return "ran in the caller's own process"
    if how == "exit":
        os._exit(3)
    os.kill(os.getpid(), signal.SIGKILL)
    return "survived"


async def adie(caller, how, delay=0):
    return die(caller, how, delay)
