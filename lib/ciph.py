"""Small helpers over the two ciphers' public interface."""

from lib import sut
from lib.sut import aiootp

CIPHERS = {"Chunky2048": aiootp.Chunky2048, "Slick256": aiootp.Slick256}


def call(obj, method, is_async, *args, **kw):
    """Calls `method`, or awaits its async twin `a<method>`."""
    if is_async:
        return sut.run(getattr(obj, "a" + method)(*args, **kw))
    return getattr(obj, method)(*args, **kw)


def drain(source, is_async):
    """All items of a (possibly async) iterable."""
    if is_async:
        return sut.run(sut.aconsume(source))
    return list(source)


def finalize(stream, is_async):
    if is_async:
        return sut.run(sut.aconsume(stream.afinalize()))
    return list(stream.finalize())


def buffer(stream, is_async, data):
    if is_async:
        return sut.run(stream.abuffer(data))
    return stream.buffer(data)


def open_stream(cipher, method, is_async, **kw):
    if is_async:
        return sut.run(getattr(cipher, "a" + method)(**kw))
    return getattr(cipher, method)(**kw)
