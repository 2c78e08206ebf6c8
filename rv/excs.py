"""Exceptions that call functions may raise, from ordinary to hostile."""
import asyncio
import dataclasses

import uberjob


class Plain(Exception):
    pass


class Slotted(Exception):
    __slots__ = ("a",)


@dataclasses.dataclass(frozen=True)
class Frozen(Exception):
    a: int = 1


@dataclasses.dataclass
class Equal(Exception):
    """Compares equal to every other instance and is unhashable."""

    a: int = 1


class Falsy(Exception):
    def __bool__(self):
        return False


class Empty(Exception):
    def __len__(self):
        return 0


class NoSet(Exception):
    def __setattr__(self, k, v):
        raise RuntimeError("no attributes")


class NoStr(Exception):
    def __str__(self):
        raise RuntimeError("no str")

    __repr__ = __str__


class NoEq(Exception):
    def __eq__(self, other):
        raise RuntimeError("no eq")

    __hash__ = Exception.__hash__


class Picky(Exception):
    def __init__(self, a, b, *, c):
        super().__init__()


class Base(BaseException):
    pass


def nested_failure():
    """The CallError of a run inside a call."""
    def inner():
        raise Plain("inner")

    p = uberjob.Plan()
    try:
        uberjob.run(p, output=p.call(inner), progress=None, max_workers=1)
    except BaseException as e:
        return e
    raise AssertionError


def around_failure():
    """Raised from the CallError of a run inside a call."""
    e = Plain("the inner run failed")
    e.__cause__ = nested_failure()
    return e


def same_class():
    """Chained to an exception of its own class."""
    e = Plain("outer")
    e.__cause__ = Plain("inner")
    e.__cause__.__cause__ = Plain("innermost")
    return e


def caused():
    e = Plain("with a cause")
    e.__cause__ = ValueError("the cause")
    return e


def contextual():
    try:
        raise KeyError("context")
    except KeyError:
        try:
            raise Plain("in context")
        except Plain as e:
            return e


ORDINARY = [lambda: Plain(1), lambda: ValueError("v"), lambda: KeyError("k"), lambda: OSError(5, "io")]
WEIRD = [
    lambda: Slotted(1), lambda: Frozen(), lambda: Equal(), lambda: Falsy(), lambda: Empty(), lambda: NoSet(), lambda: NoStr(),
    lambda: NoEq(), lambda: Picky(1, 2, c=3), caused, contextual, lambda: StopIteration(3), lambda: RecursionError(), lambda: MemoryError(),
    lambda: AssertionError(), lambda: NotImplementedError(), lambda: ExceptionGroup("g", [ValueError(1), Plain(2)]), nested_failure, around_failure, same_class,
    lambda: uberjob.NotTransformedError("x"), lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "r"), lambda: StopAsyncIteration(),
    lambda: asyncio.TimeoutError(), lambda: Warning("w"), lambda: EOFError(),
]
BASE = [lambda: Base(), lambda: SystemExit(3), lambda: GeneratorExit(), lambda: KeyboardInterrupt("from a call"), lambda: asyncio.CancelledError(),
        lambda: BaseExceptionGroup("g", [Base()])]


def maker(rng, base=True, weird=0.5):
    k = rng.random()
    if base and k < 0.12:
        return rng.choice(BASE)
    if k < weird:
        return rng.choice(WEIRD)
    return rng.choice(ORDINARY)
