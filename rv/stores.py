"""In-memory value stores with a logical clock, an event log and fault injection."""
import datetime as dt
import random

from uberjob import ValueStore

BASE = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)


STEPS = [dt.timedelta(seconds=1)] * 3 + [dt.timedelta(microseconds=2)] * 2 + [dt.timedelta(milliseconds=1), dt.timedelta(microseconds=300), dt.timedelta(minutes=20), dt.timedelta(days=1)]


class Clock:
    step = STEPS[0]  # between consecutive times; the same for every world of a case
    def __init__(self):
        self.n = 0

    def tick(self):
        self.n += 1
        return self.n

    @staticmethod
    def time(n):
        # n may be halfway between two times
        return BASE + Clock.step * n


class StoreError(Exception):
    pass


class MemStore(ValueStore):
    """Reads return a distinct, equal object by default; `wrap` lets a store return something
    recognisably different from what was written (a normalising store)."""

    __slots__ = ("sid", "clock", "log", "value", "mtime", "wrap", "fault", "pert", "pertval", "present", "form", "attempts")

    def __init__(self, sid, clock, log, *, pert=None, pertval=None, wrap=None):
        self.sid = sid
        self.clock = clock
        self.log = log
        self.value = None
        self.present = False
        self.mtime = None
        self.wrap = wrap
        self.fault = None  # callable(op, sid, phase) -> may raise
        self.pert = pert
        self.pertval = pertval
        self.form = None
        self.attempts = {}

    def _act(self):
        if self.pert is not None:
            self.pert.act(self.pertval)

    def _fault(self, op, phase):
        if self.fault is not None:
            self.fault(op, self.sid, phase)

    def read(self):
        log = self.log
        log.append(("RS", self.sid))
        try:
            self._fault("read", "before")
            self._act()
            if not self.present:
                raise StoreError(f"store {self.sid} is empty")
            v = self.value
            if self.wrap is not None:
                v = self.wrap(v)
            self._fault("read", "after")
        except BaseException as e:
            log.append(("RF", self.sid, e))
            raise
        log.append(("RE", self.sid, v))
        return v

    def write(self, value):
        log = self.log
        log.append(("WS", self.sid, value))
        try:
            self._fault("write", "before")
            self._act()
            self.put(value)
            self._fault("write", "after")
        except BaseException as e:
            log.append(("WF", self.sid, e))
            raise
        log.append(("WE", self.sid, value))

    def put(self, value):
        self.value = value
        self.mtime = self.clock.tick()
        self.present = True

    def delete(self):
        self.value = None
        self.mtime = None
        self.present = False

    def get_modified_time(self):
        log = self.log
        log.append(("MS", self.sid))
        try:
            self._fault("mtime", "before")
            self._act()
            n = self.mtime
            t = None if n is None else self.show_time(n)
        except BaseException as e:
            log.append(("MF", self.sid, e))
            raise
        log.append(("ME", self.sid))
        return t

    def show_time(self, n):
        t = Clock.time(n)
        f = self.form
        if f is None or f == "utc":
            return t
        if f == "naive":
            return t.astimezone().replace(tzinfo=None)
        return t.astimezone(f)

    def state(self):
        return (self.present, self.value, self.mtime)

    def restore(self, st):
        self.present, self.value, self.mtime = st


class EmptyStore(MemStore):
    """Says how many things it holds besides its value: none."""

    __slots__ = ()

    def __len__(self):
        return 0


class FalseStore(MemStore):
    __slots__ = ()

    def __bool__(self):
        return False


class EqualStore(MemStore):
    """Compares by value, hence cannot be hashed; equal to every other."""

    __slots__ = ()

    def __eq__(self, other):
        return True

    __hash__ = None


class TwinStore(MemStore):
    """Compares and hashes by what it is, not by which one it is: equal to every other."""

    __slots__ = ()

    def __eq__(self, other):
        return type(other) is TwinStore

    def __hash__(self):
        return 7


KINDS = [EmptyStore, FalseStore, EqualStore]


def kind(case, key):
    """The class of a store: mostly MemStore (independent of the case's other choices)."""
    if random.Random(f"stores:{case}").random() < 0.08:
        return TwinStore
    r = random.Random(f"store:{case}:{key}")
    return MemStore if r.random() < 0.8 else r.choice(KINDS)
