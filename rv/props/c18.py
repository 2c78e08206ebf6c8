"""C18: staleness depends only on instants, not on time zone or naive/aware form."""
import datetime as dt
import os
import pathlib
import shutil
import tempfile
import time
import zoneinfo

import uberjob
from uberjob.stores import (BinaryFileStore, JsonFileStore, LiteralSource, ModifiedTimeSource, PathSource, PickleFileStore,
                            TextFileStore, TouchFileStore)

from rv.core import exc_info, execute
from rv.props.common import *

CASES = {"quick": 9000, "thorough": 300000}
DET_WORKERS = 0
MIN = {"runs": 25000, "decisions": 70000, "out_of_date": 30000, "near_a_transition": 10000, "naive_in_a_repeated_hour": 2400, "mixed_forms": 16000, "distinct": 24000}
RULE = ("graphs of sources and stored values whose modified times are instants around offset transitions of the process's zone or of the zone "
        "of a value, shown as naive local, aware in many zones and by real files; the same instants are decided in several process zones, "
        "forms and forms of fresh_time and each decision is compared with the one computed from the instants; distinct by zone, "
        "instants and forms")

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)
NAMES = sorted(n for n in zoneinfo.available_timezones() if not n.startswith(("posix/", "right/", "SystemV")) and n not in ("Factory", "localtime"))
FAVOURITES = ["America/New_York", "Europe/London", "Europe/Dublin", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Apia", "Africa/Casablanca",
              "America/St_Johns", "Asia/Gaza", "Antarctica/Troll", "America/Sao_Paulo", "Pacific/Chatham", "Asia/Kolkata", "UTC"]
POSIX = ["EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY12", "<+0330>-3:30<+0430>,J79/24,J263/24", "AAA3BBB1,M3.5.0/2,M10.5.0/3", "IST-1GMT0,M10.5.0,M3.5.0/1"]
NEAR = [0, 1, -1, 10**6, -(10**6), 600 * 10**6, -600 * 10**6, 1799 * 10**6, 1800 * 10**6, -1800 * 10**6, 3599 * 10**6, 3600 * 10**6 - 1, 3600 * 10**6,
        -3600 * 10**6, 5400 * 10**6, -5400 * 10**6, 7200 * 10**6, -7200 * 10**6, 3 * 3600 * 10**6, 13 * 3600 * 10**6, -13 * 3600 * 10**6, 86400 * 10**6]


def set_zone(tz):
    os.environ["TZ"] = tz
    time.tzset()


def pick_zone(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice(FAVOURITES)
    if k < 0.7:
        return rng.choice(POSIX)
    return rng.choice(NAMES)


def transitions(year):
    """Instants (seconds) at which the process's zone changes its offset in or near the year."""
    t = int(dt.datetime(year, 1, 1, tzinfo=UTC).timestamp())
    end, step, out = t + 370 * 86400, 86400, []
    off = time.localtime(t).tm_gmtoff
    while t < end:
        o = time.localtime(t + step).tm_gmtoff
        if o != off:
            lo, hi = t, t + step
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if time.localtime(mid).tm_gmtoff == off:
                    lo = mid
                else:
                    hi = mid
            out.append(hi)
            off = o
        t += step
    return out


class Sub(dt.datetime):
    """Like the timestamps of other libraries."""


class Zone(dt.tzinfo):
    def __init__(self, minutes):
        self.d = dt.timedelta(minutes=minutes)

    def utcoffset(self, t):
        return self.d

    def dst(self, t):
        return None

    def tzname(self, t):
        return None


class NoOffset(dt.tzinfo):
    """A value with such a tzinfo is naive."""

    def utcoffset(self, t):
        return None

    dst = tzname = utcoffset


NO_OFFSET = NoOffset()


def utc(us):
    return EPOCH + dt.timedelta(microseconds=us)


def naive(us):
    s, f = divmod(us, 10**6)
    return dt.datetime.fromtimestamp(s).replace(microsecond=f)


def sub(t):
    return Sub(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, t.tzinfo, fold=t.fold)


def form(rng):
    """A way to write an instant (µs since 1970): (name, function)."""
    k = rng.random()
    if k < 0.3:
        return "naive", naive
    if k < 0.4:
        return "utc", utc
    if k < 0.5:
        m = rng.randrange(-1439, 1440)
        return f"fixed{m}", lambda us: utc(us).astimezone(dt.timezone(dt.timedelta(minutes=m)))
    if k < 0.55:
        z = dt.timezone(dt.timedelta(seconds=rng.randrange(-86399, 86400)))
        return "seconds", lambda us: utc(us).astimezone(z)
    if k < 0.8:
        n = rng.choice(FAVOURITES + NAMES)
        z = zoneinfo.ZoneInfo(n)
        return n, lambda us: utc(us).astimezone(z)
    if k < 0.85:
        return "local", lambda us: utc(us).astimezone()
    if k < 0.9:
        z = Zone(rng.choice([0, 330, -570, 840, -720, 60]))
        return "tzinfo", lambda us: (utc(us) + z.d).replace(tzinfo=z)
    if k < 0.93:
        return "nooffset", lambda us: naive(us).replace(tzinfo=NO_OFFSET)
    if k < 0.97:
        return "sub-naive", lambda us: sub(naive(us))
    return "sub-utc", lambda us: sub(utc(us))


class FormStore(uberjob.ValueStore):
    def __init__(self, w, i):
        self.w, self.i = w, i

    def read(self):
        return self.i

    def write(self, value):
        self.w.wrote.append(self.i)

    def get_modified_time(self):
        us = self.w.times[self.i]
        return None if us is None else self.w.forms[self.i][1](us)


def file_store(cls, w, i, path):
    class Store(cls):
        def read(self):
            return i

        def write(self, value):
            w.wrote.append(i)

    return Store(path)


class W:
    """A graph with an instant (or none) per stored value; nothing is changed by a run."""

    def __init__(self, case, rng, root):
        self.rng, self.root = rng, root
        n = rng.choice([2, 3, 5, 8])
        self.preds, self.kind, self.times, self.forms, self.wrote = {}, {}, {}, {}, []
        self.dep = {}
        for i in range(n):
            self.preds[i] = sorted(rng.sample(range(i), min(i, rng.choice([0, 1, 1, 2, 3]))))
            self.dep[i] = [p for p in self.preds[i] if rng.random() < 0.2]
            if not self.preds[i] and rng.random() < 0.7:
                self.kind[i] = rng.choice(["path", "path-str", "mtime", "literal", "form-source"])
            else:
                self.kind[i] = rng.choice(["form", "form", "form", "json", "pickle", "text", "binary", "touch", "none"])

    def is_source(self, i):
        return self.kind[i] in ("path", "path-str", "mtime", "literal", "form-source")

    def is_file(self, i):
        return self.kind[i] in ("path", "path-str", "json", "pickle", "text", "binary", "touch")

    def place(self, rng, base):
        pool = [b + d for b in base for d in NEAR]
        few = [rng.choice(pool) for _ in range(rng.choice([2, 3, 6]))]
        for i in self.preds:
            if self.kind[i] == "none":
                continue
            us = rng.choice(few) if rng.random() < 0.6 else rng.choice(pool)
            if not self.is_source(i) and rng.random() < 0.08:
                us = None
            self.times[i] = us
            if self.is_file(i):
                p = os.path.join(self.root, f"f{i}")
                if us is None:
                    if os.path.exists(p):
                        os.unlink(p)
                else:
                    with open(p, "w"):
                        pass
                    os.utime(p, ns=(us * 1000, us * 1000))
        self.pool = few + rng.sample(pool, min(5, len(pool)))

    def store(self, i):
        k = self.kind[i]
        p = os.path.join(self.root, f"f{i}")
        if k == "path":
            return PathSource(pathlib.Path(p))
        if k == "path-str":
            return PathSource(p, required=False)
        if k == "mtime":
            return ModifiedTimeSource(self.forms[i][1](self.times[i]))
        if k == "literal":
            return LiteralSource(i, self.forms[i][1](self.times[i]))
        if k in ("form", "form-source"):
            return FormStore(self, i)
        cls = {"json": JsonFileStore, "pickle": PickleFileStore, "text": TextFileStore, "binary": BinaryFileStore, "touch": TouchFileStore}[k]
        return file_store(cls, self, i, pathlib.Path(p) if i % 2 else p)

    def build(self):
        p, reg, node = uberjob.Plan(), uberjob.Registry(), {}
        for i, ps in self.preds.items():
            if self.is_source(i):
                node[i] = reg.source(p, self.store(i))
            else:
                node[i] = p.call(lambda *a: None, *[node[x] for x in ps if x not in self.dep[i]])
                for x in self.dep[i]:
                    p.add_dependency(node[x], node[i])
                if self.kind[i] != "none":
                    reg.add(node[i], self.store(i))
        return p, reg

    def outdated(self, fresh):
        """From the instants alone."""
        out, newest, tainted = set(), {}, {}
        for i, ps in self.preds.items():
            up = [newest[x] for x in ps if newest[x] is not None]
            m = max(up) if up else None
            bad = any(tainted[x] for x in ps)
            if self.kind[i] == "none":
                newest[i], tainted[i] = m, bad
                continue
            t = self.times[i]
            stale = bad or t is None or (m is not None and m > t) or (not self.is_source(i) and fresh is not None and fresh > t)
            if stale:
                out.add(i)
            newest[i], tainted[i] = t if m is None or t is None else max(m, t), stale
        return out


EXTREME = {"min": (dt.datetime.min, dt.datetime.min.replace(tzinfo=UTC), dt.datetime.min.replace(tzinfo=dt.timezone(dt.timedelta(hours=14))),
                   dt.datetime.min.replace(tzinfo=dt.timezone(dt.timedelta(hours=-12)))),
           "max": (dt.datetime.max, dt.datetime.max.replace(tzinfo=UTC), dt.datetime.max.replace(tzinfo=dt.timezone(dt.timedelta(hours=14))),
                   dt.datetime.max.replace(tzinfo=dt.timezone(dt.timedelta(hours=-12))))}


def run_case(case):
    rng = case.rng
    root = tempfile.mkdtemp(dir=case.scratch)
    try:
        w = W(case, rng, root)
        zone = pick_zone(rng)
        set_zone(zone)
        year = rng.choice([1942, 1969, 1970, 1987, 1999, 2007, 2011, 2015, 2019, 2021, 2023, 2024, 2024, 2025, 2026, 2037, 2039, 2060])
        tr = transitions(year)
        if tr:
            base = [rng.choice(tr) * 10**6]
            case.count("around_a_transition")
            if rng.random() < 0.2:
                base.append(rng.choice(tr) * 10**6)
        else:
            base = [int(dt.datetime(year, rng.randrange(1, 13), 1, tzinfo=UTC).timestamp()) * 10**6 + rng.choice([0, 1, 999999])]
        case.note(zone=zone, base=base, preds=w.preds, dep=w.dep, kinds=w.kind)
        for _ in range(rng.choice([1, 2])):
            w.place(rng, base)
            for _ in range(rng.choice([2, 3, 4])):
                one(case, rng, w, zone if rng.random() < 0.6 else pick_zone(rng), bool(tr))
                if case.violations:
                    return
        case.sample(case.notes)
    finally:
        set_zone("UTC")
        shutil.rmtree(root)


def one(case, rng, w, zone, near):
    set_zone(zone)
    same = rng.random() < 0.15
    f0 = form(rng)
    for i in w.times:
        w.forms[i] = f0 if same else form(rng)
    k = rng.random()
    fresh_us, fresh, fname = None, None, "none"
    if k < 0.7:
        fresh_us = rng.choice(w.pool)
        fname, ff = form(rng)
        fresh = ff(fresh_us)
    elif k < 0.76:
        fname = rng.choice(["min", "max"])
        fresh = rng.choice(EXTREME[fname])
        fresh_us = {"min": -(10**18), "max": 10**18}[fname]
    want = {i for i in w.outdated(fresh_us) if not w.is_source(i)}
    p, reg = w.build()
    w.wrote.clear()
    kw = dict(max_workers=rng.choice([1, 1, 2]), progress=None)
    if fresh is not None:
        kw["fresh_time"] = fresh
    res = execute(case, lambda: uberjob.run(p, registry=reg, **kw))
    shown = {i: str(w.forms[i][1](t)) if t is not None else None for i, t in w.times.items()}
    case.note(process_zone=zone, forms={i: w.kind[i] if w.is_file(i) else f[0] for i, f in w.forms.items()}, instants={i: None if t is None else str(utc(t)) for i, t in w.times.items()},
              shown=shown, fresh=[fname, None if fname in ("none", "min", "max") else str(utc(fresh_us)), str(fresh)])
    case.count("runs")
    case.count("decisions", sum(1 for i in w.times if not w.is_source(i)))
    case.count("out_of_date", len(want))
    case.count("near_a_transition", near)
    used = {("file" if w.is_file(i) else f[0]) for i, f in w.forms.items()}
    case.count("mixed_forms", len(used) > 1)
    case.count("naive_in_a_repeated_hour", sum(1 for i, t in w.times.items() if t is not None and (w.is_file(i) or "naive" in w.forms[i][0]) and naive(t).fold))
    if res.exc is not None:
        case.violate(f"error: the run failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
        return
    got = set(w.wrote)
    if got != want:
        case.violate(f"decision: rewrote {sorted(got)}, out of date by the instants are {sorted(want)}", preds=w.preds)
    case.key(zone, sorted((i, t, w.forms[i][0]) for i, t in w.times.items()), fname, fresh_us)
