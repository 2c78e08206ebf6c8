"""C20: the bundled displays render every reachable state, ending with the final one."""
import collections
import datetime
import decimal
import enum
import html.parser
import io
import os
import pathlib
import re
import sys
import threading
import time

import uberjob
from uberjob.progress import Progress, ProgressObserver, console_progress, html_progress, ipython_progress

from rv import detsched, excs, hist, plangen
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen
from rv.props.common import *
from rv.world import World, WorldGen

CASES = {"quick": 5000, "thorough": 100000}
DET_WORKERS = 6
MIN = {"displays": 1500, "scopes_displayed": 8000, "renderings": 5000, "console": 400, "html": 400, "ipython": 250, "real_runs": 200,
       "snapshots": 300, "elapsed_sums": 1200, "unorderable": 150, "exceptions": 2500, "exceptions_looked_for": 500, "distinct": 1000}
RULE = ("legal notification sequences (any mix of totals, running, completed, failed, exceptions, both sections, scopes of unorderable, "
        "mixed and unencodable values) from several threads on a virtual clock, and real runs, drive the public console, HTML and IPython "
        "displays; their output is parsed back and compared with counts and busy time computed from the notifications, during the run "
        "and at its end; errors in the update thread are caught; distinct by scopes, counts and renderings")


# ---------------------------------------------------------------- scope values
class Colour(enum.Enum):
    RED = 1
    GREEN = 2


class Plainly:
    def __init__(self, k):
        self.k = k

    def __str__(self):
        return f"plainly {self.k}"

    def __eq__(self, other):
        return type(other) is Plainly and other.k == self.k

    def __hash__(self):
        return hash(self.k)


class BadOrder(Plainly):
    __hash__ = Plainly.__hash__

    def __eq__(self, other):
        return type(other) is BadOrder and other.k == self.k

    def __lt__(self, other):
        raise RuntimeError("no order")

    __gt__ = __lt__


class BadTruth(Plainly):
    __hash__ = Plainly.__hash__

    def __eq__(self, other):
        return type(other) is BadTruth and other.k == self.k

    def __lt__(self, other):
        class X:
            def __bool__(self):
                raise RuntimeError("ambiguous")

        return X()

    __gt__ = __lt__


class SameName:
    def __repr__(self):
        return "same"


class Str(str):
    def __str__(self):
        return "shown:" + "".join(self)

    def __lt__(self, other):
        return NotImplemented


class Int(int):
    pass


utc = datetime.timezone.utc
ORDERABLE = ["a", "b", "x.y.z", "stage-1", "", 1, 2, 10, -3, 2.5, ("t", 1)]
UNORDERABLE = [None, Colour.RED, Colour.GREEN, Plainly(1), Plainly(2), BadOrder(1), BadOrder(2), BadTruth(1), BadTruth(2), 1j, 2j, (1, "a"), ("a", 1), len, print,
               object(), object(), SameName(), SameName(), int, str, float("nan"), datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 1, tzinfo=utc),
               datetime.date(2020, 1, 1), frozenset([1]), frozenset([2]), pathlib.PurePosixPath("/a/b.c"), pathlib.PureWindowsPath("/a/b.c"), decimal.Decimal("NaN"),
               decimal.Decimal(3), Str("s"), Str("t"), Int(4), True, b"\xff", range(3), ..., NotImplemented, (None,), ((), 1), ("", None)]
TEXT = ["<b>bold</b>", "a & b", "\"q' ", "&lt;", "</td></tr>", "{x}", "%s", "\\", "caf\xe9", "\u65e5\u672c", "\U0001f600", "\ud800", "a\udcffb", "\u200b.", "\x00",
        "\x1b[31m", "x" * 300, " lead", "trail ", "\u202eabc", "3 / 4", "1s", ";", "|"]
NEWLINES = ["two\nlines", "\r", "\u2028", "\x0b", "\n"]


def make_scopes(rng):
    pool = []
    k = rng.random()
    for src, p in ((ORDERABLE, 0.9), (UNORDERABLE, 0.75), (TEXT, 0.5), (NEWLINES, 0.12)):
        if rng.random() < p:
            pool += rng.sample(src, min(len(src), rng.choice([1, 2, 4, 8])))
    if rng.random() < 0.12:
        pool = rng.sample(pool, min(len(pool), 2)) + [x for x in UNORDERABLE if type(x) is SameName]
    pool = pool or [None, Colour.RED]
    n = rng.choice([1, 1, 2, 3, 5, 9, 20])
    out, seen = [], set()
    length = rng.choice([None, None, 1, 2])
    for _ in range(n):
        s = tuple(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]) if length is None else length))
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def text(scope):
    return ", ".join(str(v) for v in scope)


ESC = re.compile(r"\\(x[0-9a-f]{2}|u[0-9a-f]{4}|U[0-9a-f]{8})|&#\d+;|[\ud800-\udfff]|\?")


def norm(s, enc=None):
    """Text with everything that may have been escaped for lack of an encoding replaced."""
    s = s.replace("\u200b", "").replace("\\u200b", "")
    if enc:
        s = "".join(c if can(c, enc) else "\ud800" for c in s)
    return ESC.sub("¤", s)


def can(c, enc):
    try:
        c.encode(enc)
        return True
    except UnicodeEncodeError:
        return False


# ---------------------------------------------------------------- the truth
class Account:
    """Notifications as they were given, with the time of each."""

    def __init__(self, clock):
        self.clock = clock
        self.lock = threading.Lock()
        self.table = {}
        self.times = []
        self.tokens = []
        self.n = 0

    def add(self, kind, section, scope, amount=1):
        with self.lock:
            c = self.table.setdefault(section, {}).setdefault(scope, [0, 0, 0, 0])
            self.n += 1
            if kind == "total":
                c[0] += amount
            elif kind == "running":
                c[1] += 1
                self.times.append((self.clock(), 1))
            else:
                c[1] -= 1
                c[2 if kind == "completed" else 3] += 1
                self.times.append((self.clock(), -1))

    def busy(self, until=None):
        total, running, prev = 0.0, 0, None
        times = sorted(self.times)
        if until is not None:
            times = [x for x in times if x[0] < until] + [(until, 0)]
        for t, d in times:
            if running:
                total += t - prev
            running += d
            prev = t
        return total

    def running(self):
        return sum(c[1] for m in self.table.values() for c in m.values())

    def expected(self, enc=None):
        """Counter of (section, scope text, completed, running, failed, total)"""
        return collections.Counter(
            (section, norm(text(scope), enc), c[2], c[1], c[3], c[0]) for section, m in self.table.items() for scope, c in m.items()
        )


class Stamp(ProgressObserver):
    """Records what a run reports."""

    def __init__(self, acct):
        self.acct = acct

    def __enter__(self):
        pass

    def __exit__(self, *exc):
        pass

    def increment_total(self, *, section, scope, amount):
        self.acct.add("total", section, scope, amount)

    def increment_running(self, *, section, scope):
        self.acct.add("running", section, scope)

    def increment_completed(self, *, section, scope):
        self.acct.add("completed", section, scope)

    def increment_failed(self, *, section, scope, exception):
        self.acct.add("failed", section, scope)


# ---------------------------------------------------------------- reading the displays back
PROGRESS = re.compile(r"(?:(\d+)|\((\d+) \+ (\d+)\)) / (\d+)(?:, (\d+) failed)?\Z")


def read_progress(s):
    """(completed, running, failed, total)"""
    m = PROGRESS.match(s.strip())
    if not m:
        return None
    a, b, r, t, f = m.groups()
    return int(a if a is not None else b), int(r or 0), int(f or 0), int(t)


def read_elapsed(s):
    m = re.match(r"(?:(\d+)h)?(?:(\d+)m)?(\d+)s\Z", s.strip())
    if not m:
        return None
    h, mi, se = (int(x or 0) for x in m.groups())
    return h * 3600 + mi * 60 + se


class View:
    """What a display shows: rows of (section, scope text, completed, running, failed, total) and elapsed seconds."""

    def __init__(self):
        self.rows = collections.Counter()
        self.elapsed = []
        self.bad = None
        self.totals = {}


class ConsoleDisplay:
    name = "console"

    def __init__(self, case, rng):
        self.progress = console_progress
        k = rng.random()
        self.enc = None
        if k < 0.4:
            self.raw = io.StringIO()
        else:
            self.enc = rng.choice(["utf-8", "utf-8", "ascii", "latin-1", "cp1252"])
            self.bytes = io.BytesIO()
            self.raw = io.TextIOWrapper(self.bytes, encoding=self.enc, errors="strict", newline="")
        self.idle = 400.0

    def __enter__(self):
        self.old, sys.stdout = sys.stdout, self.raw
        return self

    def __exit__(self, *exc):
        sys.stdout = self.old

    def text(self):
        if self.enc is None:
            return self.raw.getvalue()
        self.raw.flush()
        return self.bytes.getvalue().decode(self.enc)

    def renderings(self):
        return len(re.findall(r"^uberjob, elapsed ", self.text(), re.M))

    def view(self, acct):
        v = View()
        if any(c in "\n\r" for m in acct.table.values() for s in m for c in text(s)):
            v.bad = "newlines"
            return v
        blocks, cur = {}, None
        for line in self.text().split("\n"):
            if line in ("stale:", "run:"):
                cur = blocks[line[:-1]] = []
            elif cur is not None and line.startswith("  ") and line.count(" | ") >= 2:
                cur.append(line)
            else:
                cur = None
        for section, lines in blocks.items():
            for line in lines:
                p, e, s = line.split(" | ", 2)
                p, e = read_progress(p), read_elapsed(e)
                if p is None or e is None:
                    v.bad = f"unreadable line {line!r}"
                    return v
                v.rows[(section, norm(s), *p)] += 1
                v.elapsed.append((section, e))
        return v


class Table(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.title = None
        self.rows = []  # (title, in footer, cells, widths)
        self.stack = []
        self.cells = None
        self.foot = False
        self.grab = None
        self.widths = []

    def handle_starttag(self, tag, attrs):
        if tag in ("h3", "td"):
            self.grab = [tag, ""]
        if tag == "tr":
            self.cells, self.widths = [], []
        if tag == "tfoot":
            self.foot = True
        style = dict(attrs).get("style") or ""
        m = re.match(r"width:\s*([-+.\de]+)%", style)
        if m and tag == "div":
            self.widths.append(float(m.group(1)))

    def handle_endtag(self, tag):
        if tag == "tfoot":
            self.foot = False
        if self.grab and self.grab[0] == tag:
            if tag == "h3":
                self.title = self.grab[1]
            elif self.cells is not None:
                self.cells.append(self.grab[1])
            self.grab = None
        if tag == "tr" and self.cells:
            self.rows.append((self.title, self.foot, self.cells, self.widths))
            self.cells = None

    def handle_data(self, data):
        if self.grab:
            self.grab[1] += data


class HtmlDisplay:
    name = "html"

    def __init__(self, case, rng):
        self.docs = []
        self.stamps = []
        self.path = None
        k = rng.random()
        if k < 0.7:
            self.progress = html_progress(self.take)
        else:
            self.path = os.path.join(case.scratch, f"progress-{case.index}-{rng.randrange(1 << 30)}.html")
            self.progress = html_progress(self.path if k < 0.85 else pathlib.Path(self.path))
        self.idle = 400.0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.path and os.path.exists(self.path):
            os.unlink(self.path)

    def take(self, doc):
        self.docs.append(doc)
        s = detsched.ACTIVE
        self.stamps.append(s.now if s is not None else 0.0)

    def doc(self):
        if self.path is None:
            return self.docs[-1] if self.docs else None
        try:
            with open(self.path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def renderings(self):
        return len(self.docs) if self.path is None else int(self.doc() is not None)

    def view(self, acct, doc=None):
        v = View()
        doc = self.doc() if doc is None else doc
        if doc is None:
            v.bad = "nothing was emitted"
            return v
        if not isinstance(doc, bytes):
            v.bad = f"emitted a {type(doc).__name__} instead of bytes"
            return v
        t = Table()
        t.feed(doc.decode())
        t.close()
        for title, foot, cells, widths in t.rows:
            if len(cells) < 4:
                continue
            p, e = read_progress(cells[1]), read_elapsed(cells[2])
            if p is None or e is None:
                v.bad = f"unreadable row {cells!r}"
                return v
            section = "stale" if "stale" in (title or "").lower() else "run"
            done, running, failed, total = p
            if len(widths) == 3 and total:
                want = [100 * x / total for x in (done, running, failed)]
                if any(abs(x - y) > 1 for x, y in zip(widths, want)):
                    v.bad = f"the bars {widths} do not show {p}"
            if foot:
                v.totals[section] = (p, e)
            else:
                v.rows[(section, norm(cells[3]), *p)] += 1
                v.elapsed.append((section, e))
        for section, (p, e) in v.totals.items():
            rows = [(k[2:], n) for k, n in v.rows.items() if k[0] == section]
            want = tuple(sum(r[i] * n for r, n in rows) for i in range(4))
            if want[0] + want[2] == want[3]:
                want = (want[0], 0, want[2], want[3])
            if p != want:
                v.bad = f"the total row of {section} shows {p}, its rows add up to {want}"
        return v


class IPythonDisplay:
    name = "ipython"

    def __init__(self, case, rng):
        self.progress = ipython_progress
        self.shown = []
        self.idle = 60.0

    def __enter__(self):
        import IPython.display
        import IPython.core.display_functions as f

        self.mods = [(m, m.display) for m in (IPython.display, f)]
        for m, _ in self.mods:
            m.display = lambda *a, **k: self.shown.extend(a)
        return self

    def __exit__(self, *exc):
        for m, d in self.mods:
            m.display = d

    def renderings(self):
        return len(self.shown)

    def view(self, acct):
        import ipywidgets

        v = View()
        if not self.shown:
            v.bad = "nothing was displayed"
            return v
        section = None

        def walk(w):
            nonlocal section
            if isinstance(w, ipywidgets.HTML):
                s = w.value.lower()
                if "<b>" in s:
                    section = "stale" if "stale" in s else "run" if "run" in s else None
            kids = getattr(w, "children", ())
            bar = [k for k in kids if isinstance(k, ipywidgets.IntProgress)]
            label = [k for k in kids if isinstance(k, ipywidgets.Label)]
            if bar and label:
                p, e, s = label[0].value.split("; ", 2)
                p, e = read_progress(p), read_elapsed(e)
                if p is None or e is None:
                    v.bad = f"unreadable label {label[0].value!r}"
                    return
                if bar[0].value != p[0] + p[2] or bar[0].max != p[3]:
                    v.bad = f"the bar shows {bar[0].value} of {bar[0].max} beside {p}"
                v.rows[(section, norm(s), *p)] += 1
                v.elapsed.append((section, e))
                return
            for k in kids:
                walk(k)

        walk(self.shown[-1])
        return v


def shown_text(d):
    if d.name == "console":
        return d.text()
    if d.name == "html":
        return html.unescape((d.doc() or b"").decode())
    out = []

    def walk(w):
        v = getattr(w, "value", None)
        if isinstance(v, str):
            out.append(v)
        for k in getattr(w, "children", ()):
            walk(k)

    for w in d.shown[-1:]:
        walk(w)
    return html.unescape("\n".join(out))


def judge_exceptions(case, d, acct):
    """Every exception has been shown (displays keep the first 128)."""
    failures = sum(c[3] for m in acct.table.values() for c in m.values())
    if not acct.tokens or failures > 128:
        return
    text = shown_text(d)
    case.count("exceptions_looked_for", len(acct.tokens))
    missing = [t for t in acct.tokens if t not in text]
    if missing:
        case.violate(f"exceptions: {d.name} never showed {len(missing)} of {failures} exceptions", missing=missing[:10])


KINDS = {"console": ConsoleDisplay, "html": HtmlDisplay, "ipython": IPythonDisplay}


def judge(case, d, acct, when, elapsed=True):
    v = d.view(acct)
    if v.bad == "newlines":
        case.count("unparsed")
        return
    if v.bad:
        case.violate(f"display: {d.name} {when}: {v.bad}")
        return
    want = acct.expected(getattr(d, "enc", None))
    # what is running is not shown before anything started or once everything is done
    case.count("scopes_displayed", sum(v.rows.values()))
    if v.rows != want:
        case.violate(f"counts: {d.name} {when} does not show the counts of the run", missing=[repr(x) for x in (want - v.rows)][:6], shown=[repr(x) for x in (v.rows - want)][:6])
        return
    if elapsed:
        busy = acct.busy()
        n = len(v.elapsed)
        got = sum(e for _, e in v.elapsed)
        case.count("elapsed_sums")
        if not busy - n - 0.01 < got <= busy + 0.01:
            case.violate(f"elapsed: the times {d.name} {when} attributes to the {n} scopes add up to {got} s, calls were running for {busy:.3f} s",
                         rows=[repr(x) for x in v.elapsed][:20])
        for section, (p, e) in v.totals.items():
            rows = [x for s, x in v.elapsed if s == section]
            if not sum(rows) <= e <= sum(rows) + len(rows):
                case.violate(f"elapsed: the total row of {section} shows {e} s, its rows {rows}")


def during(case, d, acct):
    """The elapsed times of renderings while calls are running."""
    for doc, at in list(zip(d.docs, d.stamps))[:12]:
        v = d.view(acct, doc)
        if v.bad:
            case.violate(f"display: {d.name} at {at}: {v.bad}")
            return
        busy = acct.busy(at)
        got = sum(e for _, e in v.elapsed)
        case.count("elapsed_while_running")
        if not busy - len(v.elapsed) - 0.01 < got <= busy + 0.01:
            case.violate(f"elapsed: the times {d.name} attributes to the {len(v.elapsed)} scopes at {at} add up to {got} s, calls had been running for {busy:.3f} s",
                         rows=[repr(x) for x in v.elapsed][:20])
            return


def raised(e):
    """e as raised at some depth."""
    def f(n):
        if n:
            return f(n - 1)
        raise e

    try:
        f(hash(type(e).__name__) % 4)
    except BaseException as x:
        return x


HOSTILE = [lambda: ValueError("\ud800 <b>"), lambda: ValueError("a\nrun:\n  1 / 2 | 3s | x\n"), lambda: SyntaxError("bad", ("f.py", 3, 2, "x y\n")), lambda: ValueError("x" * 3000),
           lambda: ValueError(), lambda: ValueError(b"\xff", object()), lambda: KeyError("\u65e5")]


def cyclic():
    a, b = ValueError("a"), ValueError("b")
    a.__cause__, b.__cause__ = b, a
    return a


def noted():
    e = ValueError("noted")
    e.add_note("a note \ud800\n  | x | y")
    return e


def make_exception(rng, acct=None):
    k = rng.random()
    if acct is not None and k < 0.4:
        token = f"token{len(acct.tokens)}."
        acct.tokens.append(token)
        return raised(ValueError(token))
    if k < 0.3:
        e = rng.choice(HOSTILE + [cyclic, noted])()
    else:
        e = excs.maker(rng, base=False)()
    return e if rng.random() < 0.3 else raised(e)


# ---------------------------------------------------------------- the cases
def driven(case, rng, displays, acct, errors):
    det = case.mode == "det"
    observers = [d.progress.observer() for d in displays]
    scopes = make_scopes(rng)
    if any(isinstance(x, (Plainly, enum.Enum, SameName, complex, type(None))) for s in scopes for x in s):
        case.count("unorderable")
    ip = any(d.name == "ipython" for d in displays)
    # following every bytecode of the rendering is for short histories only
    naps = [0, 0, 0.25, 1, 2.5, 7] if ip else [0, 0, 0.25, 1, 2.5, 7, 29.75, 31]
    if case.traced:
        # wake when the displays do
        naps = [0, 0, 1, 1] if ip else [0, 0, 3, 3]
    else:
        naps += [29.75, 31] if ip else [100, 1000] + [7205.5] * (rng.random() < 0.1)
    tell = [0]

    def note(kind, section, scope, **k):
        acct.add(kind, section, scope, k.get("amount", 1))
        tell[0] += 1
        for o in observers:
            getattr(o, f"increment_{kind}")(section=section, scope=scope, **k)

    def nap():
        if det:
            x = rng.choice(naps)
            if x:
                if leaps and rng.random() < 0.2:
                    # much later: the machine was suspended
                    detsched.ACTIVE.leap += leaps.pop()
                    case.count("leaps")
                time.sleep(x)

    leaps = [rng.choice([50.0, 3599.0, 36000.0, 86399.0, 90000.0, 1e6]) for _ in range(rng.choice([1, 2]))] if det and rng.random() < 0.15 else []
    sections = rng.choice([["run"], ["run"], ["stale", "run"], ["stale", "run"], ["stale"]])
    crowd = not case.traced and rng.random() < 0.03
    if crowd:
        naps = [0]
    many = not ip and not crowd and not case.traced and rng.random() < 0.015
    if many:
        # every rendering shows all the exceptions
        naps = [0] * 12 + [0.25, 2.5, 31]
    phases = []
    for section in sections:
        keys = rng.sample(scopes, rng.randrange(1, len(scopes) + 1))
        for part in range(rng.choice([1, 1, 1, 2])):
            mine = keys if part == 0 else rng.sample(scopes, rng.randrange(1, len(scopes) + 1))
            calls = {s: rng.choice([1, 1, 2] if case.traced else [1, 1, 2, 3, 7]) for s in mine}
            if crowd:
                calls[mine[0]] = rng.randrange(90, 260)
            if many:
                calls[mine[0]] = 150
            # what is announced again may not be under way already
            phases.append((section, calls))
    if rng.random() < 0.03:
        # only announced
        phases.append(("run" if rng.random() < 0.8 else "stale", {}))
    big = rng.random() < 0.04
    fail = rng.choice([0, 0, 0.1, 0.5, 1]) if not many else 1
    if crowd:
        fail = 0
    unfinished = rng.random() < 0.15
    announced = set()
    runner = [0]

    def drive(jobs, drng):
        try:
            while jobs:
                group = [jobs.pop() for _ in range(min(len(jobs), drng.choice([1, 1, 1, 2, 3])))]
                for section, scope in group:
                    note("running", section, scope)
                    nap()
                drng.shuffle(group)
                for section, scope in group:
                    if drng.random() < fail:
                        case.count("exceptions")
                        note("failed", section, scope, exception=make_exception(drng, acct))
                    else:
                        note("completed", section, scope)
                    nap()
        except BaseException as e:
            errors.append(e)

    def check(when, elapsed=True):
        for d in displays:
            judge(case, d, acct, when, elapsed)

    def main():
        entered = []
        try:
            for o in observers:
                o.__enter__()
                entered.append(o)
            if case.traced and rng.random() < 0.7:
                time.sleep(1 if ip else 3)
            elif rng.random() < 0.2:
                nap()
            for section, calls in phases:
                jobs = []
                for s, n in calls.items():
                    if (section, s) in announced:
                        continue  # all totals of a scope come first
                    announced.add((section, s))
                    extra = (10 ** rng.choice([1, 3, 9, 15]) if big else rng.choice([0, 0, 1, 5])) if unfinished else 0
                    parts = [n + extra]
                    if parts[0] > 1 and rng.random() < 0.4:
                        x = rng.randrange(1, parts[0])
                        parts = [x, parts[0] - x]
                    for x in parts:
                        note("total", section, s, amount=x)
                        if rng.random() < 0.2:
                            nap()
                    jobs += [(section, s)] * n
                rng.shuffle(jobs)
                if unfinished and rng.random() < 0.3:
                    jobs = jobs[: rng.randrange(len(jobs) + 1)]
                k = min(len(jobs), rng.choice([1, 1, 2, 3, 5]))
                shares = [jobs[i::k] for i in range(k)]
                import random as r

                threads = [threading.Thread(target=drive, args=(share, r.Random(rng.random()))) for share in shares]
                for t in threads:
                    t.start()
                for t in threads:
                    t.join()
                if det and rng.random() < 0.5:
                    time.sleep(max(d.idle for d in displays))
                    check("while idle")
                    case.count("snapshots")
        finally:
            exc = (None, None, None)
            if fail and rng.random() < 0.5:
                e = raised(ValueError("run failed"))
                exc = (type(e), e, e.__traceback__)
            for o in reversed(entered):
                o.__exit__(*exc)

    case.note(scopes=[repr(s)[:120] for s in scopes[:20]], phases=[(s, list(c.values())) for s, c in phases], displays=[d.name for d in displays], fail=fail, unfinished=unfinished)
    def final():
        check("at the end")
        for d in displays:
            judge_exceptions(case, d, acct)

    return main, final


def real(case, rng, displays, acct, errors):
    pert = Pert(case, rng, long=False)
    scopes = make_scopes(rng)
    registry = rng.random() < 0.5
    mk = dict(pert=pert.plan, max_n=rng.choice([3, 8, 14]), fail=rng.choice([0, 0, 0.2, 0.5]))
    spec = WorldGen(rng, **mk).build() if registry else Gen(rng, **mk).build()
    for n in spec.nodes:
        n.scope = rng.choice(scopes)
        if n.kind == "call" and n.beh == ("fail",):
            n.beh = ("fail", lambda: make_exception(rng))
    rec = Progress(lambda: Stamp(acct))
    kw = run_kw(case, rng, max_errors=rng.choice([0, 1, None]), retry=rng.choice([None, 2]))
    kw["progress"] = [rec, *(d.progress for d in displays)]
    if registry:
        w = World(case, spec, pert)
        w.set_output(hist.pick_output(w, rng))
        fn = lambda: w.run(**kw)
    else:
        b = plangen.build(spec, Recorder(case, pert))
        fn = lambda: uberjob.run(b.plan, output=b.output, **kw)
    case.note(scopes=[repr(s)[:120] for s in scopes[:20]], spec=spec.describe(), displays=[d.name for d in displays])
    case.count("real_runs")

    def main():
        try:
            fn()
        except uberjob.CallError:
            pass

    def final():
        for d in displays:
            judge(case, d, acct, "at the end")

    return main, final


def run_case(case):
    rng = case.rng
    det = case.mode == "det"
    names = rng.choice([["console"], ["html"], ["ipython"], ["console", "html"], ["console", "html", "ipython"]])
    displays = [KINDS[n](case, rng) for n in names]

    def clock():
        s = detsched.ACTIVE
        return s.now if s is not None else 0.0

    acct = Account(clock)
    errors = []
    case.traced = det and rng.random() < 0.2
    if case.traced:
        displays = displays[:1]
    main, final = (real if rng.random() < 0.3 and not case.traced else driven)(case, rng, displays, acct, errors)
    dead = []
    old_hook, old_un = threading.excepthook, sys.unraisablehook
    threading.excepthook = lambda a: dead.append(a.exc_value)
    detsched.VIRTUAL_CLOCK = det
    entered = []
    seed_random(rng)
    try:
        for d in displays:
            d.__enter__()
            entered.append(d)
        res = execute(case, main, sched_kw={} if case.traced else {"trace_prefix": None})
        if dead:
            for e in dead:
                import traceback

                case.violate(f"died: the thread of a display raised {exc_info(e)}", tb="".join(traceback.format_exception(e))[-1500:])
            return
        if errors or res.exc is not None:
            e = errors[0] if errors else res.exc
            import traceback

            case.violate(f"raised: an observer raised {exc_info(e)}", tb="".join(traceback.format_exception(e))[-1500:])
            return
        if res.leaked:
            case.violate("leak: a thread of a display is still running after the observer was exited")
        if case.violations:
            return
        if not det:
            # the clock is not ours
            acct.busy = None
            for d in displays:
                judge(case, d, acct, "at the end", elapsed=False)
        else:
            final()
            for d in displays:
                if d.name == "html":
                    during(case, d, acct)
        for d in displays:
            case.count("displays")
            case.count(d.name)
            case.count("renderings", d.renderings())
        case.key(hash(tuple(sorted(map(repr, acct.expected().items())))), tuple(d.renderings() for d in displays))
        if case.index < 16:
            case.sample({"displays": names, "counts": [repr(x)[:150] for x in list(acct.expected())[:12]], "renderings": [d.renderings() for d in displays]})
    finally:
        detsched.VIRTUAL_CLOCK = False
        threading.excepthook = old_hook
        for d in reversed(entered):
            d.__exit__()
