"""C12: stores return what was written and report modified times faithfully."""
import collections
import dataclasses
import datetime as dt
import decimal
import enum
import fractions
import math
import os
import pathlib
import shutil
import tempfile
import threading
import time
import uuid

from uberjob.stores import BinaryFileStore, JsonFileStore, MountedStore, PathSource, PickleFileStore, TextFileStore, TouchFileStore, get_modified_time

from rv import faults
from rv.core import exc_info

SHIM = True
DET_WORKERS = 0
CASES = {"quick": 30000, "thorough": 600000}
MIN = {"round_trips": 30000, "modified_times_compared": 25000, "absent_checked": 8000, "concurrent_round_trips": 1000, "distinct": 4000}
RULE = ("sequences of writes, reads, deletions, failed and killed writes on every bundled store, directly and through MountedStores, over "
        "generated values of each domain (JSON, picklable, text per encoding, bytes, None), path forms and local time zones, alone and "
        "concurrently with neighbours; values compared deeply including types, modified times as instants against the file system; "
        "distinct by store, encoding and value shape")


class Colour(enum.Enum):
    RED = 1
    BLUE = "b"


class Flag(enum.IntFlag):
    A = 1
    B = 2


@dataclasses.dataclass(frozen=True)
class Point:
    x: object
    y: object = None


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return type(o) is Slots and deep(self.a, o.a) and hasattr(self, "b") == hasattr(o, "b")

    __hash__ = None


class Plain:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __eq__(self, o):
        return type(o) is type(self) and deep(self.__dict__, o.__dict__)

    __hash__ = None


class SubDict(dict):
    pass


class SubList(list):
    pass


Named = collections.namedtuple("Named", "a b")


def deep(a, b, seen=None):
    """Equal, with equal types all the way down."""
    if type(a) is not type(b):
        return False
    seen = seen or set()
    if (id(a), id(b)) in seen:
        return True
    if isinstance(a, (list, tuple, collections.deque)):
        seen = seen | {(id(a), id(b))}
        return len(a) == len(b) and all(deep(x, y, seen) for x, y in zip(a, b))
    if isinstance(a, dict):
        seen = seen | {(id(a), id(b))}
        if len(a) != len(b):
            return False
        kb = {k: k for k in b}
        return all(k in b and type(kb[k]) is type(k) and deep(v, b[k], seen) for k, v in a.items())
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, Point):
        return deep(a.x, b.x, seen) and deep(a.y, b.y, seen)
    if isinstance(a, BaseException):
        return deep(a.args, b.args, seen)
    return a == b


CHARS = ["a", "B", "0", " ", "\t", "\n", "\r", "\r\n", "\n\r", "\x00", "\x0b", "\x0c", "\x1a", "\x1c", "\x1e", "\x7f", "\x85", "\xa0", "é", "ß",
         "\u2028", "\u2029", "\ufeff", "€", "漢", "\U0001d11e", "\\", "\"", "'", "\\n", "e\u0301", "\uffff", "\U0010ffff", "%", "{", "</x>"]
ENCODINGS = [None, None, "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "latin-1", "ascii", "cp1252", "cp037",
             "cp500", "cp437", "shift_jis", "gb18030", "big5", "koi8-r", "euc-kr", "UTF8", "mac-roman"]


def encodable(s, enc):
    try:
        return s.encode(enc or "utf-8").decode(enc or "utf-8") == s
    except (UnicodeError, LookupError):
        return False


def text(rng, enc=None, alphabet=CHARS):
    n = rng.choice([0, 0, 1, 1, 2, 3, 8, 30, 300, 5000])
    k = rng.random()
    if k < 0.15:
        s = rng.choice(alphabet) * n
    elif k < 0.3 and n:
        # line ends across buffer boundaries
        s = "x" * rng.choice([8190, 8191, 8192, 4095, 127, 128, 16383]) + rng.choice(["\r\n", "\r", "\n", "é", "\U0001d11e"]) * rng.choice([1, 2]) + "y" * rng.choice([0, 1])
    else:
        s = "".join(rng.choice(alphabet) for _ in range(n))
    if not encodable(s, enc):
        s = "".join(c for c in s if encodable(c, enc) and encodable("a" + c, enc))
        if not encodable(s, enc):
            s = "plain"
    return s


def jstr(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice(["\ud800", "a\udfff", "\udc80x", "\u0000", "NaN", "null", "1", ""])
    return text(rng)[:rng.choice([3, 40, 9000])]


def jval(rng, d=0):
    k = rng.random()
    if d > 4 or k < 0.5:
        return rng.choice([
            lambda: None, lambda: True, lambda: False, lambda: 0, lambda: -1, lambda: rng.randrange(-2 ** 70, 2 ** 70), lambda: 10 ** 400, lambda: 2 ** 53 + 1,
            lambda: 0.0, lambda: -0.0, lambda: 1.0, lambda: 1e308, lambda: 5e-324, lambda: rng.random() * 10 ** rng.randrange(-300, 300), lambda: 0.1, lambda: 1e22,
            lambda: jstr(rng), lambda: jstr(rng), lambda: "", lambda: [], lambda: {}])()
    if k < 0.75:
        return [jval(rng, d + 1) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
    if k < 0.97:
        return {jstr(rng)[:20]: jval(rng, d + 1) for _ in range(rng.choice([0, 1, 2, 3, 6]))}
    v = jval(rng, 5)
    for _ in range(rng.choice([50, 150])):
        v = [v] if rng.random() < 0.5 else {"k": v}
    return v


def pval(rng, d=0):
    k = rng.random()
    if d > 3 or k < 0.55:
        return rng.choice([
            lambda: jval(rng, 4), lambda: b"", lambda: rng.randbytes(rng.choice([1, 300, 70000])), lambda: bytearray(b"x\ny"), lambda: 1 + 2j, lambda: Ellipsis,
            lambda: NotImplemented, lambda: Colour.RED, lambda: Flag.A | Flag.B, lambda: dt.datetime(2020, 1, 1, 2, 3, fold=1), lambda: dt.timedelta(1, 2, 3),
            lambda: dt.datetime(2020, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=3))), lambda: decimal.Decimal("1.10"), lambda: fractions.Fraction(1, 3),
            lambda: len, lambda: int, lambda: Colour, lambda: Named, lambda: os.path.join, lambda: uuid.UUID(int=5), lambda: range(3, 9, 2), lambda: slice(1, 2),
            lambda: pathlib.PurePosixPath("a/b"), lambda: float("inf"), lambda: frozenset({1, "a"}), lambda: {1, (2, 3)}, lambda: ValueError("x", 3), lambda: -0.0,
            lambda: "\ud800 lone", lambda: 10 ** 4000, lambda: "x" * 100000, lambda: threading.Thread, lambda: max, lambda: [].append.__class__ and str.upper])()
    sub = lambda: pval(rng, d + 1)
    n = rng.choice([0, 1, 2, 3])
    kind = rng.choice(["list", "tuple", "dict", "point", "slots", "plain", "named", "deque", "subdict", "sublist", "od", "dd", "shared", "cyclic", "big"])
    if kind == "list":
        return [sub() for _ in range(n)]
    if kind == "tuple":
        return tuple(sub() for _ in range(n))
    if kind == "dict":
        return {rng.choice([1, "a", None, (1, 2), b"k", 2.5, Colour.BLUE, frozenset()]): sub() for _ in range(n)}
    if kind == "point":
        return Point(sub(), sub())
    if kind == "slots":
        return Slots(sub())
    if kind == "plain":
        return Plain(a=sub(), b=sub())
    if kind == "named":
        return Named(sub(), sub())
    if kind == "deque":
        return collections.deque([sub()], maxlen=5)
    if kind == "subdict":
        return SubDict(a=sub())
    if kind == "sublist":
        return SubList([sub()])
    if kind == "od":
        return collections.OrderedDict(a=sub(), b=2)
    if kind == "dd":
        return collections.defaultdict(list, {"a": sub()})
    if kind == "shared":
        x = [sub()]
        return [x, x, {"x": x}]
    if kind == "cyclic":
        x = [sub()]
        x.append(x)
        return x
    return list(range(20000))


class Mounted(MountedStore):
    """Keeps its value in memory or in a remote directory."""

    def __init__(self, remote, make, memory):
        super().__init__(make)
        self.remote = str(remote)
        self.memory = memory
        self.cell = None

    def copy_to_local(self, local_path):
        if self.memory:
            if self.cell is None:
                raise FileNotFoundError(self.remote)
            with open(local_path, "wb") as f:
                f.write(self.cell[0])
        else:
            shutil.copyfile(self.remote, local_path)

    def copy_from_local(self, local_path):
        if self.memory:
            with open(local_path, "rb") as f:
                self.cell = (f.read(), dt.datetime.now(dt.timezone.utc))
        else:
            shutil.copy(local_path, self.remote + ".up")
            os.replace(self.remote + ".up", self.remote)

    def get_modified_time(self):
        if self.memory:
            return self.cell and self.cell[1]
        return get_modified_time(self.remote)

    def delete(self):
        if self.memory:
            self.cell = None
        else:
            os.unlink(self.remote)


def make_kind(rng):
    kind = rng.choice(["json", "json", "pickle", "pickle", "text", "text", "text", "binary", "touch"])
    enc = rng.choice(ENCODINGS)
    if kind == "json":
        return f"json {enc}", (lambda p: JsonFileStore(p, encoding=enc)), lambda: jval(rng), lambda: rng.choice([object(), {"a": [1, {2}]}, [b"x"]])
    if kind == "pickle":
        return "pickle", PickleFileStore, lambda: pval(rng), lambda: [b"x" * 9000, lambda: 1]
    if kind == "text":
        return f"text {enc}", (lambda p: TextFileStore(p, encoding=enc)), lambda: text(rng, enc), lambda: rng.choice([5, None, b"x"])
    if kind == "binary":
        return "binary", BinaryFileStore, lambda: rng.choice([b"", b"\r\n", b"\n", b"\x1a\x00", b"\xef\xbb\xbfx", rng.randbytes(rng.choice([1, 100, 8192, 8193, 100000]))]), lambda: rng.choice(["x", None, 5])
    return "touch", TouchFileStore, lambda: None, lambda: rng.choice([0, "", False, b""])


def posix_zone(rng):
    """A local time zone; sometimes one whose clock was just, or is about to be, put back or forward."""
    k = rng.random()
    if k < 0.5:
        return None
    if k < 0.8:
        return rng.choice(["UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "XXX12", "IST-5:30", "AAA-3:17:30"])
    now = time.time() + rng.choice([-1800, -60, -5, 60, 1800, 3000])
    t = time.gmtime(now)
    # standard time is UTC; the rule's time of day is in the local time before the change
    sec = t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec
    day = t.tm_yday - 1
    hms = lambda s: f"{s // 3600}:{s % 3600 // 60:02}:{s % 60:02}"
    other = (day + 180) % 365
    if rng.random() < 0.7:  # summer time (UTC+1) ends
        return f"STD0DST-1,{other}/2,{day}/{hms(sec + 3600)}"
    return f"STD0DST-1,{day}/{hms(sec)},{other}/2"


NAMES = ["v", "v.json", "with space", "ünï", ".hidden", "a.b.c", "new\nline", "x.STAGING", "%s{0}", "-dash", "n" * 200]


class One:
    """One store with its history and expected state."""

    def __init__(self, case, rng, dir, name):
        self.case, self.rng = case, rng
        self.label, make, self.good, self.bad = make_kind(rng)
        how = rng.choice(["str", "Path", "mounted", "mounted-memory"]) if rng.random() < 0.6 else "str"
        self.path = os.path.join(dir, name)
        self.mounted = how.startswith("mounted")
        if self.mounted:
            if rng.random() < 0.2:
                inner = make
                make = lambda p: Mounted(p + "inner", inner, False) if False else inner(pathlib.Path(p))
            self.store = Mounted(self.path, make, how == "mounted-memory")
        else:
            self.store = make(pathlib.Path(self.path) if how == "Path" else self.path)
        self.label += " " + how
        self.file = how != "mounted-memory"
        self.present = False
        self.value = None
        self.last = None

    def bad_(self, what, **k):
        self.case.violate(what, store=self.label, name=os.path.basename(self.path), **k)

    def check(self, when):
        case = self.case
        try:
            t = self.store.get_modified_time()
        except Exception as e:
            return self.bad_(f"time: get_modified_time raised {when}: {exc_info(e)}")
        if not self.present:
            case.count("absent_checked")
            if t is not None:
                self.bad_(f"time: a modified time is reported although nothing is stored {when}", time=str(t))
            return
        if t is None:
            return self.bad_(f"time: no modified time is reported although something is stored {when}")
        if not isinstance(t, dt.datetime):
            return self.bad_(f"time: the modified time is not a datetime {when}", time=repr(t))
        instant = t.astimezone(dt.timezone.utc).timestamp()
        case.count("modified_times_compared")
        if self.file:
            real = os.stat(self.path).st_mtime
            if abs(instant - real) > 0.001:
                self.bad_(f"time: the reported modified time does not denote the file's {when}", reported=instant, file=real, text=str(t), zone=os.environ.get("TZ"))
        if self.last is not None and instant < self.last:
            self.bad_(f"time: the modified time decreased {when}", before=self.last, after=instant)
        self.last = instant

    def read(self, when):
        case = self.case
        try:
            got = self.store.read()
        except Exception as e:
            return self.bad_(f"read: reading what was written failed {when}: {exc_info(e)}", value=repr(self.value)[:200])
        case.count("round_trips")
        if not deep(self.value, got):
            self.bad_(f"value: read returned something else than was written {when}", wrote=repr(self.value)[:300], read=repr(got)[:300])

    def write(self):
        v = self.good()
        self.value = v
        try:
            self.store.write(v)
        except Exception as e:
            self.bad_(f"write: writing a value of the store's domain failed: {exc_info(e)}", value=repr(v)[:200])
            return False
        self.present = True
        self.case.key(self.label, shape(v))
        return True


def shape(v, d=0):
    if isinstance(v, (list, tuple)) and d < 3:
        return f"{type(v).__name__}({','.join(shape(x, d + 1) for x in v[:4])})"
    if isinstance(v, dict) and d < 3:
        return f"{type(v).__name__}({','.join(shape(x, d + 1) for x in list(v.values())[:4])})"
    if isinstance(v, (str, bytes)):
        return f"{type(v).__name__}{min(len(v), 6)}{'r' if ('\r' if isinstance(v, str) else b'\r') in v else ''}"
    return type(v).__name__


def run_case(case):
    rng = case.rng
    root = tempfile.mkdtemp(dir=case.scratch)
    tmp = os.path.join(root, "t")
    os.mkdir(tmp)
    d = os.path.join(root, "d")
    os.mkdir(d)
    old_tmp, old_tz = tempfile.tempdir, os.environ.get("TZ")
    tempfile.tempdir = tmp
    zone = posix_zone(rng)
    if zone:
        os.environ["TZ"] = zone
        time.tzset()
    case.note(zone=zone)
    try:
        k = rng.random()
        if k < 0.08:
            concurrent(case, rng, d)
        elif k < 0.16:
            unreachable(case, rng, d)
        else:
            history(case, rng, d, root)
        if os.listdir(tmp):
            case.count("temporary_leftovers")
    finally:
        tempfile.tempdir = old_tmp
        if zone:
            if old_tz is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = old_tz
            time.tzset()
        shutil.rmtree(root)


def unreachable(case, rng, d):
    """Paths where nothing is, or can be, stored; a store is asked for its modified time all the same."""
    how = rng.choice(["no directory", "below a file", "dangling link", "link to itself", "name too long", "directory removed", "below a link to a file"])
    block = os.path.join(d, "block")
    name = "v.json"
    if how == "no directory":
        parent = os.path.join(block, "x")
    elif how == "name too long":
        parent, name = d, "n" * 300
    elif how in ("dangling link", "link to itself"):
        parent = d
        os.symlink(os.path.join(d, "missing" if how == "dangling link" else name), os.path.join(d, name))
    elif how == "directory removed":
        parent = block
        os.mkdir(block)
    else:
        parent = block
        if how == "below a file":
            open(block, "wb").close()
        else:
            open(block + ".file", "wb").close()
            os.symlink(block + ".file", block)
    o = One(case, rng, parent, name)
    if o.mounted and not o.file:
        return
    case.note(store=o.label, unreachable=how)
    if how == "directory removed":
        if not o.write():
            return
        o.check("after a write")
        shutil.rmtree(block)
        o.present, o.last = False, None
    o.check(f"although the path cannot be reached ({how})")
    for required in (False, True):
        source = PathSource(rng.choice([str, pathlib.Path])(o.path), required=required)
        try:
            t = source.get_modified_time()
        except OSError:
            t = None
            if not required:
                case.violate("time: PathSource(required=False).get_modified_time raised although nothing is there", how=how)
        if t is not None:
            case.violate("time: a PathSource reports a modified time although nothing is there", how=how, time=str(t))
    if case.violations:
        return
    # once the obstacle is gone the store works
    if how == "name too long":
        return
    for x in (block, block + ".file", o.path):
        if os.path.islink(x) or os.path.isfile(x):
            os.unlink(x)
    os.makedirs(parent, exist_ok=True)
    if o.write():
        o.check("after a write")
        o.read("after a write")
    case.key("unreachable", how, o.label)


def history(case, rng, d, root):
    o = One(case, rng, d, rng.choice(NAMES))
    ops = []
    case.note(store=o.label, ops=ops)
    o.check("before anything was written")
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        op = rng.choice(["write", "write", "write", "write", "fail", "delete", "time", "kill", "reads"])
        ops.append(op)
        if op == "write":
            if not o.write():
                return
            o.read("after a write")
        elif op == "fail":
            try:
                o.store.write(o.bad())
            except Exception:
                pass
            else:
                o.bad_("write: a value outside the store's domain was accepted without an error")
                return
        elif op == "delete":
            if o.present:
                o.store.delete() if o.mounted else os.unlink(o.path)
                o.present = False
                o.last = None
        elif op == "time":
            if o.present and o.file:
                t = rng.choice([0, 1, -1_500_000_000, 10 ** 9 + 123_456_789, 1_700_000_000 * 10 ** 9 + 1000, 1_603_587_600 * 10 ** 9, 1_604_214_000 * 10 ** 9])
                os.utime(o.path, ns=(t, t))
                o.last = None
        elif op == "kill":
            if not o.mounted:
                v = o.good()

                def go():
                    faults.arm(root, faults.KILL_BEFORE, rng.randrange(1, 4))
                    o.store.write(v)

                out, _ = faults.in_child(go)
                case.count("killed", out == "killed")
                if out != "killed":
                    o.value, o.present = v, True
        else:
            for _ in range(2):
                if o.present:
                    o.read("again")
        o.check(f"after {op}")
        if op in ("fail", "kill", "time") and o.present:
            o.read(f"after {op}")
        if case.violations:
            return
    case.sample({"store": o.label, "ops": ops, "zone": case.notes.get("zone"), "last": repr(o.value)[:80]})


def concurrent(case, rng, d):
    """Neighbouring stores used from several threads at once."""
    k = rng.choice([2, 3, 4])
    stem = rng.choice(["v", "a.b"])
    names = rng.sample([stem, stem + ".json", stem + ".txt", stem + ".bin", stem + "0", "." + stem], k)
    os_ = [One(case, rng, d, n) for n in names]
    vals = [[o.good() for _ in range(rng.choice([2, 4, 6]))] for o in os_]
    case.note(stores=[o.label for o in os_], names=names)
    bad = []
    start = threading.Barrier(k)

    def one(o, vs):
        start.wait()
        for v in vs:
            try:
                o.store.write(v)
                got = o.store.read()
                t = o.store.get_modified_time()
            except BaseException as e:
                bad.append((o.label, exc_info(e)))
                return
            if not deep(v, got) or t is None:
                bad.append((o.label, f"wrote {v!r:.100} read {got!r:.100} time {t}"))

    ts = [threading.Thread(target=one, args=a) for a in zip(os_, vals)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    case.count("concurrent_round_trips", sum(map(len, vals)))
    case.key("concurrent", *[o.label for o in os_])
    for label, text_ in bad:
        case.violate(f"concurrent: use of a neighbouring store at the same time disturbed a store: {text_}", store=label)
