"""C11: file-backed stores replace their file atomically at every failure point."""
import json
import os
import pathlib
import pickle
import shutil
import tempfile

from uberjob.stores import (BinaryFileStore, FileStore, JsonFileStore, MountedStore, PickleFileStore, TextFileStore, TouchFileStore,
                            get_modified_time, staged_write, staged_write_path)

from rv import excs, faults
from rv.core import exc_info

SHIM = True
DET_WORKERS = 0
CASES = {"quick": 2600, "thorough": 60000}
MIN = {"trials": 20000, "killed": 8000, "failed_by_exception": 8000, "staging_files_left_by_a_kill": 800, "serialisation_errors": 400,
       "interleaved_writes": 100, "distinct": 600}
RULE = ("every file operation (open, write, close, rename, unlink, truncate, sync, chmod, link) of generated writes of every file-backed "
        "store, also ones using the public staging helpers and a MountedStore, is made to fail, fail after its effect, fail from there "
        "on, be cut short, or to be the last before death (before, in the middle of and after it), with and without a previous value, a "
        "stale staging file and values that cannot be serialised; afterwards bytes, modified time, directory and a following write are "
        "compared with the previous and the new value; distinct by store, sequence of operations, fault and outcome")

OLD_TIME = 1_500_000_000_123_456_789


class Bomb:
    """Pickles to nothing: raises when it is serialised."""

    def __init__(self, make):
        self.make = make

    def __reduce__(self):
        raise self.make()


class Hook:
    """Does something in the middle of being pickled."""

    def __init__(self, fn):
        self.fn = fn

    def __reduce__(self):
        self.fn()
        return (str, ("hook",))


class JHook(dict):
    def __init__(self, fn):
        super().__init__(hook=1)
        self.fn = fn

    def items(self):
        self.fn()
        return super().items()


class Lines(FileStore):
    """A user's store built on staged_write."""

    def read(self):
        with open(self.path, encoding="utf-8", newline="") as f:
            return f.read().split("\n")

    def write(self, value):
        with staged_write(self.path, "w", encoding="utf-8", newline="") as f:
            for i, v in enumerate(value):
                if isinstance(v, Hook):
                    v.fn()
                    v = "hook"
                if isinstance(v, Bomb):
                    f.flush()
                    raise v.make()
                f.write(("\n" if i else "") + v)


class Copied(FileStore):
    """A user's store built on staged_write_path."""

    def read(self):
        with open(self.path, "rb") as f:
            return f.read()

    def write(self, value):
        with staged_write_path(self.path) as p:
            if value is None:
                if os.path.exists(p):
                    os.unlink(p)
                return  # leaves no file behind: the rename fails
            with open(p, "wb", buffering=0) as f:
                for i in range(0, len(value), 997):
                    b = value[i:i + 997]
                    while b:
                        b = b[f.write(b):]
                if value.startswith(b"bad"):
                    raise excs.Plain("bad")


class Mounted(MountedStore):
    def __init__(self, remote, make):
        super().__init__(make)
        self.remote = str(remote)
        self.path = self.remote

    def copy_to_local(self, local_path):
        shutil.copyfile(self.remote, local_path)

    def copy_from_local(self, local_path):
        try:
            shutil.copyfile(local_path, self.remote + ".upload")
            os.replace(self.remote + ".upload", self.remote)
        except BaseException:
            if os.path.exists(self.remote + ".upload"):
                os.unlink(self.remote + ".upload")
            raise

    def get_modified_time(self):
        return get_modified_time(self.remote)


def text(rng, n):
    return "".join(rng.choice("ab\n\r\té€𝄞x ") for _ in range(n))


def size(rng):
    return rng.choice([0, 1, 1, 30, 300, 9000, 9000, 20000, 40000])


def jval(rng, n):
    return {"n": n, "l": list(range(n // 12)), "s": text(rng, min(n, 200)), "x": [None, True, 1.5, {"y": []}]}


def bomb(rng):
    return Bomb(rng.choice([lambda: excs.Plain("bomb"), lambda: ValueError("bomb"), lambda: KeyboardInterrupt(), lambda: SystemExit(1), lambda: excs.Base("b"),
                            lambda: GeneratorExit(), lambda: OSError(28, "bomb")]))


def kinds(rng):
    """name, make(path), good value(rng), bad value(rng) or None, a value that calls fn when serialised or None"""
    enc = rng.choice([None, "utf-8", "utf-16", "latin-1"])
    return {
        "json": (lambda p: JsonFileStore(p, encoding=enc if enc != "latin-1" else None), lambda: jval(rng, size(rng)),
                 lambda: rng.choice([{"a": list(range(size(rng) // 8)), "z": object()}, object(), {"a": {1, 2}}, [1, {(1, 2): 3}]]),
                 lambda fn: {"a": list(range(size(rng) // 8)), "h": JHook(fn)}),
        "pickle": (PickleFileStore, lambda: (b"x" * size(rng), jval(rng, 30), text(rng, size(rng))),
                   lambda: [b"y" * rng.choice([10, 70000]), text(rng, size(rng)), rng.choice([bomb(rng), lambda: 1])],
                   lambda fn: [b"y" * rng.choice([10, 70000, 200000]), Hook(fn), 1]),
        "text": (lambda p: TextFileStore(p, encoding="ascii" if enc == "latin-1" else enc),
                 lambda: "a\r\nb" * (size(rng) // 4) if enc == "latin-1" else text(rng, size(rng)),
                 lambda: rng.choice(["x" * size(rng) + ("é" if enc == "latin-1" else "\ud800"), 7, b"bytes", None]), None),
        "binary": (BinaryFileStore, lambda: rng.randbytes(size(rng)), lambda: rng.choice(["str", None, 5, [1]]), None),
        "touch": (TouchFileStore, lambda: None, lambda: rng.choice([0, "", b"", False, "x"]), None),
        "staged_write": (Lines, lambda: [text(rng, 50).replace("\n", "") for _ in range(size(rng) // 50)] or [""],
                         lambda: ["x" * size(rng), rng.choice([bomb(rng), 5])], lambda fn: ["x" * size(rng), Hook(fn), "y"]),
        "staged_write_path": (Copied, lambda: rng.randbytes(size(rng)) or b"1", lambda: rng.choice([None, b"bad" + rng.randbytes(size(rng))]), None),
        "mounted-json": (lambda p: Mounted(p, JsonFileStore), lambda: jval(rng, size(rng)), lambda: [1] * (size(rng) // 8) + [object()], None),
        "mounted-pickle": (lambda p: Mounted(p, PickleFileStore), lambda: rng.randbytes(size(rng)), lambda: [b"y" * 70000, bomb(rng)], None),
    }


NAMES = ["value", "value.json", "with space.txt", "ünïcode-é", ".hidden", "a.b.c", "new\nline", "x.STAGING", "very" + "long" * 40, "percent%s{0}"]


class World:
    """One store, its previous and its new value, and a way to reset the directory."""

    def __init__(self, case, rng):
        self.case, self.rng = case, rng
        self.root = tempfile.mkdtemp(dir=case.scratch)
        self.dir = os.path.join(self.root, rng.choice(["d", "d", "dïr with space"]))
        self.tmp = os.path.join(self.root, "tmp")
        os.mkdir(self.dir)
        os.mkdir(self.tmp)
        self.kind = rng.choice(list(kinds(rng)))
        make, good, bad, _ = kinds(rng)[self.kind]
        name = rng.choice(NAMES)
        self.path = os.path.join(self.dir, name)
        how = rng.choice(["str", "str", "Path", "relative", "relative Path"])
        p = self.path if how in ("str", "Path") else name
        if "Path" in how:
            p = pathlib.Path(p)
        self.relative = how.startswith("relative")
        self.store = make(p)
        self.make = make
        self.old = good()
        self.third = good()
        self.fails = rng.random() < 0.3
        self.new = bad() if self.fails else good()
        self.have_old = rng.random() < 0.75
        self.stale = None
        self.tag = f"{self.kind} {how} {'replace' if self.have_old else 'create'}{' bad' if self.fails else ''}"

    def __enter__(self):
        self.cwd = os.getcwd()
        self.oldtmp = tempfile.tempdir
        tempfile.tempdir = self.tmp
        os.chdir(self.dir)
        self.reset()
        return self

    def __exit__(self, *a):
        faults.disarm()
        os.chdir(self.cwd)
        tempfile.tempdir = self.oldtmp
        shutil.rmtree(self.root)

    def clear(self):
        for d in (self.dir, self.tmp):
            for f in os.listdir(d):
                q = os.path.join(d, f)
                shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)

    def reset(self):
        """The previous value and possibly what a killed writer left behind."""
        self.clear()
        self.old_bytes = None
        if self.have_old:
            self.store.write(self.old)
            os.utime(self.path, ns=(OLD_TIME, OLD_TIME))
            with open(self.path, "rb") as f:
                self.old_bytes = f.read()
        if self.stale:
            for f, b in self.stale.items():
                with open(os.path.join(self.dir, f), "wb") as g:
                    g.write(b)
        self.files = self.listing()

    def listing(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                q = os.path.join(d, f)
                if q != self.path:
                    with open(q, "rb") as g:
                        out[os.path.relpath(q, self.root)] = g.read()
        return out

    def leftovers(self):
        """What this write left behind besides the target."""
        now = self.listing()
        return sorted(f for f in now if now[f] != self.files.get(f))

    def target(self):
        try:
            with open(self.path, "rb") as f:
                b = f.read()
            return b, os.stat(self.path).st_mtime_ns
        except FileNotFoundError:
            return None, None


def same(a, b):
    return type(a) is type(b) and a == b


def judge(w, what, new_bytes, outcome):
    """The state of the target after a write that ended in some way."""
    case = w.case
    b, t = w.target()
    if b == w.old_bytes and (b is None or t == OLD_TIME):
        state = "old"
    elif b is None:
        case.violate(f"lost: the previous value is gone after {what}", store=w.tag)
        return "lost"
    else:
        complete = new_bytes is not None and b == new_bytes
        if not complete and not w.fails:
            try:
                complete = same(w.store.read(), w.new)
            except Exception:
                complete = False
        if complete:
            state = "new"
        elif b == w.old_bytes:
            case.violate(f"time: the modified time changed although the previous value is still in place after {what}", store=w.tag, time=t)
            return "time"
        else:
            case.violate(f"torn: the target holds neither the previous nor the new value after {what}", store=w.tag, length=len(b),
                         old=None if w.old_bytes is None else len(w.old_bytes), new=None if new_bytes is None else len(new_bytes))
            return "torn"
    if outcome == "ok" and state != "new":
        case.violate(f"silent: write returned normally without the new value in place after {what}", store=w.tag)
    return state


def later(w, what):
    """A later write and read are not disturbed."""
    case = w.case
    try:
        if w.have_old:
            w.store.read()
        w.store.get_modified_time()
        w.store.write(w.third)
        got = w.store.read()
    except BaseException as e:
        case.violate(f"disturbed: a later write or read failed after {what}: {exc_info(e)}", store=w.tag)
        return
    if not same(got, w.third):
        case.violate(f"disturbed: a later write did not store its value after {what}", store=w.tag)


def attempt(w, mode, k, err):
    """One write with one fault; returns (outcome, operations, operation that was hit)."""
    kill = mode in (faults.KILL_BEFORE, faults.KILL_AFTER, faults.KILL_PARTIAL)

    def go():
        faults.arm(w.root, mode, k, err)
        try:
            w.store.write(w.new)
        finally:
            w.ops = faults.disarm()
        return w.ops

    if kill:
        out, r = faults.in_child(go)
        return out, r if out == "ok" else "", None
    try:
        go()
        out = "ok"
    except BaseException as e:
        out = "exc"
        w.exc = e
    return out, w.ops, faults.fired()


def run_case(case):
    rng = case.rng
    if rng.random() < 0.12:
        return interleaved(case, rng)
    with World(case, rng) as w:
        one_world(case, rng, w)


def one_world(case, rng, w):
    if rng.random() < 0.35:
        # what a killed writer leaves behind is found by killing one
        w.reset()
        v = w.new
        w.new = w.old if not w.fails else w.third
        _, ops, _ = attempt(w, faults.COUNT, 0, 0)
        w.reset()
        attempt(w, faults.KILL_BEFORE, rng.randrange(2, max(3, len(ops) + 1)), 0)
        left = {f: b for f, b in w.listing().items()}
        w.stale = {os.path.basename(f): b + rng.choice([b"", b"junk" * 5000]) for f, b in left.items() if os.path.dirname(f) == os.path.basename(w.dir)}
        w.new = v
        w.tag += " stale" if w.stale else ""
    w.reset()
    out, ops, _ = attempt(w, faults.COUNT, 0, 0)
    what0 = "a write that failed on its own" if w.fails else "a successful write"
    new_bytes = None
    if w.fails:
        case.count("serialisation_errors")
        if out == "ok":
            case.violate("silent: an unserialisable value was written without an error", store=w.tag, value=repr(w.new)[:80])
            return
        if w.leftovers():
            case.violate(f"staging: a write that failed by exception left a file behind: {w.leftovers()}", store=w.tag, error=exc_info(w.exc))
        judge(w, what0, None, out)
    else:
        if out != "ok":
            case.violate(f"a write without a fault failed: {exc_info(w.exc)}", store=w.tag)
            return
        new_bytes = w.target()[0]
        judge(w, what0, new_bytes, out)
        left = w.leftovers()
        if left:
            case.violate(f"staging: a successful write left a file behind: {left}", store=w.tag)
    later(w, what0)
    case.note(store=w.tag, ops=ops, stale=sorted(w.stale or ()), name=os.path.basename(w.path))
    case.sample({"store": w.tag, "operations": ops, "stale_staging": sorted(w.stale or ())})
    ks = list(range(1, len(ops) + 1))
    if len(ks) > 14:
        ks = ks[:4] + sorted(rng.sample(ks[4:-5], 5)) + ks[-5:]
    if case.tier == "quick":
        modes = None
    for k in ks:
        op = ops[k - 1]
        modes = [faults.ERR, faults.KILL_BEFORE, faults.KILL_AFTER, faults.ERR_FROM, faults.ERR_AFTER]
        if op == "w":
            modes += [faults.KILL_PARTIAL, faults.SHORT, faults.ERR_PARTIAL]
        if case.tier == "quick":
            modes = rng.sample(modes, 5) if len(modes) > 5 else modes
        for mode in modes:
            err = rng.choice(faults.ERRNOS)
            w.reset()
            out, seen, hit = attempt(w, mode, k, err)
            what = f"{faults.NAMES[mode]} at operation {k} ({op}) of {ops}"
            case.count("trials")
            if out == "killed":
                case.count("killed")
                case.count("staging_files_left_by_a_kill", bool(w.leftovers()))
            elif out == "exc":
                case.count("failed_by_exception")
                # a removal that was itself made to fail cannot have removed anything
                clean = mode != faults.ERR_FROM and hit != "u"
                if clean and w.leftovers():
                    case.violate(f"staging: a write that failed by exception left a file behind after {what}: {w.leftovers()}", store=w.tag, error=exc_info(w.exc))
            elif out not in ("ok",):
                case.count("child_exceptions")
            state = judge(w, what, new_bytes, out)
            if mode == faults.SHORT and out != "ok" and not w.fails:
                case.violate(f"short: a short write made the write fail: {exc_info(w.exc)}", store=w.tag)
            case.count(f"after_{state}")
            case.key(w.kind, w.have_old, w.fails, bool(w.stale), op, mode, out, state, len(ops))
            if rng.random() < 0.5 or out == "killed":
                later(w, what)
            if case.violations:
                return


def interleaved(case, rng):
    """A write that happens in the middle of another write, to a store with a similar name."""
    root = tempfile.mkdtemp(dir=case.scratch)
    try:
        stem = rng.choice(["value", "a.b", "x"])
        names = rng.sample([stem, stem + ".json", stem + ".txt", stem + ".pickle", "other", stem + "1"], 2)
        ks = kinds(rng)
        outer_kind = rng.choice([k for k in ks if ks[k][3] is not None])
        inner_kind = rng.choice([k for k in ks if not k.startswith("mounted")])
        outer = ks[outer_kind][0](os.path.join(root, names[0]))
        inner = ks[inner_kind][0](os.path.join(root, names[1]))
        v_in = ks[inner_kind][1]()
        hits = []
        fail_inner = rng.random() < 0.3
        if rng.random() < 0.5:
            inner.write(ks[inner_kind][1]())
        before = inner.read() if os.path.exists(inner.path) else None
        existed = os.path.exists(inner.path)

        def fn():
            hits.append(1)
            if fail_inner:
                try:
                    inner.write(ks[inner_kind][2]())
                except BaseException:
                    pass
            else:
                inner.write(v_in)

        v = ks[outer_kind][3](fn)
        case.note(outer=outer_kind, inner=inner_kind, names=names, fail_inner=fail_inner)
        outer.write(v)
        if not hits:
            return
        case.count("interleaved_writes")
        case.key("interleaved", outer_kind, inner_kind, *names, fail_inner)
        want = {"json": lambda: json.loads(json.dumps(v)), "pickle": lambda: [v[0], "hook", 1], "staged_write": lambda: [v[0], "hook", "y"]}[outer_kind]()
        got = outer.read()
        if got != want:
            case.violate("mixed: a write to another store in the meantime changed what was stored", got=repr(got)[:200], want=repr(want)[:200])
        if fail_inner:
            if existed and inner.read() != before or os.path.exists(inner.path) != existed:
                case.violate("mixed: a failed write changed its store", names=names)
        elif not same(inner.read(), v_in):
            case.violate("mixed: the write in the meantime did not store its value", names=names)
        left = set(os.listdir(root)) - {n for n in names}
        if left:
            case.violate(f"staging: files left behind: {sorted(left)}")
    finally:
        shutil.rmtree(root)
