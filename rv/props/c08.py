"""C08: a run cut short at any point leaves stores that the next run repairs correctly."""
import os
import shutil
import tempfile
import threading

import uberjob
from uberjob.stores import BinaryFileStore, JsonFileStore, PickleFileStore, TextFileStore

from rv import detsched, excs, faults, hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Cut, Did, after_cut
from rv.plangen import Ref
from rv.props.common import *
from rv.world import World, WorldGen, canon

SHIM = True
DET_WORKERS = 4
CASES = {"quick": 2400, "thorough": 60000}
MIN = {"cuts": 1500, "repaired": 2500, "values_kept": 6000, "killed_processes": 200, "distinct": 2000}
RULE = ("histories of runs, source updates and deletions in which a run is cut at its k-th operation (call, read, write, modified-time "
        "query; before or after its effect; by an exception, KeyboardInterrupt, or everything ceasing at once), and child processes "
        "killed at the k-th file operation on file-backed stores; after the cut every value that is not out of date is compared with its "
        "from-scratch value, the next run's output, contents, executions and writes are checked, and values written before the cut must "
        "not be recomputed; distinct by world, cut and interleaving")


def in_memory(case, rng):
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    spec = WorldGen(rng, pert=pert.plan, max_n=rng.choice([5, 9, 14]), hubs=0.2, deps=rng.choice([0.2, 0.6]), store_style=rng.choice([None, "most", "all"]),
                    dsources=rng.choice([0, 0.08])).build()
    w = World(case, spec, pert, alias=rng.choice([0, 0, 0.3]))
    history = []
    case.note(spec=spec.describe(), stored=sorted(spec.stored), history=history)
    fresh = None
    for _ in range(rng.choice([0, 1, 1, 2])):
        res = execute(case, lambda: w.run(**run_kw(case, rng, **hist.fresh_kw(fresh))), pert=pert)
        if res.exc is not None:
            case.violate(f"a run without a cut failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
            return
        fresh, what = hist.mutate(w, rng)
        history.append(what or "run")
    w.set_output(hist.pick_output(w, rng))
    # how many operations an undisturbed run would have
    snap = w.snapshot()
    n = len(w.log)
    res = execute(case, lambda: w.run(max_workers=1, progress=None, **hist.fresh_kw(fresh)), pert=pert)
    total = hist.count_ops(w.log[n:])
    w.restore(snap)
    if not total:
        return
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(1, total + 1)
        how = rng.choice(["raise", "raise", "raise", "dead", "dead", "interrupt"])
        phase = rng.choice(["before", "after"])
        kw = run_kw(case, rng, max_errors=rng.choice([0, 0, 1, None]), retry=rng.choice([None, None, None, 2]), **hist.fresh_kw(fresh))
        make = excs.maker(rng)
        cut = Cut(case, k, how, phase, make)
        w.set_fault(cut)
        before = w.snapshot()
        n = len(w.log)
        seed_random(rng)
        res = execute(case, lambda: w.run(**kw), pert=pert)
        w.set_fault(None)
        did = Did(w.log[n:])
        note = [how, phase, k, list(cut.fired) if isinstance(cut.fired, tuple) else cut.fired]
        history.append(["cut", *note])
        if cut.fired is None or cut.fired == "pending":
            case.count("cut_not_reached")
        else:
            case.count("cuts")
            case.count("cut_" + how)
            if did.written:
                case.count("cuts_after_a_write")
        case.key(spec.signature(), how, phase, k, trace.interleaving([e for e in w.log[n:] if e[0] in (S, E, F, "WS", "WE", "RS", "RE")]))
        after_cut(case, w, rng, did, before, fresh, note)
        if case.violations:
            return
        fresh, what = hist.mutate(w, rng)
        history.append(what)
        w.set_output(hist.pick_output(w, rng))
    case.sample({"spec": spec.describe(), "history": history})


# ---------------------------------------------------------------- real files, real deaths
MAKE = [JsonFileStore, PickleFileStore, lambda p: TextFileStore(p, encoding="utf-8"), lambda p: BinaryFileStore(p)]
NEXT_NS = [0]


class Wrapped(uberjob.ValueStore):
    """A file-backed store that keeps text, records what is done with it, and gives every new file a
    distinct modified time (the file system's own are too coarse to order quick writes)."""

    def __init__(self, i, path, kind, log):
        self.i, self.path, self.kind, self.log = i, path, kind, log
        self.inner = MAKE[kind](path)

    def read(self):
        self.log("R", self.i)
        v = self.inner.read()
        return v.decode() if self.kind == 3 else v

    def write(self, value):
        self.log("W", self.i)
        self.inner.write(value.encode() if self.kind == 3 else value)
        self.log("D", self.i)

    def get_modified_time(self):
        return self.inner.get_modified_time()


class FileWorld:
    """A world of text values in files; all state is on disk, so that it survives the process."""

    def __init__(self, case, rng, root):
        self.case, self.rng, self.root = case, rng, root
        self.spec = spec = WorldGen(rng, max_n=rng.choice([4, 7, 10]), dsources=0, sources=0.3, store_style=rng.choice(["most", "all", "some"]), stored_lit=0, stored_other=0,
                                    lits=0.1, deps=0.4).build()
        for n in spec.nodes:
            n.form = rng.choice(["fn", "lambda"])
        self.big = {n.id for n in spec.nodes if rng.random() < 0.3}
        self.files = os.path.join(root, "files")
        os.mkdir(self.files)
        self.logpath = os.path.join(root, "log")
        self.paths, self.kinds = {}, {}
        for n in spec.nodes:
            if n.kind == "source" or n.id in spec.stored:
                self.paths[n.id] = os.path.join(self.files, f"n{n.id}")
                self.kinds[n.id] = rng.choice([0, 1, 2, 3])
        self.version = {}
        for n in spec.nodes:
            if n.kind == "source":
                self.update(n.id)

    def update(self, i):
        self.version[i] = self.version.get(i, 0) + 1
        st = Wrapped(i, self.paths[i], self.kinds[i], lambda *a: None)
        self.tick()
        st.write(f"s{i}@{self.version[i]}")
        self.tick()

    def log(self, op, i):
        fd = os.open(self.logpath, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{op}{i}\n".encode())
        os.close(fd)

    def take_log(self):
        try:
            with open(self.logpath) as f:
                return [(x[0], int(x[1:])) for x in f.read().split()]
        except FileNotFoundError:
            return []
        finally:
            if os.path.exists(self.logpath):
                os.unlink(self.logpath)

    def tick(self):
        """Let every existing file look older than what is written from now on."""
        base = 1_400_000_000_000_000_000
        order = sorted((os.stat(p).st_mtime_ns, i) for i, p in self.paths.items() if os.path.exists(p))
        t, prev = base, None
        for ns, i in order:
            if ns != prev:
                t += 1_000_000_000
                prev = ns
            os.utime(self.paths[i], ns=(t, t))

    def text(self, i, args, kwargs):
        from rv.world import call_value
        v = call_value(i, args, kwargs)
        return v + "#" * 30000 if i in self.big else v

    def build(self):
        spec = self.spec
        p, reg, node = uberjob.Plan(), uberjob.Registry(), {}
        sym = lambda st: plangen.to_symbolic(st, node)
        self.stores = {i: Wrapped(i, self.paths[i], self.kinds[i], self.log) for i in self.paths}
        for n in spec.nodes:
            if n.kind == "item":
                continue
            if n.kind == "source":
                node[n.id] = reg.source(p, self.stores[n.id])
            elif n.kind == "lit":
                node[n.id] = p.lit(n.value)
            elif n.kind == "gather":
                node[n.id] = p.gather(sym(n.args[0]))
            elif n.kind == "unpack":
                items = p.unpack(sym(n.args[0]), n.length)
                for it in spec.nodes:
                    if it.kind == "item" and it.parent == n.id:
                        node[it.id] = items[it.index]
            else:
                def f(*a, _n=n, **k):
                    self.log("S", _n.id)
                    if _n.beh[0] == "iter":
                        v = self.text(_n.id, a, k)
                        return [v + f".{j}" for j in range(_n.beh[1])]
                    return self.text(_n.id, a, k)

                node[n.id] = p.call(f, *[sym(a) for a in n.args], **{k: sym(a) for k, a in n.kwargs.items()})
        for i in sorted(spec.stored):
            reg.add(node[i], self.stores[i])
        for a, b in spec.deps:
            p.add_dependency(node[a], node[b])
        return p, reg, node

    def scratch_values(self):
        spec = self.spec
        val = {}

        def ev(st):
            if isinstance(st, Ref):
                return val[st.id]
            if not plangen.has_ref(st):
                return st
            if type(st) is dict:
                return {ev(k): ev(v) for k, v in st.items()}
            return type(st)(ev(x) for x in st)

        for i in spec.topo():
            n = spec.nodes[i]
            if n.kind == "source":
                val[i] = f"s{i}@{self.version[i]}"
            elif n.kind == "lit":
                val[i] = n.value
            elif n.kind in ("gather",):
                val[i] = ev(n.args[0])
            elif n.kind == "unpack":
                val[i] = list(ev(n.args[0]))
            elif n.kind == "item":
                val[i] = val[n.parent][n.index]
            else:
                v = self.text(i, [ev(a) for a in n.args], {k: ev(a) for k, a in n.kwargs.items()})
                val[i] = [v + f".{j}" for j in range(n.beh[1])] if n.beh[0] == "iter" else v
        return val

    def outdated(self):
        spec, anc, out = self.spec, self.spec.ancestors(), set()
        mt = {i: os.stat(p).st_mtime_ns if os.path.exists(p) else None for i, p in self.paths.items()}
        for i in spec.topo():
            if i not in self.paths:
                continue
            up = [a for a in anc[i] if a in self.paths]
            if mt[i] is None or any(a in out for a in up) or any(mt[a] > mt[i] for a in up):
                out.add(i)
        return out

    def contents(self, only=None):
        val = self.scratch_values()
        bad = []
        for i in self.paths if only is None else only:
            st = Wrapped(i, self.paths[i], self.kinds[i], lambda *a: None)
            try:
                v = st.read()
            except Exception as e:
                bad.append((i, exc_info(e)))
                continue
            if v != val[i]:
                bad.append((i, f"{v[:60]!r} (length {len(v)}) instead of {val[i][:60]!r} (length {len(val[i])})"))
        return bad


def on_files(case, rng):
    root = tempfile.mkdtemp(dir=case.scratch)
    try:
        w = FileWorld(case, rng, root)
        case.note(spec=w.spec.describe(), stored=sorted(w.spec.stored), kinds=w.kinds)
        trials = 4 if case.tier == "quick" else 10
        hist_ = []
        for t in range(trials):
            what = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                i = rng.choice(list(w.paths)) if w.paths else None
                if i is None:
                    break
                if w.spec.nodes[i].kind == "source":
                    w.update(i)
                    what.append(f"update {i}")
                elif os.path.exists(w.paths[i]):
                    os.unlink(w.paths[i])
                    what.append(f"delete {i}")
            w.tick()
            workers = rng.choice([1, 2, 4])
            outs = [i for i in w.spec.stored]
            out = [Ref(i) for i in rng.sample(sorted(outs), min(len(outs), 2))] if outs else None
            w.take_log()
            # The child's forced exit, and the parent's view of the same state, are all that matter.
            mode = rng.choice([faults.KILL_BEFORE, faults.KILL_AFTER, faults.KILL_PARTIAL, faults.ERR, faults.ERR_FROM, faults.ERR_PARTIAL])
            k = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 17, 25, 40])
            reads = rng.random() < 0.3

            def run_it(arm):
                p, reg, node = w.build()
                o = [node[r.id] for r in out] if out is not None else None
                if arm:
                    faults.arm(w.files, mode, k, rng.choice(faults.ERRNOS), reads)
                try:
                    return uberjob.run(p, registry=reg, output=o, max_workers=workers, progress=None, max_errors=rng.choice([0, None]))
                finally:
                    faults.disarm()

            how, r = faults.in_child(lambda: run_it(True))
            case.count("killed_processes" if how == "killed" else f"child_{how}")
            log = w.take_log()
            done = {i for op, i in log if op == "D"}
            cut = [faults.NAMES[mode], k, how]
            hist_.append([what, cut])
            case.note(history=hist_)
            if how == "killed":
                case.count("cuts")
            # files written by the child carry the real time, in write order up to its granularity; where that
            # cannot tell two writes of one run apart the comparison is the same for uberjob and for the oracle
            stale = w.outdated()
            fine = [i for i in w.paths if i not in stale]
            case.count("values_kept", len(fine))
            for i, why in w.contents(fine):
                case.violate(f"poisoned: after the process died, the file of node {i} looks up to date but holds {why}", cut=cut)
            case.key(w.spec.signature(), *cut, ",".join(f"{a}{b}" for a, b in log))
            if rng.random() < 0.75:
                how, r = faults.in_child(lambda: run_it(False))
                log2 = w.take_log()
                if how != "ok":
                    case.violate(f"the run after the cut failed: {r}", cut=cut)
                    return
                case.count("repaired")
                bad = w.contents()
                if bad:
                    case.violate(f"contents: after the run that follows the cut, files hold something else than from-scratch evaluation: {bad[:3]}", cut=cut)
                val = w.scratch_values()
                if out is not None and r != [val[x.id] for x in out]:
                    case.violate("output: the run after the cut returned something else than from-scratch evaluation", cut=cut)
                again = {i for op, i in log2 if op == "W"}
                if again != {i for i in stale if w.spec.nodes[i].kind != "source"}:
                    case.violate("decision: the run after the cut did not write exactly what was out of date", cut=cut, wrote=sorted(again), want=sorted(stale))
                for i in done & again:
                    case.violate(f"recomputed: node {i} was completely written before the process died and the next run wrote it again", cut=cut)
            if case.violations:
                return
        case.sample({"files": {i: w.kinds[i] for i in w.paths}, "history": hist_})
    finally:
        shutil.rmtree(root)


def run_case(case):
    rng = case.rng
    if case.mode == "os" and rng.random() < 0.55:
        return on_files(case, rng)
    in_memory(case, rng)
