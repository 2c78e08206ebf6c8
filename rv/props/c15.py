"""C15: progress observers receive an exact, well-formed account of every run."""
import collections
import enum
import threading

import uberjob
from uberjob.graph import Call
from uberjob.progress import Progress, ProgressObserver, composite_progress, html_progress

from rv import detsched, excs, hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Cut, Did
from rv.plangen import Gen, Ref
from rv.props import large
from rv.props.common import *
from rv.world import World, WorldGen

CASES = {"quick": 4500, "thorough": 100000}
DET_WORKERS = 4
MIN = {"accounts": 5000, "notifications": 80000, "failing_runs": 800, "successful_runs": 2000, "composites": 1000, "distinct": 2500}
RULE = ("runs of generated plans and worlds (success, failures in calls, reads, writes and modified-time queries, retries, error limits, "
        "cycles, transformations, dry runs, interrupts, refused threads) watched by recording observers, alone and as members of nested "
        "composites, also beside members that fail on exit; an automaton checks the protocol per observer, and the counts are reconciled "
        "with the executions, reads, writes and queries in the event log; distinct by plan and sequence of notifications")


class Colour(enum.Enum):
    RED = 1


TOKENS = [1, 2.5, None, "s", "", ("t", 1), Colour.RED, True, b"b", frozenset([1]), "\ud800", int]


class Rec(ProgressObserver):
    def __init__(self, case, slow, fail_exit=None, fail_enter=None):
        self.log = []
        self.case = case
        self.slow = slow
        self.fail_exit = fail_exit
        self.fail_enter = fail_enter

    def add(self, kind, **k):
        if self.slow and self.case.mode == "det":
            s = detsched.ACTIVE
            if s is not None and s.is_managed():
                s.point()
        self.log.append((kind, k.get("section"), k.get("scope"), k.get("amount", k.get("exception")), threading.get_ident()))

    def __enter__(self):
        self.add("enter")
        if self.fail_enter:
            raise self.fail_enter
        return self

    def __exit__(self, *exc):
        self.add("exit")
        if self.fail_exit:
            raise self.fail_exit

    def increment_total(self, *, section, scope, amount):
        self.add("total", section=section, scope=scope, amount=amount)

    def increment_running(self, *, section, scope):
        self.add("running", section=section, scope=scope)

    def increment_completed(self, *, section, scope):
        self.add("completed", section=section, scope=scope)

    def increment_failed(self, *, section, scope, exception):
        self.add("failed", section=section, scope=scope, exception=exception)


class Falsy(Rec):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


def members(case, rng):
    """progress argument, list of recording observers"""
    recs = []
    slow = rng.random() < 0.5
    exit_error = None

    def one():
        r = (Falsy if rng.random() < 0.1 else Rec)(case, slow)
        recs.append(r)
        return Progress(lambda: r)

    k = rng.random()
    if k < 0.5:
        return one(), recs, None
    case.count("composites")
    ps = [one() for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.2:
        exit_error = excs.Plain("exit")
        bad = Rec(case, slow, fail_exit=exit_error)
        recs.append(bad)
        ps.insert(rng.randrange(len(ps) + 1), Progress(lambda: bad))
    if rng.random() < 0.2:
        ps.append(html_progress(lambda data: None))
    k = rng.random()
    if k < 0.3:
        p = ps
    elif k < 0.5:
        p = tuple(ps)
    elif k < 0.6:
        p = (x for x in ps)
    elif k < 0.8:
        p = composite_progress(*ps)
    else:
        p = [composite_progress(*ps[:1]), composite_progress(composite_progress(*ps[1:]), one())]
    return p, recs, exit_error


def protocol(case, log, base, dry, success, threads_ok=True):
    """One observer's log against the protocol."""
    bad = lambda what, **k: case.violate(what, tail=[(e[0], e[1], repr(e[2])[:60]) for e in log[-12:]], **k)
    case.count("accounts")
    case.count("notifications", len(log))
    kinds = [e[0] for e in log]
    if kinds.count("enter") != 1 or kinds[0] != "enter":
        bad(f"enter: the observer was entered {kinds.count('enter')} times, first notification {kinds[:1]}")
        return None
    if kinds.count("exit") != 1 or kinds[-1] != "exit":
        bad(f"exit: the observer was exited {kinds.count('exit')} times, last notification {kinds[-1:]}")
        return None
    total, started, done, failed = (collections.Counter() for _ in range(4))
    for kind, section, scope, x, ident in log[1:-1]:
        key = (section, scope)
        if section not in ("stale", "run"):
            bad(f"section: unknown section {section!r}")
        if type(scope) is not tuple:
            bad(f"scope: not a tuple: {scope!r}")
            return None
        if kind == "total":
            if started[key]:
                bad("order: a total was announced after something in its section and scope was reported running", scope=repr(key))
            if not isinstance(x, int) or x <= 0:
                bad(f"total: an amount of {x!r} was announced", scope=repr(key))
            total[key] += x
        elif kind == "running":
            started[key] += 1
            if started[key] > total[key]:
                bad("order: more was reported running in a section and scope than announced", scope=repr(key), total=total[key], running=started[key])
        else:
            if kind == "failed":
                failed[key] += 1
                if not isinstance(x, BaseException):
                    bad(f"failed: reported with {x!r} instead of an exception")
                elif isinstance(x, uberjob.CallError) and x.__cause__ is None:
                    bad("failed: the exception reported does not say what was raised")
            else:
                done[key] += 1
            if done[key] + failed[key] > started[key]:
                bad("order: more was reported completed or failed than running", scope=repr(key))
        if case.violations:
            return None
    if not base:
        for key in started:
            if started[key] != done[key] + failed[key]:
                bad("unbalanced: something was still reported running when run returned", scope=repr(key), running=started[key],
                    completed=done[key], failed=failed[key])
    if success:
        for key in total:
            if (not dry or key[0] == "stale") and (done[key] != total[key] or failed[key]):
                bad("final: completed differs from total after a successful run", scope=repr(key), total=total[key], completed=done[key], failed=failed[key])
    return total, started, done, failed


def name_of(fn):
    return getattr(fn, "__qualname__", None) or type(fn).__qualname__


def has_token(scope, token):
    return any(type(x) is str and x == token for x in scope)


def reconcile(case, w, acct, log, node, success, base):
    """The run section against what was executed, per node (each has a scope value of its own)."""
    total, started, done, failed = acct
    spec = w.spec if hasattr(w, "spec") else w
    names = {n.id: name_of(node[n.id].fn) for n in spec.nodes if n.kind == "call"}
    did = Did(log)
    ok_calls = {e[1] for e in log if e[0] == E}
    all_calls = {e[1] for e in log if e[0] == S}
    bad_calls = all_calls - ok_calls
    rd = collections.Counter(e[1] for e in log if e[0] == "RE")
    wr = collections.Counter(e[1] for e in log if e[0] == "WE")
    by_token = collections.defaultdict(lambda: [0, 0, 0, 0])
    for which, c in enumerate((total, started, done, failed)):
        for (section, scope), k in c.items():
            if section == "run":
                for at, t in enumerate(scope):
                    if type(t) is str and t.startswith("node-"):
                        n = spec.nodes[int(t[5:])]
                        # structures in a call's arguments are calls of their own in the same user scope
                        if n.kind == "call" and not (type(scope[at + 1]) is str and scope[at + 1].endswith(names[n.id])):
                            break
                        by_token[n.id][which] += k
                        break
    for n in spec.nodes:
        if n.kind == "item":
            continue
        t, s, d, f = by_token[n.id]
        if n.kind in ("call", "source", "dsource", "lit"):
            want = (n.id in all_calls) + bool(did.reads[n.id]) + bool(did.writes[n.id])
            good = (n.id in ok_calls) + bool(rd[n.id]) + bool(wr[n.id])
            if not base and (s != want or d != good or f != want - good):
                case.violate(f"count: node {n.id} ({n.kind}) took part in {want} executions of which {good} succeeded, reported: {s} running, {d} completed, {f} failed")
            if success and t != want:
                case.violate(f"total: node {n.id} ({n.kind}) took part in {want} executions, total announced: {t}")


def run_case(case):
    rng = case.rng
    if rng.random() < (0.01 if case.mode == "det" else 0.02):
        return large.account(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.2)
    registry = rng.random() < 0.65
    mk = dict(pert=pert.plan, max_n=rng.choice([4, 8, 14, 24]), hubs=0.2, deps=0.4, lits=rng.choice([0.05, 0.2]), fail=rng.choice([0, 0, 0, 0.15, 0.4]))
    spec = WorldGen(rng, **mk).build() if registry else Gen(rng, **mk).build()
    base = False
    for n in spec.nodes:
        k = rng.random()
        pre = tuple(rng.choice(TOKENS) for _ in range(rng.choice([0, 0, 1, 2]) if k < 0.98 else rng.choice([5, 9, 40])))
        n.scope = (*pre, f"node-{n.id}")
    shared = rng.random() < 0.3
    if shared:
        # many calls in one scope: only the per-scope sums can be reconciled
        scopes = [(), ("a",), ("a", 1), (Colour.RED, None)]
        for n in spec.nodes:
            n.scope = rng.choice(scopes)
    base_ok = rng.random() < 0.15
    for n in spec.calls():
        if n.beh == ("fail",):
            n.beh = ("fail", excs.maker(rng, base=base_ok))
        elif n.beh == ("ok",) and rng.random() < 0.1:
            n.beh = ("flaky", rng.choice([1, 2]))
    progress, recs, exit_error = members(case, rng)
    kw = run_kw(case, rng, max_errors=rng.choice([0, 0, 1, None]), retry=rng.choice([None, None, 1, 2, 3]))
    kw["progress"] = progress
    if rng.random() < 0.1:
        kw["dry_run"] = True
    extra = []
    transform = rng.random() < 0.1
    if transform:
        how = rng.choice(["add", "raise"])

        def t(plan, node):
            if how == "raise":
                raise excs.Plain("transform")
            with plan.scope("added"):
                x = plan.call(lambda: extra.append(1))
            for u in list(plan.graph.nodes):
                if u is not x and not plan.graph.in_degree(u):
                    plan.add_dependency(x, u)
            return plan, node

        kw["transform_physical"] = t
    sched_kw = {}
    if rng.random() < 0.05 and case.mode == "det":
        sched_kw["refuse_thread"] = rng.choice([0, 1, 2])
    if registry:
        w = World(case, spec, pert)
        if rng.random() < 0.4:
            execute(case, lambda: w.run(max_workers=2, progress=None, max_errors=None), pert=pert)
            hist.mutate(w, rng, grow=False)
        w.set_output(hist.pick_output(w, rng))
        log, plan, output = w.log, w.plan, w.output
        fn = lambda: w.run(**kw)
        total_ops = max(1, len(spec.nodes))
        if rng.random() < 0.3:
            how_ = rng.choice(["raise", "raise", "interrupt"])
            mk_ = excs.maker(rng, base=base_ok)
            cut = Cut(case, rng.randrange(1, 2 * total_ops + 1), how_, rng.choice(["before", "after"]), mk_)
            w.set_fault(cut)
            case.note(cut=[how_, cut.phase, cut.k])
        w.rec.attempts.clear()
    else:
        rec = Recorder(case, pert)
        if spec.nodes and rng.random() < 0.08 and not kw.get("dry_run"):
            from rv.props.c07 import add_cycle
            add_cycle(spec, rng)
        b = plangen.build(spec, rec)
        log, plan, output = rec.log, b.plan, b.output
        fn = lambda: uberjob.run(plan, output=output, **kw)
        w = spec
    kwn = {k: repr(v)[:60] for k, v in kw.items() if k != "progress"}
    case.note(spec=spec.describe(), run=kwn, shared=shared, members=len(recs))
    n0 = len(log)
    seed_random(rng)
    res = execute(case, fn, pert=pert, sched_kw=sched_kw)
    marks = [len(r.log) for r in recs]
    log = log[n0:]
    success = res.exc is None or res.exc is exit_error and res.exc.__context__ is None
    # everything else below is judged per observer
    base = any(e[0] in (F, "RF", "WF", "MF") and not isinstance(e[-1], Exception) for e in log) or bool(sched_kw) and not success
    if registry:
        w.set_fault(None)
    case.count("successful_runs" if success else "failing_runs")
    accts = []
    if sched_kw and not success:
        # a display that could not start its thread leaves the members after it unentered
        recs = [r for r in recs if r.log]
    for r in recs:
        a = protocol(case, r.log, base, kw.get("dry_run"), success)
        if a is None:
            return
        accts.append(a)
    # composite members all get everything
    bag = lambda r: collections.Counter((e[0], e[1], e[2]) for e in r.log)
    if not accts:
        return
    first = bag(recs[0])
    for r in recs[1:]:
        if bag(r) != first:
            x, y = first, bag(r)
            case.violate("composite: members did not receive the same notifications", missing=[repr(k)[:80] for k in list((x - y))[:4]], extra=[repr(k)[:80] for k in list((y - x))[:4]])
    total, started, done, failed = accts[0]
    if sched_kw and not success:
        return
    # stale: every call of the plan is examined
    sums = lambda c, sec: sum(n for (s, _), n in c.items() if s == sec)
    if registry and w.registry:
        p2 = plan.copy()
        if output is not None:
            p2.gather(output)
        calls = sum(1 for u in p2.graph.nodes if type(u) is Call)
        if sums(total, "stale") != calls:
            case.violate(f"stale: the plan has {calls} calls, stale totals announced: {sums(total, 'stale')}")
        per = collections.Counter((u.scope, name_of(u.fn)) for u in p2.graph.nodes if type(u) is Call)
        for (scope, name), n in per.items():
            have = sum(m for (sec, sc), m in total.items() if sec == "stale" and sc[:len(scope)] == scope and len(sc) in (len(scope) + 1, len(scope) + 2)
                       and any(type(x) is str and x.endswith(name) for x in sc[len(scope):]))
            if have < n:
                case.violate(f"stale: {n} calls were examined in user scope {scope!r} with function {name}, announced: {have}")
        queries = {e[1] for e in log if e[0] == "MS"}
        if success and len([i for i in queries if type(w.node[i]) is Call]) > sums(done, "stale"):
            case.violate("stale: fewer examinations were reported than modified times were queried")
    elif sums(total, "stale"):
        case.violate("stale: totals were announced although there is nothing to examine")
    if kw.get("dry_run"):
        if sums(started, "run"):
            case.violate("run: something was reported running in a dry run")
        if res.exc is None:
            phys = res.value[0]
            want = collections.Counter((u.scope, name_of(u.fn)) for u in phys.graph.nodes if type(u) is Call)
            check_scopes(case, want, total)
    elif not shared:
        reconcile(case, w, accts[0], log, w.node if registry else b.node, success, base)
    user_scopes(case, spec, total, started, log, success, base)
    if success and transform and not kw.get("dry_run"):
        if total[("run", ("added",))]:
            case.violate("scope: a scope without the function's name was reported")
        n = sum(m for (sec, sc), m in done.items() if sec == "run" and sc[:1] == ("added",))
        if n != len(extra):
            case.violate(f"count: an added call ran {len(extra)} times and was reported {n} times")
    case.key(spec.signature(), hash(tuple((e[0], e[1], repr(e[2])) for e in recs[0].log)))
    if case.index < 16:
        case.sample({"spec": spec.describe(), "run": kwn, "notifications": [f"{e[0]} {e[1]} {e[2]}"[:90] for e in recs[0].log[:30]]})


def check_scopes(case, want, total):
    for (scope, name), n in want.items():
        have = sum(m for (sec, sc), m in total.items() if sec == "run" and sc[:-1] == scope and type(sc[-1]) is str and sc[-1].endswith(name))
        if have < n:
            case.violate(f"total: the plan has {n} calls in user scope {scope!r} with function {name}, announced: {have}")
    if sum(want.values()) != sum(m for (sec, _), m in total.items() if sec == "run"):
        case.violate("total: the totals announced do not add up to the number of calls of the plan")


def user_scopes(case, spec, total, started, log, success, base):
    """Calls of the user's functions by user scope plus function name."""
    ran = {e[1] for e in log if e[0] == S}
    want = collections.Counter()
    fns = {}
    for n in spec.nodes:
        if n.kind == "call" and n.id in ran and n.form in ("fn", "lambda", "shared"):
            name = f"call{n.id % 7}" if n.form == "fn" else "shared" if n.form == "shared" else "<lambda>"
            want[(n.scope, name)] += 1
    for (scope, name), n in want.items():
        have = sum(m for (sec, sc), m in started.items() if sec == "run" and sc[:-1] == scope and type(sc[-1]) is str and sc[-1].endswith(name))
        if have != n and not base:
            case.violate(f"scope: {n} calls ran in user scope {scope!r} with function {name}, reported running: {have}")
        if success:
            have = sum(m for (sec, sc), m in total.items() if sec == "run" and sc[:-1] == scope and type(sc[-1]) is str and sc[-1].endswith(name))
            if have != n:
                case.violate(f"scope: {n} calls ran in user scope {scope!r} with function {name}, total announced: {have}")
