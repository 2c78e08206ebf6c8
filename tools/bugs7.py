CACHING = "_transformations/caching.py"
RP = "_execution/run_physical.py"
PRUNING = "_transformations/pruning.py"
GRAPH = "_util/networkx_util.py"
RFG = "_execution/run_function_on_graph.py"
REG = "_registry.py"

bug("C05-memoised-pruning", "C05",
    [(CACHING, """    plan = prune_source_literals(
        plan, inplace=False, predicate=lambda node: node not in registry
    )
    fresh_time""", """    # The graph of a long-lived registry is mostly the same from run to run.
    size = (plan.graph.number_of_nodes(), len(registry))
    known = _pruned_plans.get(registry)
    if known is None or known[0] != size or not known[1] >= set(plan.graph):
        pruned = prune_source_literals(
            plan, inplace=False, predicate=lambda node: node not in registry
        )
        known = _pruned_plans[registry] = (size, set(plan.graph), pruned)
    plan = known[2]
    fresh_time"""),
     (CACHING, "class BarrierType:", "_pruned_plans = weakref.WeakKeyDictionary()\n\n\nclass BarrierType:"),
     (CACHING, "import datetime as dt\n", "import datetime as dt\nimport weakref\n")],
    '''
import datetime as dt
import uberjob
class Store(uberjob.ValueStore):
    def __init__(self, value=None, t=None):
        self.value, self.t, self.writes = value, t, 0
    def read(self):
        return self.value
    def write(self, value):
        self.value, self.t, self.writes = value, dt.datetime.now(), self.writes + 1
    def get_modified_time(self):
        return self.t
p, r = uberjob.Plan(), uberjob.Registry()
a = Store(1, dt.datetime(2020, 1, 1))
x = r.source(p, a)
y = p.call(lambda: 5)
s = Store()
r.add(y, s)
uberjob.run(p, registry=r, progress=None)
assert s.writes == 1
p.add_dependency(x, y)
a.t = dt.datetime.now() + dt.timedelta(hours=1)
uberjob.run(p, registry=r, progress=None)
assert s.writes == 2, "older than the source it now depends on"
''', "a dependency between existing nodes added between two runs of the same plan and registry",
    "the graph used to decide what is out of date is remembered per registry and only recognised as changed by its nodes")

bug("C09-memoised-arguments", "C09",
    [(RP, """    args, kwargs = get_argument_nodes(graph, call)
    args = [""", """    known = _argument_nodes.get(call)
    if known is None or not all(node in result_lookup for node in known[2]):
        args, kwargs = get_argument_nodes(graph, call)
        known = _argument_nodes[call] = (args, kwargs, [*args, *kwargs.values()])
    args, kwargs, _ = known
    args = ["""),
     (RP, "class BoundCall:\n", "_argument_nodes = weakref.WeakKeyDictionary()\n\n\nclass BoundCall:\n"),
     (RP, "from collections.abc import Callable\n", "import weakref\nfrom collections.abc import Callable\n"),
     ("graph.py", '''    """A symbolic value in a call :class:`~uberjob.graph.Graph`."""

    __slots__ = ("scope",)
''', '''    """A symbolic value in a call :class:`~uberjob.graph.Graph`."""

    __slots__ = ("scope", "__weakref__")
''')],
    '''
import datetime as dt
import uberjob
class Rounding(uberjob.ValueStore):
    value = t = None
    def read(self):
        return self.value
    def write(self, value):
        self.value, self.t = round(value), dt.datetime.now()
    def get_modified_time(self):
        return self.t
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: 1.75)
b = p.call(lambda v: v, a)
assert uberjob.run(p, output=b, registry=r, progress=None) == 1.75
r.add(a, Rounding())
assert uberjob.run(p, output=b, registry=r, progress=None) == 2
''', "a run, then the registration of an argument of one of the calls that ran, and another run in which that argument is computed; a store whose read differs from what was written",
    "a call's argument nodes are remembered across runs, so a consumer keeps receiving the value as computed instead of as read back")

bug("C01-memoised-counts", "C01",
    [(RFG, """    for node in graph:
        count = predecessor_count(graph, node)
""", """    for node in graph:
        known = _counts.get(node)
        if known is None or known[0] != graph.in_degree(node):
            known = _counts[node] = (
                graph.in_degree(node),
                predecessor_count(graph, node),
            )
        count = known[1]
"""),
     (RFG, "DONE = object()\n", "DONE = object()\n_counts = weakref.WeakKeyDictionary()\n"),
     (RFG, "import threading\nfrom queue", "import threading\nimport weakref\nfrom queue"),
     ("graph.py", '''    """A symbolic value in a call :class:`~uberjob.graph.Graph`."""

    __slots__ = ("scope",)
''', '''    """A symbolic value in a call :class:`~uberjob.graph.Graph`."""

    __slots__ = ("scope", "__weakref__")
''')],
    '''
import datetime as dt, time
import uberjob
class Store(uberjob.ValueStore):
    value = t = None
    def read(self):
        return self.value
    def write(self, value):
        time.sleep(0.2)
        self.value, self.t = value, dt.datetime.now()
    def get_modified_time(self):
        return self.t
    def __repr__(self):
        return "Store"
p, r = uberjob.Plan(), uberjob.Registry()
log = []
def step(name, seconds, *args):
    time.sleep(seconds)
    log.append(name)
    return name
a = p.call(step, "a", 0)
b = p.call(step, "b", 0.5)
# in the first run b is an argument twice: two edges, one predecessor
c = p.call(step, "c", 0, b)
p.add_dependency(b, c)
uberjob.run(p, output=c, progress=None, max_workers=4)
del log[:]
# now only part of the same edges come from b
s = Store()
r.add(b, s)
uberjob.run(p, output=[c], registry=r, progress=None, max_workers=4)
assert log.index("b") < log.index("c"), log
assert log == ["b", "c"], log
''', "two runs in which a call has as many edges but another number of distinct predecessors (an argument node registered in between)",
    "the number of predecessors of a node is remembered across runs and recognised as changed by the number of edges only")

bug("C10-shared-gate", "C10",
    [(RFG, """def run_function_on_graph(
    graph, fn, *, worker_count=None, max_errors=0, scheduler=None
):
    assert_acyclic(graph)
    worker_count = coerce_worker_count(worker_count)
""", """# Bounds the calls in progress at each level of parallelism.
_gates = {}


def _get_gate(worker_count):
    return _gates.setdefault(worker_count, threading.BoundedSemaphore(worker_count))


def run_function_on_graph(
    graph, fn, *, worker_count=None, max_errors=0, scheduler=None
):
    assert_acyclic(graph)
    worker_count = coerce_worker_count(worker_count)
    gate = _get_gate(worker_count)
"""),
     (RFG, """        try:
            fn(node)
        except BaseException as exception:
""", """        try:
            with gate:
                fn(node)
        except BaseException as exception:
""")],
    '''
import threading
import uberjob
meet = threading.Barrier(6)
def call():
    meet.wait(20)
    return 1
def one(out):
    p = uberjob.Plan()
    try:
        out.append(uberjob.run(p, output=[p.call(call) for _ in range(3)], max_workers=3, progress=None))
    except Exception as e:
        out.append(e)
out = []
ts = [threading.Thread(target=one, args=(out,)) for _ in range(2)]
[t.start() for t in ts]
[t.join() for t in ts]
assert out == [[1, 1, 1]] * 2, out
''', "two runs at the same time with the same max_workers, or a run inside a call of another",
    "runs with the same number of workers share one limit, so neither gets all of its workers")
