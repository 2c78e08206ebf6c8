import re
def sub(f, *pairs):
    t = open(f).read()
    for o, n in pairs:
        assert t.count(o) == 1, (f, t.count(o), o)
        t = t.replace(o, n)
    open(f, "w").write(t)
RFG="_execution/run_function_on_graph.py"
sub(RFG, ("""def worker_thread(queue, process_item, finished):
    def process_items():
        while True:
            item = queue.get()
            try:
                if item is DONE:
                    return
                process_item(item)
            finally:
                queue.task_done()
                if not queue.unfinished_tasks:
                    finished.put(None)

    return threading.Thread(target=process_items)
""", """def _work(queue, process_item, finished):
    for item in iter(queue.get, DONE):
        try:
            process_item(item)
        finally:
            queue.task_done()
            if not queue.unfinished_tasks:
                finished.put(None)
    queue.task_done()
"""), ("import os\n", "import os\nfrom concurrent.futures import ThreadPoolExecutor\n"),
("""    workers = []
    try:
        for _ in range(worker_count):
            worker = worker_thread(queue, process_node, finished)
            workers.append(worker)
            worker.start()
        if source_nodes:
            finished.get()
    finally:
        stop = True
        for _ in workers:
            queue.put(DONE)
        for worker in workers:
            try:
                worker.join()
            except RuntimeError:
                # The worker could not be started.
                pass
""", """    with ThreadPoolExecutor(worker_count) as executor:
        started = 0
        try:
            for _ in range(worker_count):
                started += 1
                executor.submit(_work, queue, process_node, finished)
            if source_nodes:
                finished.get()
        finally:
            stop = True
            for _ in range(started):
                queue.put(DONE)
"""))
sub("_execution/greedy.py", ("""    (
        condensation_graph,
        representative_to_component_mapping,
    ) = get_condensation_graph_and_mapping(graph)
    pseudo_sinks = [
        node
        for representative in topological_sort(condensation_graph)
        for node in representative_to_component_mapping[representative]
        if all(
            type(edge_key) is Dependency
            for u, v, edge_key in graph.out_edges(node, keys=True)
        )
    ]
""", """    condensation, members = get_condensation_graph_and_mapping(graph)

    def is_pseudo_sink(node):
        return not any(
            type(edge_key) is not Dependency
            for _, _, edge_key in graph.out_edges(node, keys=True)
        )

    pseudo_sinks = []
    for representative in topological_sort(condensation):
        pseudo_sinks.extend(filter(is_pseudo_sink, members[representative]))
"""))
sub("_execution/run_physical.py", ("""            scope = get_full_call_scope(node)
            progress_observer.increment_running(section="run", scope=scope)
            bound_call = bound_call_lookup[node]
            try:
                bound_call.value.run(node.fn, retry)
            except Exception as exception:
                drop_internal_frames(exception, 2)
                progress_observer.increment_failed(
                    section="run",
                    scope=scope,
                    exception=create_chained_call_error(node, exception),
                )
                raise NodeError(node) from exception
            finally:
                bound_call.value = None
            progress_observer.increment_completed(section="run", scope=scope)
""", """            where = {"section": "run", "scope": get_full_call_scope(node)}
            progress_observer.increment_running(**where)
            try:
                bound_call_lookup[node].value.run(node.fn, retry)
            except Exception as exception:
                drop_internal_frames(exception, 2)
                error = create_chained_call_error(node, exception)
                progress_observer.increment_failed(exception=error, **where)
                raise NodeError(node) from exception
            else:
                progress_observer.increment_completed(**where)
            finally:
                del bound_call_lookup[node]
"""))
sub("_execution/scheduler.py", ("""    queue = Queue()
    queue.queue = deque(initial_items)
    queue.unfinished_tasks = len(queue.queue)
    return queue
""", """    queue = Queue()
    for item in initial_items:
        queue.put_nowait(item)
    return queue
"""), ("from collections import deque\n", ""))
sub("_plan.py", ("""        new_plan = Plan()
        new_plan.graph = self.graph.copy()
        return new_plan
""", """        new_plan = Plan()
        new_plan.graph.add_nodes_from(self.graph.nodes(data=True))
        new_plan.graph.add_edges_from(self.graph.edges(keys=True, data=True))
        return new_plan
"""), ("""        t = self._call(stack_frame, _builtins.unpack, iterable, length)
        return tuple(
            self._call(stack_frame, operator.getitem, t, index)
            for index in range(length)
        )
""", """        items = self._call(stack_frame, _builtins.unpack, iterable, length)
        nodes = []
        for index in range(length):
            nodes.append(self._call(stack_frame, operator.getitem, items, index))
        return tuple(nodes)
"""))
sub("_registry.py", ("""            node: copy.copy(registry_value)
            for node, registry_value in self.mapping.items()
""", """            node: RegistryValue(
                value.value_store,
                is_source=value.is_source,
                stack_frame=value.stack_frame,
            )
            for node, value in self.mapping.items()
"""), ("import copy\n", ""))
C="_transformations/caching.py"
sub(C, ("""        has_stale_ancestor = any(
            stale_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
        )
        if has_stale_ancestor:
            stale_lookup[node].value = True
        else:
            process_no_stale_ancestor(node)
""", """        for predecessor in plan.graph.predecessors(node):
            if stale_lookup[predecessor].value:
                stale_lookup[node].value = True
                break
        else:
            process_no_stale_ancestor(node)
"""), ("""    for node, registry_value in registry.mapping.items():
        is_stale = node in stale_nodes
        write_node, read_node = _add_value_store(
            plan, node, registry_value, is_stale=is_stale
        )
        if write_node:
            required_nodes.add(write_node)
        read_node_lookup[node] = read_node
""", """    for node, registry_value in reversed(list(registry.mapping.items())):
        write_node, read_node_lookup[node] = _add_value_store(
            plan, node, registry_value, is_stale=node in stale_nodes
        )
        required_nodes.update(filter(None, [write_node]))
"""), ("""    for _, successor, dependency in out_edges:
        plan.graph.remove_edge(node, successor, dependency)
        dependency_type = type(dependency)
        if dependency_type in (PositionalArg, KeywordArg):
            plan.graph.add_edge(read_node, successor, dependency)
        elif is_stale:
            assert dependency_type is Dependency
            plan.graph.add_edge(write_node, successor, dependency)
""", """    plan.graph.remove_edges_from(out_edges)
    for _, successor, dependency in out_edges:
        is_argument = isinstance(dependency, (PositionalArg, KeywordArg))
        if is_argument or is_stale:
            plan.graph.add_edge(
                read_node if is_argument else write_node, successor, dependency
            )
"""))
sub("_util/networkx_util.py", ("""    visited = set()
    frontier = list(sources)
    while frontier:
        node = frontier.pop()
        if node in visited:
            continue
        visited.add(node)
        frontier.extend(graph.predecessors(node))
    return visited
""", """    found = set(sources)
    queue = collections.deque(found)
    while queue:
        new = set(graph.pred[queue.popleft()]) - found
        found |= new
        queue.extend(new)
    return found
"""), ("import networkx as nx\n", "import collections\n\nimport networkx as nx\n"))
sub("progress/_composite_progress_observer.py", ("""        for progress_observer in self._progress_observers:
            progress_observer.increment_running(section=section, scope=scope)
""", """        self._each("increment_running", section=section, scope=scope)
"""), ("""        for progress_observer in self._progress_observers:
            progress_observer.increment_completed(section=section, scope=scope)
""", """        self._each("increment_completed", section=section, scope=scope)

    def _each(self, name, **kwargs):
        for method in [getattr(o, name) for o in self._progress_observers]:
            method(**kwargs)
"""))
sub("progress/_console_progress_observer.py", ("""            print(value, end="", flush=True)
        except UnicodeEncodeError:""", """            sys.stdout.write(value)
            sys.stdout.flush()
        except UnicodeEncodeError:"""))
S="progress/_simple_progress_observer.py"
sub(S, ("""        done = False
        first = True
        while not done:
            done = self._done_event.wait(
                self._initial_update_delay if first else self._min_update_interval
            )
            first = False
            with self._lock:
                output_value = self._do_render()
            if output_value is not None:
                self._output(output_value)
""", """        delay = self._initial_update_delay
        while True:
            done = self._done_event.wait(delay)
            self._update()
            if done:
                return
            delay = self._min_update_interval

    def _update(self):
        with self._lock:
            value = self._do_render()
        if value is not None:
            self._output(value)
"""), ("""        t = time.time()
        if self.running_count:
            elapsed = t - self._prev_time
            multiplier = elapsed / self.running_count
            for scope_state in self._running_scope_states:
                scope_state.weighted_elapsed += scope_state.running * multiplier
        self._prev_time = t
""", """        previous, self._prev_time = self._prev_time, time.time()
        if not self.running_count:
            return
        share = (self._prev_time - previous) / self.running_count
        for scope_state in self._running_scope_states:
            scope_state.weighted_elapsed += share * scope_state.running
"""))
sub("stores/_file_store.py", ("""    try:
        t = os.path.getmtime(path)
    except OSError:
        return None
    return dt.datetime.fromtimestamp(t)
""", """    try:
        return dt.datetime.fromtimestamp(pathlib.Path(path).stat().st_mtime)
    except OSError:
        return None
"""), ("""        with open(staging_path, mode, **kwargs) as outputfile:
            yield outputfile
""", """        outputfile = open(staging_path, mode, **kwargs)
        try:
            yield outputfile
        finally:
            outputfile.close()
"""))
sub("stores/_json_file_store.py", ("            json.dump(value, outputfile, indent=4)", "            outputfile.write(json.dumps(value, indent=4))"), ("            return json.load(inputfile)", "            text = inputfile.read()\n        return json.loads(text)"))
sub("stores/_text_file_store.py", ("""        with open(self.path, encoding=self.encoding, newline="") as inputfile:
            return inputfile.read()
""", """        return b"".decode() + open_text(self.path, self.encoding)
"""), ("""class TextFileStore""", """def open_text(path, encoding):
    with open(path, "r", encoding=encoding, newline="") as inputfile:
        return "".join(inputfile.readlines())


class TextFileStore"""))
sub("stores/_mounted_store.py", ("""    with tempfile.TemporaryDirectory() as tempdir:
        yield os.path.join(tempdir, "temp")
""", """    tempdir = tempfile.mkdtemp(prefix="mounted-")
    try:
        yield os.path.join(tempdir, "value")
    finally:
        shutil.rmtree(tempdir)
"""), ("import os\n", "import os\nimport shutil\n"))
sub("_util/traceback.py", ("""    def recurse(frame, depth):
        if not frame:
            return None
        if depth < 0:
            return TruncatedStackFrame
        return StackFrame(
            name=frame.f_code.co_name,
            path=frame.f_code.co_filename,
            line=frame.f_lineno,
            outer=recurse(frame.f_back, depth - 1),
        )

    initial_frame = inspect.currentframe()
    for _ in range(initial_depth):
        initial_frame = initial_frame.f_back
    return recurse(initial_frame, MAX_TRACEBACK_DEPTH)
""", """    frame = inspect.currentframe()
    while initial_depth:
        frame, initial_depth = frame.f_back, initial_depth - 1
    return _capture(frame, MAX_TRACEBACK_DEPTH)


def _capture(frame, depth):
    if frame is None:
        return None
    if depth < 0:
        return TruncatedStackFrame
    code = frame.f_code
    return StackFrame(
        name=code.co_name,
        path=code.co_filename,
        line=frame.f_lineno,
        outer=_capture(frame.f_back, depth - 1),
    )
"""))
