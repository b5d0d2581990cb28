"""
Simulated time inside the library: every executed line (or bytecode instruction) of the library is one step.
A Stepper counts the steps of one thread and acts at chosen ones.
"""

import ast
import dis
import sys

from dst.core import LIB, rng


def handlers(code):
    """{offset of instruction: what handles an exception there}"""
    res = {}
    for entry in dis._parse_exception_table(code):      # pylint: disable=protected-access
        for offset in range(entry.start, entry.end, 2):
            res[offset] = entry.target
    return res


def signal_points(code):
    """
    Offsets of instructions before which the interpreter runs signal handlers: at the start of functions, when generators
    go on, after calls (of what is not Python code) and when loops go round. Where the exception would be handled differently
    before the instruction than in the one that looks for signals the point is left out. {offset: whether it follows a call}
    """
    res, handler, previous = {}, handlers(code), None
    for ins in dis.get_instructions(code):
        if previous is not None and handler.get(ins.offset) == handler.get(previous.offset):
            if previous.opname == 'RESUME':
                res[ins.offset] = False
            elif previous.opname in ('CALL', 'CALL_FUNCTION_EX'):
                res.setdefault(ins.offset, True)
        if ins.opname == 'JUMP_BACKWARD' and handler.get(ins.offset) == handler.get(ins.argval):
            res[ins.argval] = False
        previous = ins
    return res


IDLE = (None for _ in ())


class Stepper:
    """
    Counts the steps of the current thread inside the library. ``points`` is a sorted list of
    (step, action), action is called with the frame when the step is reached; it may raise. With ``signals`` it is called at
    the first instruction from there on at which a signal can be handled.
    """
    signal_tables = {}

    def __init__(self, opcodes=False, points=(), cap=None, on_cap=None, signals=False):
        self.opcodes = opcodes
        self.signals = signals
        self.pending = []
        self.last = None
        self.steps = 0
        self.points = sorted(points, key=lambda p: p[0])
        self.pos = 0
        self.cap = cap
        self.on_cap = on_cap
        self.cache = {}
        self._arm()

    def _arm(self):
        nxt = self.points[self.pos][0] if self.pos < len(self.points) else float('inf')
        if self.cap is not None and self.cap < nxt:
            nxt = self.cap
        self.next = nxt

    def _hit(self, frame):
        while self.pos < len(self.points) and self.points[self.pos][0] <= self.steps:
            action = self.points[self.pos][1]
            self.pos += 1
            self._arm()
            if self.signals:
                self._watch(frame, action)
            else:
                action(frame)
        if self.cap is not None and self.steps >= self.cap:
            self.cap = None
            self._arm()
            self.on_cap()
        self._arm()

    def _watch(self, frame, action):
        """Look at every instruction until the action could be called."""
        self.pending.append(action)
        self.last = None
        if not self.opcodes:
            while frame is not None:
                if frame.f_trace is not None:
                    frame.f_trace_opcodes = True
                frame = frame.f_back
            sys.settrace(self._global)          # without this the above has no effect

    def _signal(self, frame):
        code, last = frame.f_code, self.last
        self.last = frame
        table = self.signal_tables.get(code)
        if table is None:
            table = self.signal_tables[code] = signal_points(code)
        after_call = table.get(frame.f_lasti)
        if after_call is False or after_call and last is frame:
            actions, self.pending, self.last = self.pending, [], None
            for action in actions:
                action(frame)

    def _global(self, frame, event, _arg):
        code = frame.f_code
        ours = self.cache.get(code)
        if ours is None:
            ours = self.cache[code] = code.co_filename.startswith(LIB)
        if not ours:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        elif self.pending:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, _arg):
        if event == 'opcode' and self.signals:
            if self.pending:
                self._signal(frame)
            if not self.opcodes:
                if not self.pending:
                    frame.f_trace_opcodes = False
                return self._local
        if event == 'line' or event == 'opcode':
            self.steps += 1
            if self.steps >= self.next:
                self._hit(frame)
        return self._local

    def start(self):
        if self.opcodes:
            # CPython 3.12 looks only when tracing starts whether any frame wants to see instructions (and crashes if one does that
            # is executed while there is no trace function, so it is not the current one)
            IDLE.gi_frame.f_trace_opcodes = True
        sys.settrace(self._global)

    def stop(self):
        sys.settrace(None)

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *exc):
        self.stop()


MUTATORS = {'append', 'appendleft', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'popleft',
            'remove', 'discard', 'clear', 'sort', 'reverse', '__setitem__', 'setattr', 'move_to_end'}
STORES = {'STORE_ATTR', 'STORE_SUBSCR', 'STORE_SLICE', 'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL'}


def mutating_lines(code):
    """
    Lines of the code object that change something other than local variables, and those of them that also look at it before.
    """
    res, both, seen, line = set(), set(), set(), code.co_firstlineno
    for ins in dis.get_instructions(code):
        line = ins.positions.lineno if ins.positions and ins.positions.lineno else line
        kind = ins.opname.partition('_')[2].replace('GLOBAL', 'ATTR')
        if ins.opname in ('LOAD_ATTR', 'LOAD_GLOBAL', 'BINARY_SUBSCR'):
            seen.add((line, kind, ins.argval))
        if ins.opname in STORES or (isinstance(ins.argval, str) and ins.argval in MUTATORS):
            res.add(line)
            if (line, kind, ins.argval) in seen:
                both.add(line)
    return res, both


class Changes(ast.NodeVisitor):
    """Names of attributes and globals (not local variables) that a module changes, or changes the contents of."""

    def __init__(self, tree):
        self.attributes, self.globals = set(), set()
        self.scopes = []
        self.module = {target.id for node in tree.body for target in getattr(node, 'targets', [getattr(node, 'target', None)])
                       if isinstance(target, ast.Name)}
        self.visit(tree)

    def visit_FunctionDef(self, node):      # pylint: disable=invalid-name
        shared = {name for inner in ast.walk(node) if isinstance(inner, ast.Global) for name in inner.names}
        local = {inner.id for inner in ast.walk(node) if isinstance(inner, ast.Name) and isinstance(inner.ctx, ast.Store)} - shared
        local |= {arg.arg for inner in ast.walk(node) if isinstance(inner, ast.arguments)
                  for arg in [*inner.posonlyargs, *inner.args, *inner.kwonlyargs]}
        self.scopes.append((node.name, local, shared))
        self.generic_visit(node)
        self.scopes.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def changed(self, node, contents):
        if not self.scopes:
            return
        while isinstance(node, (ast.Subscript, ast.Call, ast.Starred)):
            node, contents = getattr(node, 'func', None) or node.value, True
            if isinstance(node, ast.Attribute) and isinstance(node.value, (ast.Attribute, ast.Subscript)) and node.attr in MUTATORS:
                node = node.value
        if isinstance(node, (ast.Tuple, ast.List)):
            for item in node.elts:
                self.changed(item, contents)
        elif isinstance(node, ast.Attribute):
            if contents or not any(name in ('__init__', '__post_init__') for name, _, _ in self.scopes):
                self.attributes.add(node.attr)
        elif isinstance(node, ast.Name):
            if (contents and node.id in self.module and not any(node.id in local for _, local, _ in self.scopes)
                    or any(node.id in shared for _, _, shared in self.scopes)):
                self.globals.add(node.id)

    def visit_Assign(self, node):           # pylint: disable=invalid-name
        for target in getattr(node, 'targets', None) or [node.target]:
            self.changed(target, False)
        self.generic_visit(node)

    visit_AugAssign = visit_AnnAssign = visit_Assign

    def visit_Delete(self, node):           # pylint: disable=invalid-name
        for target in node.targets:
            self.changed(target, False)

    def visit_Call(self, node):             # pylint: disable=invalid-name
        if isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS:
            self.changed(node.func.value, True)
        if isinstance(node.func, ast.Name) and node.func.id == 'setattr' and len(node.args) == 3:
            if isinstance(node.args[1], ast.Constant):
                self.attributes.add(node.args[1].value)
        self.generic_visit(node)


HOT = []


def hot_lines():
    """
    {(path, line)} of the library where objects that outlive a call are changed, or looked at if they are changed elsewhere.
    """
    if not HOT:
        trees = {}
        for _, module in sorted(sys.modules.items()):
            path = getattr(module, '__file__', None)
            if path and path.startswith(LIB) and path.endswith('.py'):
                with open(path, 'rb') as file:
                    trees[path] = ast.parse(file.read())
        changes = {path: Changes(tree) for path, tree in trees.items()}
        attributes = set().union(*[change.attributes for change in changes.values()])
        shared = set().union(*[change.globals for change in changes.values()])
        HOT.append({
            (path, node.lineno) for path, tree in trees.items() for node in ast.walk(tree)
            if isinstance(node, ast.Attribute) and node.attr in attributes or isinstance(node, ast.Name) and node.id in shared
        })
    return HOT[0]


class Eager(Stepper):
    """Sees instructions, and may act at each one of a hot line."""

    def __init__(self, cap, on_cap, hot, act):
        super().__init__(True, (), cap, on_cap)
        self.hot = hot
        self.act = act

    def _local(self, frame, event, _arg):
        if event == 'opcode':
            self.steps += 1
            if (frame.f_code.co_filename, frame.f_lineno) in self.hot:
                self.act()
            if self.steps >= self.next:
                self._hit(frame)
        return self._local


class Profiler(Stepper):
    """
    Records, for every distinct place (line or instruction) of the library, at which steps it was executed:
    the first, the last, and a few in between. Switch and interruption points are then drawn uniformly
    over *places*, so that code executed once is hit as often as a hot loop.
    """
    KEEP = 8

    def __init__(self, opcodes=False, cap=None, on_cap=None):
        super().__init__(opcodes, (), cap, on_cap)
        self.places = {}
        self.counts = {}
        self.rand = rng('profile')
        self.codes = {}
        self.tables = {}

    def _local(self, frame, event, _arg):
        if event == 'line' or event == 'opcode':
            self.steps += 1
            key = (frame.f_code.co_filename, frame.f_lineno) if event == 'line' else (frame.f_code, frame.f_lasti)
            count = self.counts.get(key, 0) + 1
            if count == 1 and frame.f_code not in self.codes:
                self.codes[frame.f_code] = mutating_lines(frame.f_code)
            self.counts[key] = count
            kept = self.places.setdefault(key, [])
            if len(kept) < self.KEEP:
                kept.append(self.steps)
            else:
                slot = self.rand.randrange(count)
                if slot < self.KEEP - 1:
                    kept[slot + 1 if slot + 1 < self.KEEP else 0] = self.steps
            if self.steps >= self.next:
                self._hit(frame)
        return self._local

    def line_of(self, key):
        if isinstance(key[0], str):
            return key
        table = self.tables.get(key[0])
        if table is None:
            table = self.tables[key[0]] = {
                offset: line for start, end, line in key[0].co_lines() if line for offset in range(start, end, 2)
            }
        return key[0].co_filename, table.get(key[1], key[0].co_firstlineno)

    def lines(self):
        return {self.line_of(key) for key in self.places}

    def result(self, warm=None):
        """
        ``warm`` are lines executed when the same query is made again: what only the first one executes initialises
        something. Such places, and those that change objects, are aimed at more often.
        """
        special = {(code.co_filename, line) for code, (lines, _) in self.codes.items() for line in lines}
        both = {(code.co_filename, line) for code, (_, lines) in self.codes.items() for line in lines}
        cold = self.lines() - warm if warm is not None else ()
        lines = sorted({
            (key[0], key[1]) if isinstance(key[0], str) else (key[0].co_filename, key[0].co_firstlineno)
            for key in self.places
        })
        return {
            'steps': self.steps,
            'places': [sorted(kept) for kept in self.places.values()],
            'aim': [sorted(kept) for key, kept in self.places.items() if self.line_of(key) in special],
            'hot': [sorted(kept) for key, kept in self.places.items() if self.line_of(key) in hot_lines()],
            'both': [sorted(kept) for key, kept in self.places.items() if self.line_of(key) in both],
            'cold': [sorted(kept) for key, kept in self.places.items() if cold and self.line_of(key) in cold],
            'lines': [(path[len(LIB):], line) for path, line in lines],
        }


class Lines(Stepper):
    """Only the set of executed lines."""

    def __init__(self):
        super().__init__()
        self.seen = set()

    def _local(self, frame, event, _arg):
        if event == 'line':
            self.seen.add((frame.f_code.co_filename, frame.f_lineno))
        return self._local


def cut(profile, start, count):
    """The part of a profiled stream that produces ``count`` items from the one with number ``start`` on."""
    marks = profile['marks']
    if not marks or start == 0 and count >= len(marks) + 1:
        return profile
    first = marks[start - 1] if 0 < start <= len(marks) else 0 if not start else profile['steps']
    last = profile['steps'] if start + count > len(marks) else marks[start + count - 1] if start + count else 0

    def part(places):
        return [kept for kept in ([step - first for step in kept if first < step <= last] for kept in places) if kept]

    return dict(profile, steps=max(0, last - first), **{name: part(profile[name]) for name in ('places', 'aim', 'hot', 'both', 'cold')})


def draw_point(rand, profile):
    """
    A step of the profiled operation: at or after something that is changed or initialised, or uniform over places, or
    uniform over time.
    """
    if not profile['steps']:
        return 1
    dice = rand.random()
    if profile['cold'] and dice < 0.25:
        return rand.choice(rand.choice(profile['cold'])) + rand.randint(0, 1)
    if profile['both'] and dice < 0.3:
        return rand.choice(rand.choice(profile['both'])) + rand.randint(0, 1)
    if profile['hot'] and dice < 0.38:
        return rand.choice(rand.choice(profile['hot'])) + rand.randint(0, 1)
    if profile['aim'] and dice < 0.45:
        return rand.choice(rand.choice(profile['aim'])) + rand.randint(0, 1)
    if profile['places'] and dice < 0.8:
        return rand.choice(rand.choice(profile['places']))
    return rand.randint(1, profile['steps'])
