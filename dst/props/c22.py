"""C22: the library may be used from inside of one of its own calls."""

import os
import pickle

from dst import loading
from dst.base import Property, choose_dictionary, drop_from, flood, query_block, some
from dst.core import QUERY_KINDS, STREAMS, canon, content
from dst.engine import Session
from dst.refs import load
from dst.sched import SimDeadlock
from dst.trace import Stepper, cut, draw_point


class Child:
    """The process this one forked, and the pipe it reports through."""

    def __init__(self):
        self.pid = None
        self.pipe = None
        self.inside = False

    def fork(self):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            self.inside, self.pipe = True, wfd
        else:
            os.close(wfd)
            self.pid, self.pipe = pid, rfd

    def report(self, violation):
        """End of the forked process."""
        try:
            with os.fdopen(self.pipe, 'wb') as file:
                pickle.dump(violation, file)
        finally:
            os._exit(0)

    def result(self):
        with os.fdopen(self.pipe, 'rb') as file:
            data = file.read()
        os.waitpid(self.pid, 0)
        self.pid = None
        if not data:
            return {'kind': 'crash', 'detail': 'the forked process died'}
        return pickle.loads(data)


class Reentrancy(Property):
    id = 'C22'
    size = {'quick': (140, 16), 'thorough': (1600, 20)}
    rule = ('one run: 1-4 outer calls (query, stream, load), each with 1-3 chosen steps inside the library at which a handler makes complete '
            'calls of its own (queries, streams, loads) or the process forks and both go on; distinct = distinct (dictionary, calls, steps, '
            'inner calls); trivial = no inner call happened')
    real = ['spylls (all of it)', 'fork']
    stub = ['source of the signals (trace events run the handler at the planned step)', 'locks (a wait for oneself is detected)']
    assumptions = ['handlers run where the interpreter looks for signals inside spylls; they do not touch the stream that is being advanced',
                   'no fork while a file is being read: the position in it belongs to both processes']

    def block(self, rand):
        block = query_block(rand, self.env.refs, choose_dictionary(rand), 12)
        key = block['dict']
        block['load'] = self.env.memo(('c22 load', key), lambda: loading.profile('files', self.env.refs.path(key)))
        return block

    def plan(self, rand, block):
        key = block['dict']
        queries = some(rand, block['queries'], 2, 8)
        if not queries:
            return None
        profiles = {flag: self.env.refs.profiles(key, queries, flag) for flag in (False, True)}
        calls = []
        forked = False
        for _ in range(rand.choice([1, 1, 2, 4])):
            opcodes = False
            if rand.random() < 0.12:
                outer, profile = ['LD'], block['load']
            else:
                kind, word = rand.choice(queries)
                outer = ['Q', 0, kind, word]
                if kind in STREAMS and rand.random() < 0.3:
                    outer = ['P', 0, kind, word, rand.randint(1, 3), 'drop']
                opcodes = rand.random() < 0.35 and profiles[True][kind, word] is not None
                profile = profiles[opcodes][kind, word]
                if outer[0] == 'P':
                    profile = cut(profile, 0, outer[4])
            if not profile['steps']:
                continue
            points = []
            for _ in range(rand.choice([1, 1, 2, 3])):
                inner = []
                for _ in range(rand.choice([1, 1, 2])):
                    dice = rand.random()
                    same = outer[2:4] if outer[0] != 'LD' and rand.random() < 0.4 else rand.choice(queries)
                    if dice < 0.1:
                        inner.append(['LD'])
                    elif dice < 0.2 and not forked and outer[0] != 'LD':
                        forked = True
                        inner.append(['Fork'])
                    elif dice < 0.4 and same[0] in STREAMS:
                        inner.append(['P', 0, *same, rand.randint(0, 3), rand.choice(['close', 'drop', 'throw'])])
                    else:
                        inner.append(['Q', 0, *same])
                points.append([draw_point(rand, profile), inner])
            calls.append([outer, points, opcodes])
        return {'dicts': [key], 'before': [flood(rand, key)] if rand.random() < 0.1 else [], 'calls': calls, 'queries': [list(q) for q in queries]}

    def prepare(self, plan):
        queries = [tuple(q) for q in plan['queries']]
        for outer, points, _ in plan['calls']:
            for op in [outer, *(op for _, inner in points for op in inner)]:
                if op[0] in 'QP':
                    queries.append((op[2], op[3]))
        key = plan['dicts'][0]
        path = self.env.refs.path(key)
        reference = self.env.memo(('c22', key), lambda: loading.reference(
            os.path.join(self.env.scratch.root, 'c22'), *loading.bytes_of(key)))
        return {'refs': self.env.refs.get(key, queries), 'path': path, 'content': reference[0] and reference[0][0]}

    def execute(self, plan, prepared):
        refs = prepared['refs']
        session = Session([load(prepared['path'])], [refs])
        self.child = Child()                            # pylint: disable=attribute-defined-outside-init
        self.happened = 0                               # pylint: disable=attribute-defined-outside-init
        violation = None
        try:
            for op in plan['before']:
                session.do(op, 'before')
            for num, (outer, points, opcodes) in enumerate(plan['calls']):
                self.call(session, prepared, outer, points, opcodes, num)
                if session.problems:
                    break
            if not session.problems:
                for kind, word in refs:
                    session.do(['Q', 0, kind, word], 'afterwards')
            violation = session.problems[0] if session.problems else None
        except SimDeadlock as exc:
            violation = {'kind': 'deadlock', 'detail': str(exc)}
        finally:
            if self.child.inside:
                self.child.report(violation)
        if self.child.pid is not None:
            inside = self.child.result()
            if inside and not violation:
                violation = dict(inside, process='forked')
        return {'violation': violation, 'faults': session.fired, 'trace': (plan['dicts'], plan['calls']),
                'steps': session.done, 'trivial': not self.happened}

    def call(self, session, prepared, outer, points, opcodes, num):
        deadlock = []

        def handler(step, inner):
            def fire(_frame):
                for op in inner:
                    self.happened += 1
                    try:
                        self.inner(session, prepared, op, [num, step])
                    except SimDeadlock as exc:
                        deadlock.append(exc)
                        raise
            return fire

        stepper = Stepper(opcodes, [(step, handler(step, inner)) for step, inner in points], signals=True)
        stepper.start()
        try:
            if outer[0] == 'LD':
                self.load(session, prepared, outer, num)
            else:
                self.outer(session, outer, num)
        finally:
            stepper.stop()
        if deadlock:
            raise deadlock[0]

    def outer(self, session, op, num):
        """The call, without touching the session's own bookkeeping from traced code."""
        _, d, kind, word, *rest = op
        limit = rest[0] if op[0] == 'P' else None
        expected = session.expected(d, kind, word)
        items, value, raised = [], None, None
        try:
            res = QUERY_KINDS[kind](session.dictionaries[d], word)
            if kind in STREAMS:
                for item in res:
                    items.append(item)
                    if limit is not None and len(items) >= limit:
                        break
            else:
                value = res
        except Exception as exc:                        # pylint: disable=broad-except
            raised = type(exc).__name__
        res = None
        if kind in STREAMS:
            whole = canon(items)
            if limit is not None and raised is None and whole == expected[1][:limit]:
                return
            got = ['seq', whole, raised]
        else:
            got = ['val', [] if raised else canon(value), raised]
        if got != expected:
            session.problem('answer', op, expected, got, num)

    def load(self, session, prepared, op, where):
        try:
            got = content(load(prepared['path']))
        except Exception as exc:                        # pylint: disable=broad-except
            session.problem('load', op, 'loaded', type(exc).__name__, where)
            return
        if prepared['content'] is not None and got != prepared['content']:
            session.problem('load', op, None, loading.first_difference(prepared['content'], got), where)

    def inner(self, session, prepared, op, where):
        if op[0] == 'Fork':
            session.count('fork inside a call')
            self.child.fork()
        elif op[0] == 'LD':
            session.count('load inside a call')
            self.load(session, prepared, op, where)
        else:
            session.count('query inside a call')
            session.do(op, where)

    def shrink(self, plan):
        yield from drop_from(plan, 'before')
        yield from drop_from(plan, 'calls')
        yield from drop_from(plan, 'queries')
        for num in range(len(plan['calls'])):
            if len(plan['calls'][num][1]) > 1:
                yield from drop_from(plan, 'calls', num, 1)
            for pos in range(len(plan['calls'][num][1])):
                if len(plan['calls'][num][1][pos][1]) > 1:
                    yield from drop_from(plan, 'calls', num, 1, pos, 1)


PROPERTY = Reentrancy
