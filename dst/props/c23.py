"""C23: copies of a dictionary answer like the dictionary."""

import copy
import gc
import os
import pickle
import subprocess
import sys

from dst import loading
from dst.base import Property, choose_dictionary, drop_from, flood, query_block, some
from dst.cli import environment
from dst.core import STREAMS, VERIF, HarnessError, content
from dst.engine import Session
from dst.props.c01 import op_query
from dst.refs import load
from dst.sched import SimDeadlock
from dst.trace import Stepper, draw_point

WAYS = ['copy', 'deepcopy', 'pickle', 'pickle', 'pickle', 'process']


class Copies(Property):
    id = 'C23'
    size = {'quick': (160, 12), 'thorough': (1600, 16)}
    rule = ('one run: 4-40 operations on a dictionary and copies of it (queries, streams consumed in turns, floods, garbage collections, '
            'dictionaries dropped), with copies made in between or at a chosen step inside a call, by copy, deepcopy or pickle, also for '
            'another interpreter with another hash seed; distinct = distinct (dictionary, operations, copies); trivial = no copy made')
    real = ['spylls (all of it)', 'copy, pickle', 'interpreter start, hash randomization']
    stub = ['the caller and the source of signals: where copies are made is drawn from the seed']
    assumptions = ['copies inside a call are made where the interpreter looks for signals inside spylls']

    def block(self, rand):
        return query_block(rand, self.env.refs, choose_dictionary(rand), 12)

    def plan(self, rand, block):
        key = block['dict']
        queries = some(rand, block['queries'], 2, 9)
        if not queries:
            return None
        streams = [q for q in queries if q[0] in STREAMS]
        profiles = self.env.refs.profiles(key, queries, False)
        ops, count, opened = [], 1, []
        left = rand.choice([1, 1, 2, 3])
        processes = 0
        if rand.random() < 0.1:
            ops.append(flood(rand, key))
        for _ in range(rand.choice([4, 8, 16, 40])):
            d = rand.randrange(count)
            dice = rand.random()
            if dice < 0.2 and left:
                left -= 1
                way = rand.choice(WAYS)
                if way == 'process':
                    if processes:
                        way = 'pickle'
                    processes += 1
                op = ['Copy', d, way, rand.randint(2, pickle.HIGHEST_PROTOCOL), rand.randrange(1, 2 ** 32)]
                if rand.random() < 0.4:
                    kind, word = rand.choice(queries)
                    if profiles[kind, word]['steps']:
                        op = ['In', ['Q', rand.randrange(count), kind, word], draw_point(rand, profiles[kind, word]), op]
                ops.append(op)
                if way != 'process':
                    count += 1
            elif dice < 0.35 and streams:
                opened.append(f's{len(opened)}')
                ops.append(['O', d, opened[-1], *rand.choice(streams)])
            elif dice < 0.55 and opened:
                ops.append(['N', 0, rand.choice(opened), rand.choice([1, 1, 2, 5])])
            elif dice < 0.6:
                ops.append(['GC'])
            elif dice < 0.64 and count > 1:
                ops.append(['Drop', d])
            else:
                ops.append(['Q', d, *rand.choice(queries)])
        return {'dicts': [key], 'ops': ops, 'queries': [list(q) for q in queries]}

    def prepare(self, plan):
        queries = [tuple(q) for q in plan['queries']]
        queries += [q for op in plan['ops'] for q in [op_query(op[1] if op[0] == 'In' else op)] if q]
        key = plan['dicts'][0]
        reference = self.env.memo(('c23', key), lambda: loading.reference(
            os.path.join(self.env.scratch.root, 'c23'), *loading.bytes_of(key)))
        return {'refs': self.env.refs.get(key, queries), 'path': self.env.refs.path(key), 'content': reference[0] and reference[0][0],
                'folder': self.env.scratch.root}

    def execute(self, plan, prepared):
        session = Session([load(prepared['path'])], [prepared['refs']])
        self.made = 0                                   # pylint: disable=attribute-defined-outside-init
        for num, op in enumerate(plan['ops']):
            self.step(session, prepared, op, num)
            if session.problems:
                break
        if not session.problems:
            for handle in list(session.streams):
                session.do(['N', 0, handle, 1000], 'rest of ' + handle)
            for d, dictionary in enumerate(session.dictionaries):
                if dictionary is not None:
                    for kind, word in prepared['refs']:
                        session.do(['Q', d, kind, word], 'afterwards')
        return {'violation': session.problems[0] if session.problems else None, 'faults': session.fired,
                'trace': (plan['dicts'], plan['ops']), 'steps': session.done, 'trivial': not self.made}

    def step(self, session, prepared, op, num):
        if op[0] == 'Copy':
            self.copy(session, prepared, op, num)
        elif op[0] == 'In':
            _, outer, at, inner = op
            if self.gone(session, outer):
                return
            deadlock = []

            def fire(_frame):
                try:
                    self.copy(session, prepared, inner, num)
                except SimDeadlock as exc:
                    deadlock.append(exc)
                    raise

            stepper = Stepper(False, [(at, fire)], signals=True)
            stepper.start()
            try:
                session.do(outer, num)
            finally:
                stepper.stop()
            if deadlock:
                raise deadlock[0]
        elif op[0] == 'Drop':
            if op[1] < len(session.dictionaries) and sum(d is not None for d in session.dictionaries) > 1:
                session.count('dictionary dropped')
                session.dictionaries[op[1]] = None
        elif not self.gone(session, op):
            session.do(op, num)

    def gone(self, session, op):
        return op[0] in 'QOW' and (op[1] >= len(session.dictionaries) or session.dictionaries[op[1]] is None)

    def copy(self, session, prepared, op, num):
        _, d, way, protocol, hashseed = op
        if d >= len(session.dictionaries) or session.dictionaries[d] is None:
            return
        original = session.dictionaries[d]
        self.made += 1
        session.count(way)
        try:
            if way == 'copy':
                res = copy.copy(original)
            elif way == 'deepcopy':
                res = copy.deepcopy(original)
            else:
                data = pickle.dumps(original, protocol)
                if way == 'process':
                    self.elsewhere(session, prepared, op, data, hashseed, num)
                    return
                res = pickle.loads(data)
        except (SimDeadlock, HarnessError):
            raise
        except Exception as exc:                        # pylint: disable=broad-except
            session.problem('copy', op, 'a copy', f'{type(exc).__name__}: {exc}', num)
            return
        session.dictionaries.append(res)
        session.refs.append(prepared['refs'])
        if prepared['content'] is not None and content(res) != prepared['content']:
            session.problem('content', op, None, loading.first_difference(prepared['content'], content(res)), num)

    def elsewhere(self, session, prepared, op, data, hashseed, num):
        queries = list(prepared['refs'])
        env = environment(hashseed)
        proc = subprocess.run([sys.executable, '-m', 'dst.props.c23'], input=pickle.dumps((data, queries)), env=env, cwd=VERIF,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, check=False)
        try:
            loaded, answers = pickle.loads(proc.stdout)
        except Exception as exc:                        # pylint: disable=broad-except
            session.problem('process', op, 'answers', proc.stderr.decode(errors='replace')[-500:], num)
            del exc
            return
        if prepared['content'] is not None and loaded != prepared['content']:
            session.problem('content', op, None, loading.first_difference(prepared['content'], loaded), num)
            return
        for (kind, word), answer in zip(queries, answers):
            if answer != prepared['refs'][kind, word]['answer']:
                session.problem('answer', ['Q', 'in the other process', kind, word], prepared['refs'][kind, word]['answer'], answer, num)
                return

    def shrink(self, plan):
        yield from drop_from(plan, 'ops')
        yield from drop_from(plan, 'queries')
        for num, op in enumerate(plan['ops']):
            if op[0] == 'In':
                yield dict(plan, ops=[*plan['ops'][:num], op[3], *plan['ops'][num + 1:]])
            elif op[0] == 'W' and op[2] > 1:
                yield dict(plan, ops=[*plan['ops'][:num], [*op[:2], op[2] // 2, *op[3:]], *plan['ops'][num + 1:]])


def main():
    """The other process: gets a pickled dictionary, answers queries."""
    from dst import sched
    from dst.core import query
    sched.install_locks()
    gc.disable()
    out = os.dup(1)
    os.dup2(2, 1)
    data, queries = pickle.load(sys.stdin.buffer)
    dictionary = pickle.loads(data)
    res = content(dictionary), [query(dictionary, kind, word) for kind, word in queries]
    with os.fdopen(out, 'wb') as file:
        pickle.dump(res, file)


PROPERTY = Copies

if __name__ == '__main__':
    main()
