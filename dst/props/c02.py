"""C02: answers do not depend on history or on interleaved consumption of streams."""

from dst.base import Property, choose_dictionary, drop_from, flood, query_block, some
from dst.core import STREAMS, digest
from dst.engine import Session
from dst.props.c01 import op_query
from dst.refs import load


class History(Property):
    id = 'C02'
    size = {'quick': (140, 14), 'thorough': (1600, 20)}
    rule = ('one run: 5-60 operations (queries, streams opened, pulled one by one in any interleaving, closed, dropped or '
            'thrown into, garbage collections, floods of hundreds of other queries; sometimes in turns by several threads or contexts) on '
            'one dictionary; distinct = distinct '
            'sequences of operations per dictionary; trivial = fewer than two operations')
    real = ['spylls (all of it)', 'CPython generators', 'garbage collector (run at chosen points only)']
    stub = ['the caller: order of operations, pulls, closes and collections is drawn from the seed']

    def block(self, rand):
        return query_block(rand, self.env.refs, choose_dictionary(rand), 24)

    def plan(self, rand, block):
        key = block['dict']
        queries = some(rand, block['queries'], 3, 14)
        if not queries:
            return None
        streams = [q for q in queries if q[0] in STREAMS]
        ops, opened, count = [], [], 0
        mode = rand.choice(['mixed', 'mixed', 'streams', 'queries', 'flood'])
        for _ in range(rand.choice([5, 12, 25, 60])):
            dice = rand.random()
            if mode == 'queries' or not streams or (dice < 0.35 and mode != 'streams'):
                ops.append(['Q', 0, *rand.choice(queries)])
            elif dice < 0.45:
                ops.append(['P', 0, *rand.choice(streams), rand.randint(0, 4), rand.choice(['close', 'drop', 'throw'])])
            elif dice < 0.6 and len(opened) < 6:
                handle, count = f's{count}', count + 1
                # often the same word twice: two streams with equal state
                query = rand.choice(streams)
                ops.append(['O', 0, handle, *query])
                opened.append(handle)
            elif opened and dice < 0.9:
                ops.append(['N', 0, rand.choice(opened), rand.choice([1, 1, 2, 5])])
            elif opened and dice < 0.96:
                handle = opened.pop(rand.randrange(len(opened)))
                ops.append(['E', 0, handle, rand.choice(['close', 'drop', 'throw'])])
            else:
                ops.append(['GC'])
        if mode == 'flood':
            for _ in range(rand.randint(1, 2)):
                ops.insert(rand.randrange(len(ops) + 1), flood(rand, key))
        if rand.random() < 0.3:
            # who asks, or goes on with a stream, is not always the same
            kind, share = rand.choice('HV'), rand.choice([0.2, 0.6, 0.9])
            ops = [[kind, rand.choice([-1, 0, 0, 1, 2]), op] if rand.random() < share else op for op in ops]
        return {'dicts': [key], 'ops': ops, 'mode': mode, 'queries': [list(q) for q in queries]}

    def prepare(self, plan):
        queries = [q for op in plan['ops'] for q in [op_query(op[2] if op[0] in 'HV' else op)] if q]
        queries += [tuple(q) for q in plan['queries']]
        return {'refs': self.env.refs.get(plan['dicts'][0], queries), 'path': self.env.refs.path(plan['dicts'][0])}

    def execute(self, plan, prepared):
        refs = prepared['refs']
        session = Session([load(prepared['path'])], [refs])
        for num, op in enumerate(plan['ops']):
            session.do(op, num)
            if session.problems:
                break
        violation = session.problems[0] if session.problems else None
        if violation is None:
            # whatever is still open is consumed to its end, then every query is asked once more
            for handle in list(session.streams):
                session.do(['N', 0, handle, 1000], 'rest of ' + handle)
            for kind, word in refs:
                session.do(['Q', 0, kind, word], 'afterwards')
            violation = session.problems[0] if session.problems else None
        return {'violation': violation, 'faults': session.fired, 'trace': (plan['dicts'], plan['ops']),
                'steps': session.done, 'trivial': len(plan['ops']) < 2}

    def shrink(self, plan):
        yield from drop_from(plan, 'ops')
        yield from drop_from(plan, 'queries')
        for num, op in enumerate(plan['ops']):
            if op[0] in 'HV':
                yield dict(plan, ops=[op[2] if i == num else o for i, o in enumerate(plan['ops'])])
            if op[0] == 'W' and op[2] > 1:
                yield dict(plan, ops=[[*op[:2], op[2] // 2, *op[3:]] if i == num else o for i, o in enumerate(plan['ops'])])


PROPERTY = History
