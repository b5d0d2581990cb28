"""C03: interrupted queries."""

from dst.base import Property, choose_dictionary, drop_from, flood, query_block, some
from dst.core import STREAMS
from dst.engine import INTERRUPTIONS, Session
from dst.props.c01 import op_query
from dst.refs import load
from dst.trace import cut, draw_point


class Interruption(Property):
    id = 'C03'
    size = {'quick': (140, 20), 'thorough': (1600, 24)}
    rule = ('one run: 1-8 queries on one dictionary, some of them interrupted at a chosen step inside the library (uniform over '
            'executed places or over time) or by stack exhaustion, sometimes hundreds of times, sometimes while other streams are open, then '
            'all queries again; distinct = distinct (dictionary, '
            'queries, interruption points) sequences; trivial = no interruption fired')
    real = ['spylls (all of it)']
    stub = ['source of the interruptions (trace events raise the exception at the planned step)']
    assumptions = ['interruptions strike where the interpreter looks for signals (start of functions, generators that go on, after calls '
                   'of builtins, loops that go round) inside spylls, or at the recursion limit']

    def block(self, rand):
        return query_block(rand, self.env.refs, choose_dictionary(rand), 12)

    def plan(self, rand, block):
        key = block['dict']
        queries = some(rand, block['queries'], 2, 8)
        if not queries:
            return None
        profiles = {flag: self.env.refs.profiles(key, queries, flag) for flag in (False, True)}
        ops = []
        exc_pool = rand.sample(sorted(INTERRUPTIONS), rand.randint(1, 3))
        for _ in range(rand.choice([1, 2, 4, 8])):
            kind, word = rand.choice(queries)
            inner = ['Q', 0, kind, word]
            if kind in STREAMS and rand.random() < 0.3:
                inner = ['P', 0, kind, word, rand.randint(1, 3), 'drop']
            dice = rand.random()
            if dice < 0.75:
                opcodes = rand.random() < 0.4 and profiles[True][kind, word] is not None
                profile = profiles[opcodes][kind, word]
                if inner[0] == 'P':
                    profile = cut(profile, 0, inner[4])
                if not profile['steps']:
                    continue
                ops.append(['I', inner, draw_point(rand, profile), rand.choice(exc_pool), opcodes])
            elif dice < 0.85:
                ops.append(['R', inner, rand.randint(1, 40)])
            else:
                ops.append(['Q', 0, kind, word])
        streams = [q for q in queries if q[0] in STREAMS]
        if streams and rand.random() < 0.3:
            # others are open meanwhile, and go on afterwards
            for num in range(rand.randint(1, 3)):
                start = rand.randrange(len(ops) + 1)
                ops.insert(start, ['O', 0, f's{num}', *rand.choice(streams)])
                for _ in range(rand.randint(0, 2)):
                    start = rand.randint(start + 1, len(ops))
                    ops.insert(start, ['N', 0, f's{num}', rand.choice([1, 1, 2])])
        if rand.random() < 0.1:
            ops.insert(rand.randrange(len(ops) + 1), flood(rand, key))
        if rand.random() < 0.1:
            # what is left behind may matter only if it adds up
            ops.append(['T', 0, rand.choice([30, 120, 300]), rand.randrange(10 ** 6), rand.choice(exc_pool)])
        return {'dicts': [key], 'ops': ops, 'queries': [list(q) for q in queries]}

    def prepare(self, plan):
        queries = [q for op in plan['ops'] for q in [op_query(op[1] if op[0] in 'IR' else op)] if q]
        queries += [tuple(q) for q in plan['queries']]
        return {'refs': self.env.refs.get(plan['dicts'][0], queries), 'path': self.env.refs.path(plan['dicts'][0])}

    def execute(self, plan, prepared):
        refs = prepared['refs']
        session = Session([load(prepared['path'])], [refs])
        for num, op in enumerate(plan['ops']):
            session.do(op, num)
            if session.problems:
                break
        violation = session.problems[0] if session.problems else None
        if violation is None:
            for handle in list(session.streams):
                session.do(['N', 0, handle, 1000], 'rest of ' + handle)
            for kind, word in refs:
                session.do(['Q', 0, kind, word], 'afterwards')
            violation = dict(session.problems[0], kind='aftermath') if session.problems else None
        return {'violation': violation, 'faults': session.fired, 'trace': (plan['dicts'], plan['ops']),
                'steps': session.done, 'trivial': not session.fired}

    def shrink(self, plan):
        yield from drop_from(plan, 'ops')
        yield from drop_from(plan, 'queries')
        for num, op in enumerate(plan['ops']):
            if op[0] in 'TW' and op[2] > 1:
                yield dict(plan, ops=[[*op[:2], op[2] * 3 // 4, *op[3:]] if i == num else o for i, o in enumerate(plan['ops'])])


PROPERTY = Interruption
