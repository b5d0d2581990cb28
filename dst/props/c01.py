"""C01: threads sharing one dictionary."""

from dst.base import Property, choose_dictionary, drop_from, flood, query_block, some
from dst.core import STREAMS
from dst.engine import Session
from dst.refs import load
from dst.sched import Scheduler
from dst.trace import cut, draw_point


def op_query(op):
    """(kind, word) of an operation that has them."""
    if op[0] in 'QP':
        return op[2], op[3]
    if op[0] == 'O':
        return op[3], op[4]
    return None


def op_profile(op, profiles, streams):
    """Expected steps of the operation, to aim switches at. ``streams`` are the positions of streams: {handle: [query, items taken]}"""
    if op[0] == 'Q':
        return profiles[op[2], op[3]]
    if op[0] == 'P':
        return cut(profiles[op[2], op[3]], 0, op[4])
    if op[0] == 'N' and op[2] in streams:
        stream = streams[op[2]]
        stream[1] += op[3]
        return cut(profiles[stream[0]], stream[1] - op[3], op[3])
    return None


def draw_ops(rand, queries, count, handles):
    """Operations of one thread. ``handles`` are names of streams this thread may use."""
    ops = []
    opened = []
    streams = [q for q in queries if q[0] in STREAMS]
    for _ in range(count):
        dice = rand.random()
        if dice < 0.62 or not streams:
            ops.append(['Q', 0, *rand.choice(queries)])
        elif dice < 0.75:
            ops.append(['P', 0, *rand.choice(streams), rand.randint(0, 3), rand.choice(['close', 'drop', 'throw'])])
        elif dice < 0.87 and handles:
            handle = handles.pop()
            ops.append(['O', 0, handle, *rand.choice(streams)])
            ops.append(['N', 0, handle, rand.randint(1, 2)])
            opened.append(handle)
        elif opened:
            ops.append(['N', 0, rand.choice(opened), rand.randint(1, 3)])
            if rand.random() < 0.3:
                ops.append(['E', 0, rand.choice(opened), rand.choice(['close', 'drop', 'throw'])])
    return ops or [['Q', 0, *rand.choice(queries)]]


def draw_locks(rand, count):
    """Switches after locks were acquired: [number of the acquisition, next thread]."""
    if rand.random() < 0.5:
        return []
    share = rand.choice([0.1, 0.3, 0.6])
    return [[number, rand.randrange(count)] for number in range(1, 200) if rand.random() < share]


def draw_switches(rand, threads, profiles):
    """
    Where control moves between threads. Strategies differ in density: a few switches aimed at particular
    places of the code, a switch every few steps, or anything in between.
    """
    streams = {op[2]: [(op[3], op[4]), 0] for ops in threads for op in ops if op[0] == 'O'}
    spans = []          # per thread: [(offset, profile)]
    totals = []
    for ops in threads:
        offset, span = 0, []
        for op in ops:
            profile = op_profile(op, profiles, streams)
            if profile and profile['steps']:
                span.append((offset, profile))
                offset += profile['steps']
        spans.append(span)
        totals.append(offset)
    switches = []
    strategy = rand.choice(['aimed', 'aimed', 'uniform', 'dense', 'dense'])
    count = len(threads)
    for tid, span in enumerate(spans):
        if not span:
            continue
        if strategy in ('aimed', 'uniform'):
            for _ in range(rand.choice([1, 2, 4, 10, 30])):
                offset, profile = rand.choice(span)
                step = draw_point(rand, profile) if strategy == 'aimed' else rand.randint(1, profile['steps'])
                switches.append([tid, offset + step, (tid + rand.randint(1, count - 1)) % count])
        else:
            gap = rand.choice([2, 7, 30, 150])
            limit = min(totals[tid], gap * 1500)
            start = rand.randint(0, max(0, totals[tid] - limit))
            step = start
            while step < start + limit:
                step += 1 + int(rand.expovariate(1 / gap))
                switches.append([tid, step, (tid + rand.randint(1, count - 1)) % count])
    return switches, strategy


class Threads(Property):
    id = 'C01'
    size = {'quick': (240, 12), 'thorough': (900, 12)}
    rule = ('one run: one dictionary, 2-4 threads with 1-5 operations each and an explicit list of switches drawn from the '
            'seed; distinct = distinct sequences of switches that really happened (thread, local step, next thread) per '
            'dictionary and operations; trivial = no switch happened inside the library')
    real = ['spylls (all of it)', 'CPython threads', 'CPython generators']
    stub = ['thread scheduler (switch points from the plan)', 'locks', 'time.sleep']
    assumptions = ['threads switch only between lines or bytecode instructions of spylls (calls into C code are atomic, as under '
                   'the interpreter lock)', 'step counts of the isolated reference guide where switches are aimed']

    def block(self, rand):
        return query_block(rand, self.env.refs, choose_dictionary(rand), 10)

    def plan(self, rand, block):
        key = block['dict']
        queries = some(rand, block['queries'], 2, 8)
        if not queries:
            return None
        opcodes = rand.random() < 0.3
        profiles = self.env.refs.profiles(key, queries, opcodes)
        if opcodes:
            queries = [q for q in queries if profiles[q]]
            if not queries:
                return None
        nthreads = rand.choice([2, 2, 3, 4])
        threads = []
        all_handles = [f'h{i}' for i in range(6)]
        same = rand.random() < 0.3
        for _ in range(nthreads):
            threads.append(draw_ops(rand, queries, rand.randint(1, 5), all_handles))
        if same:
            # all threads do the same thing at the same time
            threads = [[op for op in threads[0] if op[0] in 'QP'] or [['Q', 0, *queries[0]]]] * nthreads
        opened = [op[2] for ops in threads for op in ops if op[0] == 'O']
        if opened and rand.random() < 0.4:
            # a stream is passed on to another thread
            threads[rand.randrange(nthreads)].append(['N', 0, rand.choice(opened), 3])
        eager = None
        if opcodes and rand.random() < 0.5:
            if rand.random() < 0.5:
                for ops in dict.fromkeys(map(id, threads)):
                    next(t for t in threads if id(t) == ops).insert(0, flood(rand, key, rand.choice([5, 20, 60])))
            eager, switches, strategy = [rand.randrange(10 ** 9), rand.choice([0.02, 0.1, 0.3]), rand.choice([0.15, 0.4, 1])], [], 'eager'
        else:
            switches, strategy = draw_switches(rand, threads, profiles)
        return {'dicts': [key], 'threads': threads, 'switches': switches, 'opcodes': opcodes, 'strategy': strategy, 'eager': eager,
                'locks': draw_locks(rand, nthreads), 'before': [flood(rand, key)] if rand.random() < (0.25 if eager else 0.1) else []}

    def prepare(self, plan):
        queries = [q for ops in plan['threads'] for op in ops for q in [op_query(op)] if q]
        refs = self.env.refs.get(plan['dicts'][0], queries)
        cap = sum(refs[q]['profile']['steps'] for q in queries) * (10 if plan['opcodes'] else 1)
        cap += sum(op[2] * 40_000 for ops in plan['threads'] for op in ops if op[0] == 'W')
        return {'refs': refs, 'path': self.env.refs.path(plan['dicts'][0]), 'cap': cap * 20 + 300_000}

    def execute(self, plan, prepared):
        refs = prepared['refs']
        dictionary = load(prepared['path'])
        session = Session([dictionary], [refs])

        for op in plan['before']:
            session.do(op, 'before')

        def body(ops):
            def run(thread):
                for num, op in enumerate(ops):
                    session.do(op, [thread.tid, num])
                    if session.problems:
                        return
            return run

        sched = Scheduler([body(ops) for ops in plan['threads']], plan['switches'], plan['opcodes'], prepared['cap'], plan['locks'],
                          plan['eager'])
        sched.run()
        violation = None
        if sched.verdict:
            violation = {'kind': sched.verdict, 'detail': sched.detail}
        elif session.problems:
            violation = session.problems[0]
        else:
            # what concurrent use left behind
            for kind, word in refs:
                session.do(['Q', 0, kind, word], 'afterwards')
                if session.problems:
                    violation = dict(session.problems[0], kind='aftermath')
                    break
        preempted = [s for s in sched.trace if s[3] in ('preempt', 'lock')]
        faults = dict(session.fired)
        faults['switch'] = len(preempted)
        return {
            'violation': violation, 'faults': faults, 'trace': (plan['dicts'], plan['threads'], sched.trace),
            'steps': sum(t.stepper.steps for t in sched.threads), 'trivial': not preempted,
            'explicit': {'eager': None, 'switches': sched.explicit()} if plan['eager'] and violation else None,
        }

    def shrink(self, plan):
        for tid, ops in enumerate(plan['threads']):
            if len(plan['threads']) > 2 and ops:
                yield dict(plan, threads=[[] if i == tid else o for i, o in enumerate(plan['threads'])])
        for tid in range(len(plan['threads'])):
            yield from drop_from(plan, 'threads', tid)
        yield from drop_from(plan, 'before')
        yield from drop_from(plan, 'locks')
        yield from drop_from(plan, 'switches')


PROPERTY = Threads
