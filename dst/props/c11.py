"""C11: dictionaries of one process are independent and fresh."""

import os

from dst import loading
from dst.base import Property, choose_dictionary, drop_from, pick_queries, some
from dst.core import STREAMS, HarnessError, content, rng
from dst.engine import INTERRUPTIONS, Session
from dst.props.c01 import draw_locks, op_query
from dst.sched import Scheduler
from dst.simio import SimIO
from dst.trace import Stepper, draw_point

STAMP = 1_600_000_000
PATHS = 3
MALFORMED = [
    (b'SET no-such-encoding\n', b'1\nword\n'),
    (b'FLAG num\nSFX x Y 1\nSFX x 0 s .\n', b'1\nword/x\n'),
    (b'SFX A Y many\n', b'1\nword/A\n'),
    (b'SET UTF-8\nREP 2\nREP a b\nREP c d\nMAP 1\n', b'1\n\xff\xfe\xff\n'),
    (b'AF 1\nAF AB\n', b'1\nword/77\n'),
    (b'SET UTF-8\nREP 1\nREP (', b'1\nword ph:(->\n'),
]


class Independence(Property):
    id = 'C11'
    size = {'quick': (144, 10), 'thorough': (1200, 14)}
    rule = ('one run of mode history: 10-60 operations on up to 10 dictionaries of one process (write or replace a version of the files '
            'at one of three paths, load, failing load, query, open and consume streams, drop, collect garbage); one run of mode '
            'threads: 2-3 threads load and query at the same time with an explicit list of switches; distinct = distinct (versions, '
            'operations, switches); trivial = fewer than two loads')
    real = ['spylls (all of it)', 'files and archives in a scratch folder', 'CPython threads']
    stub = ['the caller, the writer of the files and its clock', 'thread scheduler', 'source of faults in failing loads']
    assumptions = ['files change between loads, not during one (that is C08)']

    happened = None

    # -- choice

    def block(self, rand):
        keys = []
        base = choose_dictionary(rand, fixtures=0.4)
        keys = [base, f'var:1:{base}', f'var:2:{base}']
        if rand.random() < 0.5:
            keys.append(choose_dictionary(rand, fixtures=0.4))
        queries = pick_queries(rand, self.env.refs, rand.choice(keys), 14)
        queries += pick_queries(rand, self.env.refs, rand.choice(keys), 10, 'L')
        queries = list(dict.fromkeys(queries))
        keys = [key for key in keys if self.usable(key)]
        if len(keys) < 2:
            raise HarnessError(f'no versions of {base}')
        found = [self.env.refs.get(key, queries) for key in keys]
        queries = [q for q in queries if all(refs[q] for refs in found)]
        return {'keys': keys, 'queries': queries}

    def usable(self, key):
        return self.reference(key) is not None

    def reference(self, key):
        folder = os.path.join(self.env.scratch.root, 'c11-' + key.replace(':', '-'))
        res = self.env.memo(('c11', key), lambda: loading.reference(folder, *loading.bytes_of(key)))[0]
        return res[0] if res else None

    def plan(self, rand, block):
        if not block['queries']:
            return None
        if rand.random() < 0.3:
            return self.plan_threads(rand, block)
        return self.plan_history(rand, block)

    def plan_history(self, rand, block):
        queries = some(rand, block['queries'], 3, 16)
        streams = [q for q in queries if q[0] in STREAMS]
        keys = block['keys']
        ops, alive, opened, count, handles = [], [], [], 0, 0
        state = {}
        for path in range(PATHS):
            if path == 0 or rand.random() < 0.6:
                state[path] = rand.choice(keys)
                ops.append(['put', path, rand.choice(loading.CONTAINERS), state[path], 'replace', True])
        for _ in range(rand.choice([10, 25, 60])):
            dice = rand.random()
            if dice < 0.16 or not alive:
                ops.append(['load', count, rand.choice(sorted(state))])
                alive.append(count)
                count += 1
                if len(alive) > 6:
                    ops.append(['drop', alive.pop(rand.randrange(len(alive)))])
            elif dice < 0.28:
                path = rand.randrange(PATHS)
                state[path] = rand.choice(keys)
                ops.append(['put', path, rand.choice(loading.CONTAINERS), state[path],
                            rand.choice(['replace', 'inplace']), rand.random() < 0.6])
                # often it is loaded again right after that
                if rand.random() < 0.6:
                    ops.append(['load', count, path])
                    alive.append(count)
                    count += 1
            elif dice < 0.36:
                ops.append(['fail', rand.choice(['missing', 'malformed', 'cut', 'error', 'interrupted']),
                            rand.choice(sorted(state)), rand.randrange(10 ** 6)])
            elif dice < 0.72:
                # the same query to several dictionaries
                query = rand.choice(queries)
                for slot in some(rand, alive, 1, 3):
                    ops.append(['Q', slot, *query])
            elif dice < 0.78 and streams:
                query = rand.choice(streams)
                for slot in some(rand, alive, 1, 2):
                    ops.append(['O', slot, f's{handles}', *query])
                    opened.append((slot, f's{handles}'))
                    handles += 1
            elif dice < 0.88 and opened:
                slot, handle = rand.choice(opened)
                ops.append(['N', slot, handle, rand.choice([1, 1, 2, 5])])
            elif dice < 0.92:
                ops.append(['look', rand.choice(alive)])
            elif dice < 0.97:
                ops.append(['drop', alive.pop(rand.randrange(len(alive)))])
            else:
                ops.append(['GC'])
        return {'dicts': keys, 'mode': 'history', 'ops': ops, 'queries': [list(q) for q in queries]}

    def plan_threads(self, rand, block):
        queries = some(rand, block['queries'], 2, 6)
        keys = block['keys']
        setup = []
        state = {}
        for path in range(PATHS):
            state[path] = (rand.choice(keys), rand.choice(loading.CONTAINERS))
            setup.append(['put', path, state[path][1], state[path][0], 'replace', True])
        shared = rand.random() < 0.5
        if shared:
            setup.append(['load', 0, 0])
        opcodes = rand.random() < 0.18
        threads, spans = [], []
        count = 1
        for _ in range(rand.choice([2, 2, 3])):
            ops, mine, span, offset = [], [], [], 0
            for _ in range(rand.randint(1, 4)):
                if not mine and not shared or rand.random() < 0.5:
                    path = rand.randrange(PATHS)
                    ops.append(['load', count, path])
                    mine.append((count, state[path][0]))
                    count += 1
                    profile = self.load_profile(*state[path], opcodes)
                else:
                    slot, key = rand.choice(mine + ([(0, state[0][0])] if shared else []))
                    query = rand.choice(queries)
                    ops.append(['Q', slot, *query])
                    profile = self.env.refs.profiles(key, [query], opcodes)[query]
                if profile and profile['steps']:
                    span.append((offset, profile))
                    offset += profile['steps']
            threads.append(ops)
            spans.append(span)
        switches, eager = [], None
        if opcodes and rand.random() < 0.5:
            eager, spans = [rand.randrange(10 ** 9), rand.choice([0.02, 0.1, 0.3]), rand.choice([0.15, 0.4, 1])], []
        dense = rand.random() < 0.3
        for tid, span in enumerate(spans):
            if not span:
                continue
            if dense:
                gap, step, total = rand.choice([3, 20, 150]), 0, span[-1][0] + span[-1][1]['steps']
                while step < min(total, gap * 1200):
                    step += 1 + int(rand.expovariate(1 / gap))
                    switches.append([tid, step, (tid + rand.randint(1, len(threads) - 1)) % len(threads)])
            else:
                for _ in range(rand.choice([1, 2, 5, 15])):
                    offset, profile = rand.choice(span)
                    switches.append([tid, offset + draw_point(rand, profile), (tid + rand.randint(1, len(threads) - 1)) % len(threads)])
        return {'dicts': keys, 'mode': 'threads', 'setup': setup, 'threads': threads, 'switches': switches, 'opcodes': opcodes,
                'eager': eager, 'locks': draw_locks(rand, len(threads)),
                'queries': [list(q) for q in queries]}

    def load_profile(self, key, container, opcodes):
        def compute():
            folder = os.path.join(self.env.scratch.root, 'c11-profile')
            return loading.profile(container, loading.build(folder, *loading.bytes_of(key), container), opcodes)
        return self.env.memo(('c11 profile', key, container, opcodes), compute)

    # -- execution

    def prepare(self, plan):
        ops = plan['ops'] if plan['mode'] == 'history' else [op for ops in plan['threads'] for op in ops]
        queries = [tuple(q) for q in plan['queries']] + [q for op in ops if op[0] in 'QO' for q in [op_query(op)]]
        return {'folder': os.path.join(self.env.scratch.root, 'c11-run'),
                'refs': {key: self.env.refs.get(key, queries) for key in plan['dicts']},
                'content': {key: self.reference(key) for key in plan['dicts']}}

    def execute(self, plan, prepared):
        os.makedirs(prepared['folder'], exist_ok=True)
        for name in os.listdir(prepared['folder']):
            os.unlink(os.path.join(prepared['folder'], name))
        world = World(prepared)
        if plan['mode'] == 'history':
            trace, switched = plan['ops'], 0
            self.perform(world, plan['ops'])
        else:
            trace, switched = self.concurrently(world, plan)
        if not world.problems:
            world.review([tuple(q) for q in plan['queries']])
        faults = dict(world.session.fired)
        if switched:
            faults['switch'] = switched
        return {'violation': world.problems[0] if world.problems else None, 'faults': faults,
                'trace': (plan['dicts'], trace), 'steps': world.done, 'trivial': world.loads < 2,
                'explicit': {'eager': None, 'switches': self.happened} if plan.get('eager') and world.problems else None,
                'extra': {'loads': world.loads, 'changes of files': world.puts}}

    def perform(self, world, ops, where=None):
        for num, op in enumerate(ops):
            world.do(op, num if where is None else [where, num])
            if world.problems:
                return

    def concurrently(self, world, plan):
        self.perform(world, plan['setup'], 'setup')
        if world.problems:
            return 'setup', 0
        bodies = [lambda thread, ops=ops: self.perform(world, ops, thread.tid) for ops in plan['threads']]
        sched = Scheduler(bodies, plan['switches'], plan['opcodes'], 20_000_000, plan['locks'], plan['eager'])
        sched.run()
        if sched.verdict:
            world.session.problems.append({'kind': sched.verdict, 'detail': sched.detail})
        self.happened = sched.explicit()
        return (plan['threads'], sched.trace), len([s for s in sched.trace if s[3] in ('preempt', 'lock')])

    def shrink(self, plan):
        if plan['mode'] == 'history':
            yield from drop_from(plan, 'ops')
        else:
            for tid in range(len(plan['threads'])):
                yield from drop_from(plan, 'threads', tid)
            yield from drop_from(plan, 'locks')
            yield from drop_from(plan, 'switches')
        yield from drop_from(plan, 'queries')


class World:
    """Files, and dictionaries loaded from them."""

    def __init__(self, prepared):
        self.folder = prepared['folder']
        self.refs = prepared['refs']
        self.content = prepared['content']
        self.files = {}             # path number -> (container, key)
        self.keys = {}              # slot -> key
        self.session = Session({}, {})
        self.loads = self.puts = self.done = 0
        self.sim = SimIO([self.folder], rand=rng('reads')).install()

    @property
    def problems(self):
        return self.session.problems

    def path(self, number):
        container = self.files[number][0]
        return os.path.join(self.folder, f'd{number}' + ('' if container == 'files' else '.zip'))

    def do(self, op, where):
        self.done += 1
        name = op[0]
        if name in ('put', 'load', 'fail', 'look', 'drop'):
            getattr(self, name)(op, where)
        elif name == 'GC' or name in 'NE' or self.session.dictionaries.get(op[1]) is not None:
            self.session.do(op, where)

    def put(self, op, _where):
        _, number, container, key, how, stamped = op
        self.puts += 1
        self.session.count('files ' + ('replaced' if how == 'replace' else 'rewritten'))
        self.files[number] = (container, key)
        aff, dic = loading.bytes_of(key)
        name = f'd{number}'
        if container == 'files':
            written = {name + '.aff': aff, name + '.dic': dic}
            for file, data in written.items():
                path = os.path.join(self.folder, file)
                if how == 'replace':
                    loading.put(path, data)
                else:
                    with open(path, 'wb') as target:
                        target.write(data)
        else:
            path = os.path.join(self.folder, name + '.zip')
            written = [name + '.zip']
            if how == 'replace':
                loading.archive(path, {'xx.aff': aff, 'xx.dic': dic}, container)
            else:
                loading.archive(path + '.tmp', {'xx.aff': aff, 'xx.dic': dic}, container)
                with open(path + '.tmp', 'rb') as source, open(path, 'wb') as target:
                    target.write(source.read())
                os.unlink(path + '.tmp')
        for file in written:
            if stamped:
                os.utime(os.path.join(self.folder, file), (STAMP, STAMP))

    def load(self, op, where):
        _, slot, number = op
        if number not in self.files:
            return
        container, key = self.files[number]
        try:
            dictionary = loading.load(container, self.path(number))
        except Exception as exc:                        # pylint: disable=broad-except
            self.problems.append({'kind': 'load', 'op': op, 'where': where, 'version': key, 'got': f'{type(exc).__name__}: {exc}'})
            return
        self.loads += 1
        self.keys[slot] = key
        self.session.dictionaries[slot] = dictionary
        self.session.refs[slot] = self.refs[key]
        if where is None or not isinstance(where, list):
            self.look(['look', slot], where)

    def look(self, op, where):
        slot = op[1]
        dictionary = self.session.dictionaries.get(slot)
        if dictionary is None:
            return
        got = content(dictionary)
        expected = self.content[self.keys[slot]]
        if got != expected:
            self.problems.append({'kind': 'content', 'op': op, 'where': where, 'version': self.keys[slot],
                                  'difference': loading.first_difference(expected, got)})

    def drop(self, op, _where):
        self.session.dictionaries.pop(op[1], None)

    def fail(self, op, _where):
        """A load that fails; whether it does is not the question here."""
        _, what, number, draw = op
        rand = rng('failing load', draw)
        self.session.count('failing load: ' + what)
        if what == 'missing':
            self.quietly('files', os.path.join(self.folder, 'nothing'))
            self.quietly('zip', os.path.join(self.folder, 'nothing.zip'))
        elif what == 'malformed':
            container = rand.choice(loading.CONTAINERS)
            self.quietly(container, loading.build(self.folder, *rand.choice(MALFORMED), container, name='bad'))
        elif what == 'cut' and number in self.files:
            container, key = self.files[number]
            aff, dic = loading.bytes_of(key)
            path = loading.build(self.folder, aff[:rand.randrange(len(aff) + 1)], dic[:rand.randrange(len(dic) + 1)], container, name='cut')
            self.quietly(container, path)
        elif number in self.files:
            container, _ = self.files[number]
            if what == 'error':
                self.sim.events.clear()
                self.sim.plan = {rand.randrange(1, 12): ['raise', 'EIO']}
                with self.sim:
                    self.quietly(container, self.path(number))
                self.sim.plan = {}
            else:
                name = rand.choice(sorted(INTERRUPTIONS))

                def fire(_frame):
                    raise INTERRUPTIONS[name]('simulated interruption')

                with Stepper(False, [(int(10 ** rand.uniform(0, 4)), fire)], signals=True):
                    self.quietly(container, self.path(number))

    def quietly(self, container, path):
        try:
            loading.load(container, path)
        except BaseException as exc:                    # pylint: disable=broad-except
            if isinstance(exc, (SystemExit, GeneratorExit)):
                raise

    def review(self, queries):
        """In the end everything is still there."""
        for slot in sorted(self.session.dictionaries):
            self.look(['look', slot], 'afterwards')
            for kind, word in queries:
                if not self.problems:
                    self.session.do(['Q', slot, kind, word], 'afterwards')
        for handle in list(self.session.streams):
            if not self.problems:
                self.session.do(['N', None, handle, 1000], 'rest of ' + handle)


PROPERTY = Independence
