"""C20: a loaded dictionary needs nothing of what it was loaded from."""

import gc
import os
import shutil

from dst import loading
from dst.base import Property, choose_dictionary, drop_from, query_block, some
from dst.core import STREAMS
from dst.engine import Session
from dst.props.c01 import op_query
from dst.simio import SimIO

WORLD = ['delete', 'replace', 'truncate', 'overwrite', 'fail', 'chdir', 'move', 'spoil']


class World:
    """The files and the process around a loaded dictionary."""

    def __init__(self, folder, sim, path, container, other):
        self.folder = folder
        self.sim = sim
        self.path = path                # absolute
        self.container = container
        self.other = other              # bytes of another dictionary
        self.count = 0

    def files(self):
        names = [self.path + ext for ext in ('.aff', '.dic')] if self.container == 'files' else [self.path]
        return [name for name in names if os.path.exists(name)]

    def change(self, what):
        self.sim.active = False
        try:
            getattr(self, what)()
        finally:
            self.sim.active = True
        self.sim.count('world: ' + what)

    def delete(self):
        for name in self.files():
            os.unlink(name)

    def replace(self):
        name = os.path.basename(self.path)
        loading.build(os.path.dirname(self.path), *self.other, self.container, 1, name[:-4] if name.endswith('.zip') else name)

    def truncate(self):
        for name in self.files():
            os.truncate(name, 0)

    def overwrite(self):
        for name in self.files():
            data = self.other[1] if name.endswith('.dic') else self.other[0]
            with open(name, 'r+b') as file:
                file.write(data[:os.path.getsize(name)])

    def spoil(self):
        for name in self.files():
            with open(name, 'r+b') as file:
                file.write(b'\xff\x00' * min(4096, os.path.getsize(name) // 2))

    def fail(self):
        self.sim.down = 'EIO'

    def chdir(self):
        # where a relative path means something else
        target = os.path.join(self.folder, f'elsewhere{self.count}')
        self.count += 1
        loading.build(target, *self.other, self.container)
        os.chdir(target)

    def move(self):
        # the name of the folder now belongs to an empty one
        folder = os.path.dirname(self.path)
        self.count += 1
        os.rename(folder, f'{folder}-moved{self.count}')
        os.mkdir(folder)


class SelfContained(Property):
    id = 'C20'
    size = {'quick': (200, 12), 'thorough': (2400, 16)}
    rule = ('one run: a load from files or an archive by an absolute or relative path, then queries and streams between which the files are '
            'deleted, replaced, overwritten, truncated or moved, all I/O starts to fail, the working directory changes, or the program '
            'drops the dictionary and keeps its streams; distinct = distinct (dictionary, container, operations); trivial = no such change')
    real = ['spylls (all of it)', 'zipfile, io', 'file descriptors']
    stub = ['operating system calls on files', 'the rest of the program, which changes files and the working directory']
    assumptions = ['answers are those of an isolated load of plain files, for every container']

    def block(self, rand):
        block = query_block(rand, self.env.refs, choose_dictionary(rand), 16)
        block['other'] = choose_dictionary(rand)
        block['container'] = rand.choice(['files', 'files', 'stored', 'deflated'])
        return block

    def plan(self, rand, block):
        queries = some(rand, block['queries'], 2, 10)
        if not queries:
            return None
        streams = [q for q in queries if q[0] in STREAMS]
        ops, opened = [], []
        changes = rand.sample(WORLD, rand.choice([1, 1, 2, 3]))
        for _ in range(rand.choice([0, 0, 1, 3, 8])):
            dice = rand.random()
            if dice < 0.5 or not streams:
                ops.append(['Q', 0, *rand.choice(queries)])
            elif len(opened) < 4:
                handle = f's{len(opened)}'
                opened.append(handle)
                ops.append(['O', 0, handle, *rand.choice(streams)])
                ops.append(['N', 0, handle, rand.randint(0, 2)])
        for change in changes:
            ops.insert(rand.randint(0, len(ops)) if rand.random() < 0.5 else len(ops), ['World', change])
            if rand.random() < 0.5:
                ops.append(['Q', 0, *rand.choice(queries)])
        if streams and rand.random() < 0.3:
            for num in range(rand.randint(1, 3)):
                ops.append(['O', 0, f'l{num}', *rand.choice(streams)])
                ops.append(['N', 0, f'l{num}', rand.randint(0, 1)])
            ops.append(['Forget'])
        return {'dicts': [block['dict'], block['other']], 'container': block['container'], 'ops': ops,
                'queries': [list(q) for q in queries], 'relative': rand.random() < 0.4, 'mode': '+'.join(sorted(changes))}

    def prepare(self, plan):
        queries = [q for op in plan['ops'] for q in [op_query(op)] if q]
        queries += [tuple(q) for q in plan['queries']]
        return {'refs': self.env.refs.get(plan['dicts'][0], queries), 'folder': os.path.join(self.env.scratch.root, 'c20')}

    def execute(self, plan, prepared):
        refs = prepared['refs']
        folder = os.path.join(prepared['folder'], str(os.getpid()))
        container = plan['container']
        place = os.path.join(folder, 'here')
        path = loading.build(place, *loading.bytes_of(plan['dicts'][0]), container)
        sim = SimIO([folder]).install()
        os.chdir(place)
        world = World(folder, sim, path, container, loading.bytes_of(plan['dicts'][1]))
        with sim:
            dictionary = loading.load(container, os.path.basename(path) if plan['relative'] else path)
            session = Session([dictionary], [refs])
            del dictionary
            forgotten = False
            for num, op in enumerate(plan['ops']):
                if op[0] == 'World':
                    world.change(op[1])
                elif op[0] == 'Forget':
                    session.dictionaries[0] = None
                    gc.collect()
                    forgotten = True
                    sim.count('world: dictionary dropped')
                elif not (forgotten and op[0] in 'QO'):
                    session.do(op, num)
                if session.problems:
                    break
            if not session.problems:
                for handle in list(session.streams):
                    session.do(['N', 0, handle, 1000], 'rest of ' + handle)
                if not forgotten:
                    for kind, word in refs:
                        session.do(['Q', 0, kind, word], 'afterwards')
        os.chdir('/')
        shutil.rmtree(folder)
        violation = session.problems[0] if session.problems else None
        return {'violation': violation, 'faults': {**session.fired, **sim.fired}, 'steps': session.done,
                'trace': (plan['dicts'], container, plan['relative'], plan['ops']),
                'trivial': not any(op[0] in ('World', 'Forget') for op in plan['ops'])}

    def shrink(self, plan):
        yield from drop_from(plan, 'ops')
        yield from drop_from(plan, 'queries')
        if plan['relative']:
            yield dict(plan, relative=False)
        if plan['container'] != 'files':
            yield dict(plan, container='files')


PROPERTY = SelfContained
