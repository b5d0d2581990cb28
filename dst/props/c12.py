"""C12: search of dictionaries in system folders."""

import os

from dst.base import Property, drop_from
from dst.core import LIB
from dst.simio import SimIO

# The documented order
FOLDERS = [
    '/usr/share/hunspell', '/usr/share/myspell', '/usr/share/myspell/dicts', '/Library/Spelling',
    '/opt/openoffice.org/basis3.0/share/dict/ooo', '/usr/lib/openoffice.org/basis3.0/share/dict/ooo',
    '/opt/openoffice.org2.4/share/dict/ooo', '/usr/lib/openoffice.org2.4/share/dict/ooo',
    '/opt/openoffice.org2.3/share/dict/ooo', '/usr/lib/openoffice.org2.3/share/dict/ooo',
    '/opt/openoffice.org2.2/share/dict/ooo', '/usr/lib/openoffice.org2.2/share/dict/ooo',
    '/opt/openoffice.org2.1/share/dict/ooo', '/usr/lib/openoffice.org2.1/share/dict/ooo',
    '/opt/openoffice.org2.0/share/dict/ooo', '/usr/lib/openoffice.org2.0/share/dict/ooo',
]
NAMES = ['xx_YY', 'xx', 'en_US', 'en-GB-oxendict', 'ru', 'sr@latin', 'xx.small', 'x+y', 'my.affixes', 'uz Cyrl']
BUNDLED = {'en_US': 'en', 'ru': 'ru', 'sv_SE': 'sv'}
ERRORS = ['EACCES', 'EACCES', 'EIO', 'ELOOP', 'ENOTDIR', 'ESTALE', 'EPERM']
DATA = os.path.join(LIB, 'hunspell', 'data')


class World:
    """Folders of the simulated system: which dictionaries they have, and what can be seen of them."""

    def __init__(self, root):
        self.root = root
        self.has = {}                   # (place, name) -> revision; place is a folder, 'cwd' or 'bundled'
        self.broken = {}
        self.revision = 0

    def where(self, place):
        return os.path.join(self.root, {'cwd': 'cwd'}.get(place, 'system' + place))

    def put(self, place, name):
        folder = self.where(place)
        os.makedirs(folder, exist_ok=True)
        self.revision += 1
        self.has[place, name] = self.revision
        with open(os.path.join(folder, name + '.dic'), 'w', encoding='utf-8') as file:
            file.write(f'2\nplain\nmarker{self.revision}\n')
        with open(os.path.join(folder, name + '.aff'), 'w', encoding='utf-8') as file:
            file.write('SET UTF-8\nTRY abc\n')

    def remove(self, place, name):
        if self.has.pop((place, name), None):
            folder = self.where(place)
            os.unlink(os.path.join(folder, name + '.aff'))
            os.unlink(os.path.join(folder, name + '.dic'))

    def litter(self, place, kind, name):
        """Things that are not the dictionary but look similar."""
        folder = self.where(place)
        if os.path.isfile(folder):
            return
        if kind == 'empty':
            os.makedirs(folder, exist_ok=True)
        elif kind == 'file':
            if not os.path.lexists(folder):
                os.makedirs(os.path.dirname(folder), exist_ok=True)
                with open(folder, 'w', encoding='utf-8'):
                    pass
        else:
            os.makedirs(folder, exist_ok=True)
            for other in (name + '.aff.bak', name + 'x.aff', 'x' + name + '.aff', name + '.AFF', name.swapcase() + 'q.aff',
                          'hyph_' + name + '.dic'):
                with open(os.path.join(folder, other), 'w', encoding='utf-8') as file:
                    file.write('SET UTF-8\n')

    def visible(self, name):
        """For every folder in order: revision of the dictionary that can be found there, or None."""
        res = []
        for folder in FOLDERS:
            bad = any((folder + os.sep).startswith(b + os.sep) for b in self.broken)
            res.append(None if bad else self.has.get((folder, name)))
        return res


def allowed(before, after):
    """
    What a search may find if the world changed from ``before`` to ``after`` while it ran: a set of revisions, None for
    "not found".
    """
    res = set()
    for one, two in zip(before, after):
        res.update(r for r in (one, two) if r is not None)
        if one is not None and two is not None:
            return res
    res.add(None)
    return res


class Search(Property):
    id = 'C12'
    size = {'quick': (240, 50), 'thorough': (1600, 60)}
    rule = ('one run: 3-14 steps that put dictionaries into system folders, the working directory or remove them, make folders '
            'unreadable or readable again, and search by name, also while one of these changes happens in the middle of the '
            'search; distinct = distinct step sequences with their outcomes; trivial = no search found anything to decide '
            'between')
    real = ['spylls (all of it)', 'glob, os.path']
    stub = ['contents and errors of system folders (paths are redirected into a scratch folder)', 'the bundled dictionaries '
            '(small stand-ins in their place)', 'the other party that changes folders']
    assumptions = ['the order of folders is the one in the documentation of Dictionary (frozen in the check)',
                   'a folder has a dictionary if it has both files']

    def block(self, rand):
        return {'folders': sorted(rand.sample(range(len(FOLDERS)), rand.choice([2, 3, 5, 16]))),
                'names': rand.sample(NAMES, rand.choice([1, 2]))}

    def change(self, rand, block):
        folder = FOLDERS[rand.choice(block['folders'])]
        name = rand.choice(block['names'])
        kind = rand.choice(['put', 'put', 'put', 'remove', 'remove', 'break', 'mend', 'litter'])
        if kind == 'litter':
            return ['litter', folder, rand.choice(['empty', 'file', 'similar']), name]
        if kind == 'break':
            return ['break', folder, rand.choice(ERRORS)]
        if kind == 'mend':
            return ['mend', folder]
        if kind == 'put' and rand.random() < 0.2:
            folder = 'cwd'
        return [kind, folder, name]

    def plan(self, rand, block):
        steps = []
        for _ in range(rand.choice([3, 6, 14])):
            dice = rand.random()
            name = rand.choice(block['names'])
            if dice < 0.5:
                steps.append(self.change(rand, block))
            elif dice < 0.75:
                steps.append(['search', name])
            elif dice < 0.87:
                steps.append(['search', name, rand.randrange(20), self.change(rand, block)])
            elif dice < 0.92:
                # what was found cannot be read
                steps.append(['search', name, None, ['read', rand.randrange(6), 'EIO']])
            else:
                bundled = rand.choice(sorted(BUNDLED))
                steps.append(rand.choice([['local', bundled], ['put', 'cwd', bundled], ['remove', 'cwd', bundled]]))
                steps.append(['local', bundled])
        steps.append(['search', block['names'][0]])
        return {'dicts': [], 'steps': steps}

    def prepare(self, plan):
        root = os.path.join(self.env.scratch.root, 'c12')
        os.makedirs(root, exist_ok=True)
        # each run has an own folder, the number of which does not matter
        number = len(os.listdir(root))
        return {'root': os.path.join(root, str(number))}

    def execute(self, plan, prepared):                          # pylint: disable=too-many-locals
        from spylls.hunspell import Dictionary
        world = World(os.path.realpath(prepared['root']) if os.path.exists(prepared['root']) else prepared['root'])
        os.makedirs(os.path.join(world.root, 'cwd'))
        for folder in BUNDLED.values():
            os.makedirs(os.path.join(world.root, 'bundled', folder))
        for name, folder in BUNDLED.items():
            for ext, text in (('aff', 'SET UTF-8\n'), ('dic', '1\nbundled\n')):
                with open(os.path.join(world.root, 'bundled', folder, f'{name}.{ext}'), 'w', encoding='utf-8') as file:
                    file.write(text)
        os.chdir(os.path.join(world.root, 'cwd'))
        remap = {folder: os.path.join(world.root, 'system' + folder) for folder in FOLDERS}
        remap.update({os.path.join(DATA, folder): os.path.join(world.root, 'bundled', folder) for folder in BUNDLED.values()})
        sim = SimIO([os.path.join(world.root, 'cwd')], remap=remap).install()
        sim.broken = world.broken
        trace, violation, decided, searches = [], None, 0, 0
        for step in plan['steps']:
            kind = step[0]
            if kind not in ('search', 'local'):
                self.apply(world, sim, step)
                continue
            name = step[1]
            searches += 1
            before = world.visible(name)
            local = world.has.get(('cwd', name))
            sim.plan.clear()
            happened = []
            if len(step) > 2:
                def hook(change=step[3]):
                    happened.append(change[0])
                    self.apply(world, sim, change)
                if step[2] is None:
                    sim.nth = list(step[3])
                else:
                    sim.hooks = [hook]
                    sim.plan[len(sim.events) + step[2]] = ['call', 0]
            got, error = None, None
            try:
                with sim:
                    dictionary = Dictionary.from_system(name) if kind == 'search' else Dictionary.from_files(name)
                got = [w.stem for w in dictionary.dic.words]
            except Exception as exc:                            # pylint: disable=broad-except
                error = exc
            unread, sim.nth = len(step) > 2 and step[2] is None and sim.nth is None, None
            found = self.found(got)
            outcome = found if error is None else type(error).__name__
            if kind == 'local':
                expected = {local if local is not None else 'bundled'}
                good = error is None and found in expected
            else:
                after = world.visible(name)
                expected = allowed(before, after)
                decided += sum(r is not None for r in before) > 0
                if error is None:
                    good = found in expected
                elif isinstance(error, LookupError) and None in expected:
                    good = True
                elif unread:
                    good = isinstance(error, OSError)
                else:
                    # what was found may have gone until it was opened
                    good = bool(happened) and isinstance(error, OSError) and any(
                        one is not None and two != one for one, two in zip(before, after))
            trace.append([step, outcome, happened])
            if not good:
                violation = {'kind': 'search', 'step': step, 'expected': sorted(map(str, expected)), 'got': str(outcome),
                             'error': str(error)[:200]}
                break
        faults = {k: v for k, v in sim.fired.items()}
        return {'violation': violation, 'faults': faults, 'trace': (trace, plan['steps']), 'steps': len(sim.events),
                'extra': {'searches': searches}, 'trivial': not decided}

    def found(self, stems):
        if stems is None:
            return None
        markers = [int(s[6:]) for s in stems if s.startswith('marker')]
        if markers:
            return markers[0]
        return 'bundled'

    def apply(self, world, sim, step):
        kind, place, *rest = step
        if kind == 'put' and not os.path.isfile(world.where(place)):
            if os.path.isfile(os.path.dirname(world.where(place))):
                return
            world.put(place, *rest)
        elif kind == 'remove':
            world.remove(place, *rest)
        elif kind == 'break':
            world.broken[place] = rest[0]
        elif kind == 'mend':
            world.broken.pop(place, None)
        elif kind == 'litter' and not os.path.isfile(os.path.dirname(world.where(place))):
            world.litter(place, *rest)
        sim.count(kind)

    def shrink(self, plan):
        yield from drop_from(plan, 'steps')


PROPERTY = Search
