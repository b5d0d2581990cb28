"""C08: files replaced during a load."""

import itertools
import os

from dst import corpus, loading, syndict
from dst.base import Property, drop_from
from dst.core import content, rng
from dst.simio import SimIO

VERSIONS = 3


def revise(data, seed):
    """Another version of a file: some lines changed, dropped or swapped, sometimes the encoding line moved."""
    rand = rng('revision', seed)
    lines = data.split(b'\n')
    for _ in range(rand.randint(1, 5)):
        pos = rand.randrange(len(lines))
        kind = rand.randrange(4)
        if kind == 0 and len(lines) > 3:
            del lines[pos]
        elif kind == 1:
            lines.insert(rand.randrange(len(lines) + 1), rand.choice([b'# revised', b'', b'TRY abc', b'MAXDIFF 3', b'abc']))
        elif kind == 2:
            lines.insert(rand.randrange(len(lines) + 1), lines[pos])
        else:
            other = rand.randrange(len(lines))
            lines[pos], lines[other] = lines[other], lines[pos]
    return b'\n'.join(lines)


def version(key, seed, number):
    """Bytes (aff, dic) of a version of the dictionary; version 0 is the dictionary itself."""
    files = corpus.get(key)
    if number == 0:
        return files.aff, files.dic
    rand = rng('version', seed, number)
    if rand.random() < 0.5:
        # a really different dictionary
        other = syndict.model(f'syn:{rand.randrange(10 ** 9)}')
        marks = [other.codec == 'UTF-8' and rand.random() < 0.4 for _ in range(2)]
        return tuple(other.render(rand.choice(['\n', '\n', '\r\n']), marks))
    return revise(files.aff, (seed, number, 'aff')), revise(files.dic, (seed, number, 'dic'))


class Replacement(Property):
    id = 'C08'
    size = {'quick': (300, 30), 'thorough': (1500, 30)}
    rule = ('one run: one load of a pair of files or an archive, atomically replaced by other versions at 1-3 chosen points of the '
            'load (before the n-th open, read, seek, stat or close); distinct = distinct (dictionary, versions, container, '
            'delivery, replacements that happened); trivial = no replacement happened')
    real = ['spylls (all of it)', 'zipfile, io buffering and decoding', 'replacement by rename on a real file system']
    stub = ['operating system calls on files (sizes of reads)', 'the other party that replaces files']
    assumptions = ['replacement is atomic (rename), so an open handle keeps reading the old version']

    def block(self, rand):
        if rand.random() < 0.35:
            key = 'fx:' + rand.choice(corpus.fixture_names())
        else:
            key = f'syn:{rand.randrange(10 ** 9)}'
        seed = rand.randrange(10 ** 9)
        container = rand.choice(loading.CONTAINERS)
        return {'dict': key, 'versions': seed, 'container': container}

    def combos(self, key, seed, container):
        """Contents a load may yield: {json-able content}."""
        folder = os.path.join(self.env.scratch.root, 'c08-ref')
        allowed = []
        versions = [version(key, seed, n) for n in range(VERSIONS)]
        if container == 'files':
            pairs = [(versions[i][0], versions[j][1]) for i, j in itertools.product(range(VERSIONS), repeat=2)]
        else:
            pairs = versions
        for aff, dic in pairs:
            res, _error = loading.reference(folder, aff, dic)
            if res is not None:
                allowed.append(res[0])
        return allowed

    def plan(self, rand, block):
        style, seed = loading.style_for(rand)
        container = block['container']
        folder = os.path.join(self.env.scratch.root, 'c08')
        path = loading.build(folder, *version(block['dict'], block['versions'], 0), container)
        events = loading.dry_run(container, path, style, seed)
        changes = []
        for _ in range(rand.choice([1, 1, 2, 3])):
            number = loading.draw_event(rand, events, ['open', 'read', 'seek', 'close', 'stat'])
            if number is None:
                return None
            number += rand.choice([0, 0, 1])
            what = rand.choice(['aff', 'dic', 'both']) if container == 'files' else 'zip'
            changes.append([number, what, rand.randrange(VERSIONS)])
        return {'dicts': [block['dict']], 'versions': block['versions'], 'container': container, 'style': style, 'seed': seed,
                'changes': changes}

    def prepare(self, plan):
        key, seed = plan['dicts'][0], plan['versions']
        allowed = self.env.memo(('c08', key, seed, plan['container'] == 'files'),
                                lambda: self.combos(key, seed, plan['container']))
        return {'allowed': allowed, 'folder': os.path.join(self.env.scratch.root, 'c08-run')}

    def execute(self, plan, prepared):
        versions = [version(plan['dicts'][0], plan['versions'], n) for n in range(VERSIONS)]
        container = plan['container']
        path = loading.build(prepared['folder'], *versions[0], container)
        happened = []

        def change(what, number):
            happened.append([what, number])
            aff, dic = versions[number]
            if container != 'files':
                loading.build(prepared['folder'], aff, dic, container)
            if what in ('aff', 'both'):
                loading.put(path + '.aff', aff)
            if what in ('dic', 'both'):
                loading.put(path + '.dic', dic)

        hooks, actions = [], {}
        for number, what, target in plan['changes']:
            actions[number] = ['call', len(hooks)]
            hooks.append(lambda what=what, target=target: change(what, target))
        sim = SimIO([prepared['folder']], actions, plan['style'], rng('reads', plan['seed']), hooks).install()
        violation, outcome = None, 'raised'
        try:
            with sim:
                dictionary = loading.load(container, path)
        except Exception as exc:                        # pylint: disable=broad-except
            outcome = type(exc).__name__
        else:
            outcome = 'loaded'
            got = content(dictionary)
            if got not in prepared['allowed']:
                violation = {'kind': 'mixed', 'happened': happened,
                             'difference': [loading.first_difference(one, got) for one in prepared['allowed'][:4]]}
        return {'violation': violation, 'faults': {'replaced ' + what: sum(w == what for w, _ in happened)
                                                   for what in sorted({w for w, _ in happened})},
                'trace': (plan['dicts'], plan['versions'], container, plan['changes'], happened, plan['style'], outcome),
                'steps': len(sim.events), 'extra': {outcome if outcome == 'loaded' else 'raised': 1},
                'trivial': not happened}

    def shrink(self, plan):
        yield from drop_from(plan, 'changes')
        for name in sorted(plan['style']):
            yield dict(plan, style={k: v for k, v in plan['style'].items() if k != name})


PROPERTY = Replacement
