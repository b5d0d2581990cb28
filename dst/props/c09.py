"""C09: files opened by a load are closed when it ends."""

import os

from dst import loading
from dst.base import Property, choose_dictionary
from dst.core import rng
from dst.props.c05 import ERRORS
from dst.props.c07 import damage, draw_damage, regions_of
from dst.simio import SimIO, real_leaks

BAD_LINES = [
    b'SET nonsense-encoding', b'MAXDIFF x', b'SFX', b'SFX A Y', b'SFX A Y 1', b'REP x', b'REP 1\nREP', b'FLAG nonsense\nNOSUGGEST !',
    b'AF 1\nAF', b'MAP 3', b'COMPOUNDMIN', b'BREAK 1\nBREAK ((', b'PHONE 1\nPHONE x', b'COMPOUNDSYLLABLE', b'KEEPCASE',
    b'COMPOUNDRULE 1\nCOMPOUNDRULE (((', b'SFX Z Y 1\nSFX Z 0 x [', b'PFX Y Y 1\nPFX Y 0 x *', b'SET', b'ICONV 1\nICONV a',
    b'CHECKCOMPOUNDPATTERN 1\nCHECKCOMPOUNDPATTERN a', b'SET UTF-16\nSET UTF-8', b'SET base64', b'SET rot13', b'IGNORE',
]
BAD_WORDS = [b'word/\xff\xfe', b'alias/99999', b'x\t99', b'\x00', b'/', b'//', b'a/b/c/d', b'\xef\xbb\xbf']


def spoil(aff, dic, spoils):
    """Malformed variants of the files; None instead of a missing file."""
    for what, where, number in spoils:
        lines = (aff if what == 'aff' else dic or b'').split(b'\n')
        extra = BAD_LINES[number % len(BAD_LINES)] if what == 'aff' else BAD_WORDS[number % len(BAD_WORDS)]
        lines.insert(where % (len(lines) + 1), extra)
        if what == 'aff':
            aff = b'\n'.join(lines)
        elif what == 'dic':
            dic = b'\n'.join(lines)
    return aff, dic


class Handles(Property):
    id = 'C09'
    size = {'quick': (400, 24), 'thorough': (3000, 40)}
    rule = ('one run: one load of files or of an archive that is sound, malformed, damaged, incomplete or missing, with or without '
            'an error at a chosen open, read or seek; distinct = distinct (dictionary, container, malformation, faults, outcome); '
            'trivial = no file was opened')
    real = ['spylls (all of it)', 'zipfile, io buffering and decoding', 'file descriptors']
    stub = ['operating system calls on files (errors, sizes of reads)', 'garbage collector (off)']
    assumptions = ['CPython: an object nobody refers to is destroyed at once; only the cyclic collector is "the garbage collector"',
                   'handles are accounted by the I/O seam and by /proc/self/fd']

    def block(self, rand):
        key = choose_dictionary(rand, fixtures=0.35)
        return {'dict': key, 'container': rand.choice(loading.CONTAINERS)}

    def plan(self, rand, block):
        key, container = block['dict'], block['container']
        plan = {'dicts': [key], 'container': container, 'names': rand.randrange(10 ** 6), 'spoil': [], 'missing': None,
                'damage': [], 'error': None}
        style, seed = loading.style_for(rand) if rand.random() < 0.6 else ({}, 0)
        plan.update(style=style, seed=seed)
        mode = plan['mode'] = rand.choice(['sound', 'malformed', 'malformed', 'missing', 'damaged', 'fault', 'fault',
                                           'malformed and fault'])
        if 'malformed' in mode:
            plan['spoil'] = [[rand.choice(['aff', 'aff', 'dic']), rand.randrange(10 ** 4), rand.randrange(10 ** 4)]
                             for _ in range(rand.choice([1, 1, 2]))]
        if mode == 'missing':
            plan['missing'] = rand.choice(['aff', 'dic', 'both', 'aff is a folder', 'dic is a folder', 'empty'])
        aff, dic = spoil(*loading.bytes_of(key), plan['spoil'])
        folder = os.path.join(self.env.scratch.root, 'c09')
        path = loading.build(folder, aff, dic, container, plan['names'])
        if mode == 'damaged' and container != 'files':
            with open(path, 'rb') as file:
                data = file.read()
            plan['damage'] = [draw_damage(rand, data, regions_of(path)) for _ in range(rand.choice([1, 2]))]
        if 'fault' in mode:
            events = loading.dry_run(container, path, style, seed)
            number = loading.draw_event(rand, events, ERRORS)
            if number is not None:
                plan['error'] = [number, rand.choice(ERRORS[events[number][0]])]
        return plan

    def prepare(self, plan):
        return {'folder': os.path.join(self.env.scratch.root, 'c09-run')}

    def arrange(self, plan, folder):
        """Put the files into the folder as the plan says; path to load."""
        aff, dic = spoil(*loading.bytes_of(plan['dicts'][0]), plan['spoil'])
        path = os.path.join(folder, 'dict')
        for name in ('dict.aff', 'dict.dic', 'dict.zip'):
            target = os.path.join(folder, name)
            if os.path.isdir(target):
                os.rmdir(target)
            elif os.path.exists(target):
                os.unlink(target)
        container, missing = plan['container'], plan['missing']
        if container != 'files' and missing:
            members = {'xx.aff': aff, 'xx.dic': dic}
            if missing in ('aff', 'both', 'aff is a folder'):
                del members['xx.aff']
            if missing in ('dic', 'both', 'dic is a folder'):
                del members['xx.dic']
            if missing == 'empty':
                members = {'xx.aff': b'', 'xx.dic': b''}
            os.makedirs(folder, exist_ok=True)
            loading.archive(path + '.zip', members, container, plan['names'])
            return path + '.zip'
        res = loading.build(folder, aff, dic, container, plan['names'])
        if container == 'files' and missing:
            for ext in ('aff', 'dic'):
                if missing in (ext, 'both', ext + ' is a folder'):
                    os.unlink(f'{path}.{ext}')
                if missing == ext + ' is a folder':
                    os.mkdir(f'{path}.{ext}')
                if missing == 'empty':
                    loading.put(f'{path}.{ext}', b'')
        if plan['damage']:
            with open(res, 'rb') as file:
                data = file.read()
            loading.put(res, damage(data, plan['damage']))
        return res

    def execute(self, plan, prepared):
        folder = prepared['folder']
        path = self.arrange(plan, folder)
        actions = {plan['error'][0]: ['raise', plan['error'][1]]} if plan['error'] else {}
        sim = SimIO([folder], actions, plan['style'], rng('reads', plan['seed'])).install()
        before = real_leaks(folder)
        dictionary = None
        with sim:
            try:
                dictionary = loading.load(plan['container'], path)
                outcome = 'loaded'
                leaks = sim.leaked(), real_leaks(folder)
            except Exception as exc:                    # pylint: disable=broad-except
                outcome = type(exc).__name__
                # the exception and its traceback are still alive here, as they are when a program logs them
                leaks = sim.leaked(), real_leaks(folder)
        violation = None
        if leaks[0] or leaks[1] != before:
            violation = {'kind': 'open', 'after': outcome,
                         'files': [os.path.basename(f) for f in sorted({*leaks[0], *leaks[1]} - {*before})]}
        opened = len(sim.opened)
        del dictionary
        return {'violation': violation, 'faults': dict(sim.fired), 'steps': len(sim.events),
                'trace': ({k: v for k, v in plan.items() if k != 'seed'}, outcome),
                'extra': {f'outcome: {outcome}': 1, 'files opened': opened}, 'trivial': not opened}

    def shrink(self, plan):
        for name, value in (('error', None), ('damage', []), ('spoil', []), ('missing', None), ('style', {})):
            if plan[name] != value:
                yield dict(plan, **{name: value})
        if len(plan['spoil']) > 1:
            for item in plan['spoil']:
                yield dict(plan, spoil=[item])


PROPERTY = Handles
