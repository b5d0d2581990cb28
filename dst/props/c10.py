"""C10: the same answers in every process."""

import ctypes
import json
import os
import subprocess
import sys

from dst import loading
from dst.base import Property, choose_dictionary, drop_from, pick_queries, some
from dst.core import REPO, VERIF, HarnessError

BASE = {'hashseed': 0, 'random': 0, 'clock': None, 'gc': [700, 10, 10], 'garbage': 0, 'locale': 'C.UTF-8', 'utf8': '1', 'malloc': None,
        'cwd': 'home', 'relative': False, 'tz': 'UTC', 'optimize': '', 'stdio': True, 'environment': {}, 'setlocale': False}

# what people have in their environment, and what other spell checkers look at
ENVIRONMENT = {
    'LANG': ['tr_TR.UTF-8', 'tr_TR', 'az', 'de_DE.UTF-8', 'nl', 'C', ''], 'LANGUAGE': ['tr:de', 'az', ''], 'LC_CTYPE': ['tr_TR.UTF-8', 'C'],
    'LC_MESSAGES': ['tr_TR.UTF-8'], 'LC_COLLATE': ['sv_SE.UTF-8'], 'DICTIONARY': ['tr_TR', 'en_US', 'dict'], 'DICPATH': ['/nonexistent', '.'],
    'WORDLIST': ['words', '/nonexistent'], 'HOME': ['/nonexistent', '.'], 'USER': ['nobody', ''], 'TMPDIR': ['/nonexistent'], 'TERM': ['dumb', ''],
    'DEBUG': ['1'], 'CI': ['1'], 'NO_COLOR': ['1'], 'COLUMNS': ['20'],
}


def settle():
    """Switch off address randomization for the new process, so that it can be repeated exactly."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass


class Processes(Property):
    id = 'C10'
    size = {'quick': (64, 9), 'thorough': (640, 20)}
    guard = 200
    rule = ('one run: one new process with chosen hash seed, random state, clock, locale and encoding settings, working directory, optimization level, '
            'allocator and collector settings loads the dictionaries of the block and answers their queries; distinct = distinct '
            '(process settings, dictionaries, queries); trivial = all settings as in the reference process')
    real = ['spylls (all of it)', 'interpreter start, hash randomization, allocator']
    stub = ['clocks and sleep', 'random state', 'environment of the process']
    assumptions = ['settings of a process are those listed; address randomization is off where the system permits it']

    def __init__(self, env):
        super().__init__(env)
        # nothing is traced here
        if env is not None:
            env.refs.limit = 600_000

    def block(self, rand):
        dictionaries = []
        for _ in range(3):
            key = choose_dictionary(rand, fixtures=0.4, similar=0.3)
            try:
                queries = pick_queries(rand, self.env.refs, key, 24 if key.startswith('sim:') else 12, 'SSSSSGLF')
            except HarnessError:
                continue
            if queries:
                dictionaries.append([key, [list(q) for q in queries]])
        return {'dictionaries': dictionaries}

    def plan(self, rand, block):
        if not block['dictionaries']:
            return None
        world = dict(BASE)
        what = rand.choice(['hash', 'hash', 'clock', 'locale', 'random', 'all', 'all'])
        if what in ('hash', 'all'):
            world['hashseed'] = rand.randrange(1, 2 ** 32)
            world['garbage'] = rand.randrange(10 ** 6)
            world['malloc'] = rand.choice([None, None, 'malloc', 'pymalloc'])
        if what in ('clock', 'all'):
            moves = rand.choice([[0.0], [1e-9], [0.01], [0.05, 0.2], [1.0], [50.0], [3600.0], [1e-6] * 20 + [100.0], [5.0, -10.0],
                                 [-1.0], [0.3, 0.0, 0.0, -0.1, 86400.0]])
            world['clock'] = [rand.choice([0.0, 1.7e9, 4.1e9, 2.0 ** 31 - 5]), moves]
            world['tz'] = rand.choice(['UTC', 'Asia/Kathmandu', 'America/St_Johns', ':bad'])
        if what in ('locale', 'all'):
            world['locale'] = rand.choice(['C', 'POSIX', 'C.UTF-8', 'tr_TR.UTF-8', 'en_US.ISO-8859-1', ''])
            world['utf8'] = rand.choice(['0', '0', '1'])
            world['environment'] = {name: rand.choice(ENVIRONMENT[name]) for name in some(rand, sorted(ENVIRONMENT), 1, 8)}
            if rand.random() < 0.4:
                # it comes before all others
                world['locale'] = None
            world['setlocale'] = rand.random() < 0.5
            world['cwd'] = rand.choice(['home', 'other', 'deep', 'full'])
            world['relative'] = rand.random() < 0.5
        if what in ('random', 'all'):
            world['random'] = rand.randrange(10 ** 6)
            world['gc'] = rand.choice([None, [700, 10, 10], [1, 1, 1], [50, 2, 2]])
            world['cwd'] = rand.choice(['home', 'other'])
            world['optimize'] = rand.choice(['', '1', '2', '2'])
            world['stdio'] = rand.random() < 0.8
        return {'dicts': [key for key, _ in block['dictionaries']], 'dictionaries': block['dictionaries'], 'world': world, 'mode': what}

    def prepare(self, plan):
        refs = []
        for key, queries in plan['dictionaries']:
            answers = self.env.refs.get(key, [tuple(q) for q in queries])
            folder = os.path.join(self.env.scratch.root, 'c10-' + key.replace(':', '-'))
            content = self.env.memo(('c10', key), lambda k=key, f=folder: loading.reference(f, *loading.bytes_of(k)))[0]  # pylint: disable=undefined-loop-variable
            refs.append({'path': os.path.join(folder, 'dict'), 'content': content[0] if content else None,
                         'answers': [answers[tuple(q)]['answer'] for q in queries]})
        return {'refs': refs, 'folder': os.path.join(self.env.scratch.root, 'c10-run')}

    def execute(self, plan, prepared):
        world, folder = plan['world'], prepared['folder']
        for name in ('home', 'other', 'deep/er', 'full/dictionaries', 'full/data', 'full/hunspell'):
            os.makedirs(os.path.join(folder, name), exist_ok=True)
        for name in ('dict.aff', 'dict.dic', 'dictionaries/dict.aff', 'dictionaries/dict.dic', 'config.json', '.env'):
            # others of the same name, and things that may look interesting
            with open(os.path.join(folder, 'full', name), 'w', encoding='utf-8') as file:
                file.write('1\nnothing\n')
        job = {key: world[key] for key in ('random', 'clock', 'gc', 'garbage', 'relative', 'stdio', 'setlocale')}
        job.update(path=[REPO, VERIF], cwd=os.path.join(folder, world['cwd']), out=os.path.join(folder, 'out.json'),
                   dictionaries=[[ref['path'], queries] for ref, (_, queries) in zip(prepared['refs'], plan['dictionaries'])])
        with open(os.path.join(folder, 'job.json'), 'w', encoding='utf-8') as file:
            json.dump(job, file)
        if os.path.exists(job['out']):
            os.unlink(job['out'])
        env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG', 'VERIF_')) or k == 'VERIF_REPO'}
        env.update(PYTHONHASHSEED=str(world['hashseed']), PYTHONUTF8=world['utf8'], PYTHONCOERCECLOCALE='0',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', TZ=world['tz'])
        env.update(world['environment'])
        if world['locale'] is not None:
            env['LC_ALL'] = world['locale']
        if world['optimize']:
            env['PYTHONOPTIMIZE'] = world['optimize']
        if world['malloc']:
            env['PYTHONMALLOC'] = world['malloc']
        proc = subprocess.run([sys.executable, os.path.join(VERIF, 'dst', 'probe.py'), os.path.join(folder, 'job.json')],
                              env=env, cwd=folder, preexec_fn=settle, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=300, check=False)
        violation = None
        try:
            with open(job['out'], encoding='utf-8') as file:
                out = json.load(file)
        except (OSError, ValueError) as exc:
            if proc.returncode != 3:
                raise HarnessError(f'process failed: {proc.returncode} {proc.stdout[-1500:]!r}') from exc
            out = {'results': [], 'looks': 0}
            violation = {'kind': 'import', 'detail': proc.stdout.decode(errors='replace')[-1500:]}
        for ref, (key, queries), res in zip(prepared['refs'], plan['dictionaries'], out['results']):
            if violation:
                break
            violation = self.compare(ref, key, queries, res)
        changed = [name for name in sorted(BASE) if world[name] != BASE[name]]
        return {'violation': violation, 'faults': {'changed ' + name: 1 for name in changed},
                'trace': (world, plan['dictionaries']), 'steps': sum(len(q) for _, q in plan['dictionaries']),
                'extra': {'looks at the clock': out['looks']}, 'trivial': not changed}

    def compare(self, ref, key, queries, res):
        if res[0] == 'raised':
            if ref['content'] is None:
                return None
            return {'kind': 'load', 'dictionary': key, 'got': res[1]}
        if ref['content'] is None:
            return {'kind': 'load', 'dictionary': key, 'got': 'loaded, but not in the reference process'}
        difference = loading.first_difference(json.loads(json.dumps(ref['content'])), res[1])
        if difference:
            return {'kind': 'content', 'dictionary': key, 'difference': difference}
        for query, expected, got in zip(queries, json.loads(json.dumps(ref['answers'])), res[2]):
            if expected != got:
                return {'kind': 'answer', 'dictionary': key, 'query': query, 'expected': expected, 'got': got}
        return None

    def shrink(self, plan):
        for name, value in BASE.items():
            if plan['world'][name] != value:
                yield dict(plan, world=dict(plan['world'], **{name: value}))
        for name in sorted(plan['world']['environment']):
            rest = {key: value for key, value in plan['world']['environment'].items() if key != name}
            yield dict(plan, world=dict(plan['world'], environment=rest))
        for smaller in drop_from(plan, 'dictionaries'):
            if smaller['dictionaries']:
                yield dict(smaller, dicts=[key for key, _ in smaller['dictionaries']])
        for num in range(len(plan['dictionaries'])):
            for smaller in drop_from(plan, 'dictionaries', num, 1):
                if smaller['dictionaries'][num][1]:
                    yield smaller


PROPERTY = Processes
