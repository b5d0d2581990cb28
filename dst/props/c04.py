"""C04: streams are lazy, stopping early is harmless and cheap."""

import sys

from dst import corpus
from dst.base import Property, choose_dictionary, drop_from, pick_queries, some
from dst.core import QUERY_KINDS, STREAMS, VERIF, canon, query
from dst.engine import Session
from dst.refs import load

# kinds of suggestions that come of editing the word; others may need the whole word list
EDITS = {'forceucase', 'case', 'uppercase', 'replchars', 'mapchars', 'swapchar', 'longswapchar', 'badcharkey', 'extrachar',
         'forgotchar', 'movechar', 'badchar', 'doubletwochars', 'twowords', 'spaceword'}
SLACK = 1000


class Work:
    """Counts executed lines of any Python code but the simulator's."""

    def __init__(self):
        self.steps = 0
        self.cache = {}

    def _global(self, frame, _event, _arg):
        code = frame.f_code
        ours = self.cache.get(code)
        if ours is None:
            ours = self.cache[code] = not code.co_filename.startswith(VERIF + '/dst')
        return self._local if ours else None

    def _local(self, _frame, event, _arg):
        if event == 'line':
            self.steps += 1
        return self._local

    def __enter__(self):
        sys.settrace(self._global)

    def __exit__(self, *exc):
        sys.settrace(None)


class Laziness(Property):
    id = 'C04'
    size = {'quick': (160, 8), 'thorough': (1600, 12)}
    rule = ('one run of mode stop: 4-40 streams of one dictionary, consumed in turns and stopped after some items, then all of them '
            'again in full; one run of mode cost: steps to get the first k edit suggestions of several words in a dictionary and in '
            'the same with 3000 more words, and if they are more, with 9000; distinct = distinct (dictionary, streams, stopping points); trivial = no stream, or no '
            'edit suggestion, in it')
    real = ['spylls (all of it)', 'CPython generators']
    stub = ['the consumer: when and how it stops', 'time: executed lines of Python code']
    assumptions = [f'work is counted in lines of Python code; growth means more than {SLACK} lines with 3000 more words, and as '
                   'many again with each further 3000, once the dictionary has served other queries', 'edit suggestions are those of kinds ' + ', '.join(sorted(EDITS))]

    def block(self, rand):
        if rand.random() < 0.5:
            key = choose_dictionary(rand)
            return {'mode': 'stop', 'dict': key, 'queries': pick_queries(rand, self.env.refs, key, 16, 'SSSG')}
        for _ in range(10):
            num = rand.randrange(10 ** 9)
            key = f'syn:{num}'
            # mostly misspellings
            queries = [q for q in pick_queries(rand, self.env.refs, key, 30, 'G') if q[0] == 'G']
            refs = self.env.refs.get(key, queries)
            queries = [q for q in queries if edits(refs[q]['answer'])]
            if queries:
                return {'mode': 'cost', 'dict': key, 'big': [f'pad:{num}', f'vast:{num}'], 'queries': queries}
        # kinds of suggestions cannot be told any more
        return {'mode': 'stop', 'dict': key, 'queries': pick_queries(rand, self.env.refs, key, 16, 'SSSG')}

    def plan(self, rand, block):
        queries = some(rand, block['queries'], 3, 10)
        if not queries:
            return None
        if block['mode'] == 'cost':
            refs = self.env.refs.get(block['dict'], queries)
            measured = []
            for asked in queries:
                number = edits(refs[asked]['answer'])
                measured.append([rand.choice('SG'), asked[1], rand.choice([0, 1, 1, number, number, rand.randint(1, number)])])
            return {'mode': 'cost', 'dicts': [block['dict'], *block['big']], 'queries': measured,
                    'warm': some(rand, [q[1] for q in block['queries']], 1, 2)}
        ops, opened, count = [], [], 0
        streams = [q for q in queries if q[0] in STREAMS]
        refs = self.env.refs.get(block['dict'], queries)
        for _ in range(rand.choice([4, 10, 40])):
            dice = rand.random()
            if not streams:
                break
            asked = rand.choice(streams)
            length = len(refs[asked]['answer'][1])
            if dice < 0.5 or len(opened) > 5:
                ops.append(['P', 0, *asked, rand.choice([0, 1, max(0, length - 1), length, rand.randint(0, length)]),
                            rand.choice(['close', 'drop', 'throw'])])
            elif dice < 0.7 or not opened:
                handle, count = f's{count}', count + 1
                ops.append(['O', 0, handle, *asked])
                opened.append(handle)
            elif dice < 0.9:
                ops.append(['N', 0, rand.choice(opened), rand.choice([1, 1, 2, 3])])
            else:
                ops.append(['E', 0, opened.pop(rand.randrange(len(opened))), rand.choice(['close', 'drop', 'throw'])])
        return {'mode': 'stop', 'dicts': [block['dict']], 'ops': ops, 'queries': [list(q) for q in queries]}

    def prepare(self, plan):
        key = plan['dicts'][0]
        if plan['mode'] == 'cost':
            for name in plan['dicts']:
                corpus.get(name)
            return {'paths': [self.env.refs.path(name) for name in plan['dicts']]}
        return {'refs': self.env.refs.get(key, [tuple(q) for q in plan['queries']]), 'path': self.env.refs.path(key)}

    def execute(self, plan, prepared):
        return self.cost(plan, prepared) if plan['mode'] == 'cost' else self.stop(plan, prepared)

    def stop(self, plan, prepared):
        refs = prepared['refs']
        session = Session([load(prepared['path'])], [refs])
        for num, op in enumerate(plan['ops']):
            session.do(op, num)
            if session.problems:
                break
        if not session.problems:
            for kind, word in refs:
                session.do(['Q', 0, kind, word], 'afterwards')
        return {'violation': session.problems[0] if session.problems else None, 'faults': session.fired,
                'trace': (plan['dicts'], plan['ops']), 'steps': session.done, 'trivial': not plan['ops']}

    def cost(self, plan, prepared):
        work, got = [], []
        for path in prepared['paths']:
            if len(work) == 2 and not any(big > small + SLACK for small, big in zip(*work)):
                break
            dictionary = load(path)
            for word in plan['warm']:
                query(dictionary, 'S', word)
            steps, items = [], []
            for kind, word, number in plan['queries']:
                measured = Work()
                with measured:
                    try:
                        stream = iter(QUERY_KINDS[kind](dictionary, word))
                        taken = [canon(next(stream, None)) for _ in range(number)]
                    except Exception as exc:            # pylint: disable=broad-except
                        taken = type(exc).__name__
                steps.append(measured.steps)
                items.append(taken)
                stream = None
            work.append(steps)
            got.append(items)
        violation, compared = None, 0
        for num, asked in enumerate(plan['queries']):
            if any(items[num] != got[0][num] for items in got):
                # the additional words got in the way after all
                continue
            compared += 1
            small, big, *vast = [steps[num] for steps in work]
            # something that takes a few steps more in a longer list is not meant
            if big > small + SLACK and vast[0] - big > 1.5 * (big - small) and violation is None:
                violation = {'kind': 'work', 'query': asked, 'steps': small, 'steps with more words': [big, *vast], 'items': got[0][num]}
        return {'violation': violation, 'faults': {'stopped early': compared}, 'trace': (plan['dicts'], plan['queries']),
                'steps': sum(work[0]) + sum(work[1]), 'trivial': not compared,
                'extra': {'streams compared': compared, 'steps in small': sum(work[0]), 'steps in big': sum(work[1])}}

    def shrink(self, plan):
        if plan['mode'] == 'cost':
            yield from drop_from(plan, 'warm')
            yield from drop_from(plan, 'queries')
            return
        yield from drop_from(plan, 'ops')
        yield from drop_from(plan, 'queries')


def edits(answer):
    """How many items of the stream come of edits before anything else does."""
    number = 0
    for kind, _text in answer[1]:
        if kind not in EDITS:
            break
        number += 1
    return number


PROPERTY = Laziness
