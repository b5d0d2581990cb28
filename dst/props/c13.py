"""C13: nothing accumulates."""

import gc
import sys

from dst import corpus
from dst.base import Property, choose_dictionary
from dst.core import QUERY_KINDS, STREAMS, rng
from dst.engine import INTERRUPTIONS
from dst.refs import load
from dst.trace import Stepper

# queries to warm up with, then in each of three measured parts
AMOUNT = {'lookups': (11000, 2500), 'streams': (1150, 200), 'abandoned': (1150, 200), 'interrupted': (700, 250), 'mixed': (3000, 400),
          'letters': (1150, 250)}
# if something grows: lookups and complete streams to fill whatever is bounded, before it is measured again
FILL = {'lookups': (70000, 0)}
USUAL_FILL = (12000, 4300)
BOUNDED = 9000          # blocks that something bounded may take; what grows is given the time to take that many
WORTH = 400_000_000     # ... if that does not cost more lines of library code than this
CHEAP = 24000           # lines of library code that a query of a stream may cost; an eighth of it for a lookup
NUMBERS = 0.15          # share of the words that are numbers, or have signs in them
RATE = 0.1              # blocks per query that count as growth
SLACK = 50

# letters that most dictionaries do not have
FOREIGN = ([chr(c) for c in range(0x4e00, 0x4e00 + 6000)] + [chr(c) for c in range(0xac00, 0xac00 + 6000)])


def number_like(rand, number):
    """Words of digits and signs, all different."""
    return rand.choice([str(number), f'{number}.5', f'{number},{rand.randrange(1000)}', f'-{number}', f'{number}-{rand.randrange(100)}',
                        f'{number}.', f'{number}%', f'{number}th', f'a{number}'])


class Words:
    """Endless distinct words around those of the dictionary."""

    def __init__(self, key, seed, mode):
        self.rand = rng('words', seed)
        self.pool = [w for w in corpus.get(key).words if len(w) < 8] or ['a']
        self.letters = sorted({ch for word in self.pool for ch in word if not ch.isspace()})
        self.letters += [ch for ch in 'aeionrst' if ch not in self.letters][:max(0, 9 - len(self.letters))]
        self.mode = mode
        self.seen = 0
        self.foreign = list(FOREIGN)
        self.rand.shuffle(self.foreign)

    def next(self):
        rand = self.rand
        self.seen += 1
        # a number written with letters makes it distinct
        number, digits = self.seen, []
        letters = self.letters
        base = len(letters)
        while number:
            digits.append(letters[number % base])
            number //= base
        tail = ''.join(digits)
        dice = rand.random()
        if self.mode == 'letters':
            foreign = self.foreign[self.seen % len(self.foreign)]
            word = rand.choice(self.pool)[:3]
            return rand.choice([word + foreign, foreign + word, foreign + foreign + word])
        if dice < NUMBERS:
            return number_like(rand, self.seen)
        dice = rand.random()
        if self.mode != 'lookups':
            word = tail + rand.choice(['', '', rand.choice(letters), rand.choice(self.pool)[:2]])
        elif dice < 0.3:
            word = rand.choice(self.pool) + tail
        elif dice < 0.6:
            word = tail + rand.choice(self.pool)
        else:
            word = corpus.typos(rand, tail, letters) + rand.choice(letters) + tail
        dice = rand.random()
        if dice < 0.1:
            return word.upper()
        if dice < 0.2:
            return word.capitalize()
        return word


class Accumulation(Property):
    id = 'C13'
    size = {'quick': (80, 3), 'thorough': (640, 4)}
    guard = 400
    hang_is_violation = False
    rule = ('one run: some thousands of queries of distinct words on one dictionary, with streams finished, closed, dropped, thrown '
            'into or interrupted; live memory blocks are counted after a warm-up and after each of three further parts, with garbage '
            'collected; if they became more in all parts, tens of thousands of queries follow and it is measured again in eight parts; distinct = distinct (dictionary, mode, words); trivial = none')
    real = ['spylls (all of it)', 'CPython allocator and generators']
    stub = ['the caller and the source of interruptions', 'garbage collector runs at the measuring points only']
    assumptions = [f'growth means more than {RATE} memory blocks per query after the warm-up, in every part measured; bounded caches that '
                   f'are full by then, or after {USUAL_FILL[0]} lookups and {USUAL_FILL[1]} streams more ({FILL["lookups"][0]} if there are '
                   f'only lookups) and until what grows had the time to take {BOUNDED} blocks, are not growth']

    def block(self, rand):
        phonetic = rand.random() < 0.15
        for _ in range(100 if phonetic else 12):
            key = choose_dictionary(rand, fixtures=0.5)
            if phonetic and b'PHONE' not in corpus.get(key).aff:
                continue
            # the kind of words the run will ask; a few very costly ones would be all it does
            words = Words(key, 'sample', 'streams')
            words.seen = rand.randrange(500, 2000)
            queries = [('S', words.next()) for _ in range(6)]
            words.mode = 'lookups'
            queries += [('L', words.next()) for _ in range(8)]
            refs = list(self.env.refs.get(key, queries).values())
            found = [ref['profile']['steps'] if ref else 10 ** 6 for ref in refs]
            begun = [(ref['profile']['marks'][:1] or [ref['profile']['steps']])[0] if ref else 10 ** 6 for ref in refs[:6]]
            if sum(found[6:]) / 8 < CHEAP / 8:
                cost = sum(found[:6]) / 6
                return {'dict': key, 'cost': cost if cost < CHEAP else None, 'phonetic': phonetic, 'lookup': sum(found[6:]) / 8,
                        'begun': sum(begun) / 6}
        return {'dict': None}

    def plan(self, rand, block):
        if block['dict'] is None:
            return None
        modes = ['lookups'] if block['cost'] is None else ['lookups', 'streams', 'abandoned', 'interrupted', 'mixed', 'letters']
        mode = 'letters' if block['phonetic'] and rand.random() < 0.5 else rand.choice(modes)
        return {'dicts': [block['dict']], 'mode': mode, 'seed': rand.randrange(10 ** 9),
                'cost': [block['cost'], block['lookup'], block['begun']]}

    def execute(self, plan, prepared):
        path = prepared['path']
        dictionary = load(path)
        mode = plan['mode']
        words = Words(plan['dicts'][0], plan['seed'], mode)
        rand = rng('consumers', plan['seed'])
        fired = {}
        warm, part = AMOUNT[mode]

        def measure(warm, parts=3):
            counts = []
            for amount in (warm, *[part] * parts):
                for _ in range(amount):
                    self.one(dictionary, mode, words.next(), rand, fired, plan['cost'])
                gc.collect()
                counts.append(sys.getallocatedblocks())
            growth = [b - a for a, b in zip(counts, counts[1:])]
            return growth

        growth = measure(warm)
        grows = min(growth) > RATE * part and sum(growth) > RATE * part * 3 + SLACK
        violation, twice, undecided = None, grows, False
        if grows:
            # is it something bounded that is not full yet?
            lookups, streams = FILL.get(mode, USUAL_FILL)
            for num in range(max(lookups, streams)):
                if num < lookups:
                    self.run(dictionary, 'L', words.next(), None, None)
                if num < streams:
                    self.run(dictionary, 'S', words.next(), None, None)
            rate = sum(growth) / (3 * part)
            more = int(BOUNDED / rate)
            stream, lookup, begun = plan['cost']
            stream = stream or 0
            price = {'lookups': lookup, 'abandoned': begun, 'interrupted': 3 * stream,
                     'mixed': 0.7 * lookup + 0.15 * begun + 0.25 * stream}.get(mode, stream)
            undecided = more * price > WORTH
            for _ in range(0 if undecided else more):
                self.one(dictionary, mode, words.next(), rand, fired, plan['cost'])
            growth = measure(part, 8)
            grows = not undecided and min(growth) > 0 and sum(growth) > RATE * part * 8 + 4 * SLACK
        if grows:
            violation = {'kind': 'growth', 'mode': mode, 'queries per part': part,
                         'blocks per query': [round(g / part, 1) for g in growth]}
        return {'violation': violation, 'faults': fired, 'trace': (plan['dicts'], plan['mode'], plan['seed']),
                'steps': warm + 3 * part, 'trivial': False,
                'extra': {'queries': warm + 3 * part, 'blocks grown (net)': sum(growth), 'measured twice': int(twice), 'undecided': int(undecided)}}

    def prepare(self, plan):
        return {'path': self.env.refs.path(plan['dicts'][0])}

    def one(self, dictionary, mode, word, rand, fired, cost):
        if mode == 'mixed':
            dice = rand.random()
            mode = ('lookups' if dice < 0.7 else 'streams' if dice < 0.8 else 'abandoned' if dice < 0.95 else 'interrupted')
        if mode == 'lookups':
            self.run(dictionary, rand.choice('LLLCX') if len(word) > 10 else rand.choice('LLLCXF'), word, None, None)
        elif mode == 'streams':
            self.run(dictionary, rand.choice('SSGF'), word, None, None)
        elif mode == 'letters':
            self.run(dictionary, rand.choice('SSL'), word, None, None)
        elif mode == 'abandoned':
            how = rand.choice(['close', 'drop', 'throw'])
            fired['stream ' + how] = fired.get('stream ' + how, 0) + 1
            self.run(dictionary, rand.choice('SSG'), word, rand.randint(0, 2), how)
        else:
            name = rand.choice(sorted(INTERRUPTIONS))

            def fire(_frame):
                fired[name] = fired.get(name, 0) + 1
                raise INTERRUPTIONS[name]('simulated interruption')

            kind = rand.choice('SSGLLX')
            step = 1 + int(rand.random() ** 2 * cost[0] if kind in STREAMS else rand.random() * cost[1])
            stepper = Stepper(False, [(step, fire)], signals=True)
            stepper.start()
            try:
                self.run(dictionary, kind, word, None, None)
            except BaseException:                       # pylint: disable=broad-except
                pass
            finally:
                stepper.stop()

    def run(self, dictionary, kind, word, limit, how):
        try:
            res = QUERY_KINDS[kind](dictionary, word)
            if kind not in STREAMS:
                return
            res = iter(res)
            if limit is None:
                for _ in res:
                    pass
                return
            for _ in zip(range(limit), res):
                pass
            if how == 'close' and hasattr(res, 'close'):
                res.close()
            elif how == 'throw' and hasattr(res, 'throw'):
                try:
                    res.throw(KeyError('simulated'))
                except (KeyError, StopIteration):
                    pass
        except Exception:                               # pylint: disable=broad-except
            pass

    def shrink(self, plan):
        return []


PROPERTY = Accumulation
