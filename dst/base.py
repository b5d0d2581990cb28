"""
What a property check consists of. A *block* of runs shares one choice of dictionaries (and so the reference
answers); a run has a plan, which is explicit data, and the execution of a plan is a function of the plan and the
code under test alone.
"""

import copy

from dst import corpus
from dst.core import rng


class Property:
    id = None
    technique = ''
    # (blocks, runs per block) per tier
    size = {'quick': (40, 8), 'thorough': (400, 12)}
    # wall-clock guard of one run; only a hang of the code under test can reach it
    guard = 120
    hang_is_violation = True
    real = []           # components that ran real code
    stub = []           # components that were simulated
    rule = ''
    assumptions = []

    def __init__(self, env):
        self.env = env              # Worker: refs, scratch

    # -- to be defined by properties

    def block(self, rand):
        """Choose what the runs of a block share; None to skip the block."""
        raise NotImplementedError

    def plan(self, rand, block):
        """An explicit plan (JSON) of one run, with 'dicts': keys of the dictionaries used."""
        raise NotImplementedError

    def prepare(self, plan):
        """Data the execution needs (reference answers); computed outside of the run."""
        return None

    def execute(self, plan, prepared):
        """
        Run in a forked child. Returns {'violation': None or {...}, 'faults': {kind: count}, 'trace': hashable,
        'steps': int, 'trivial': bool}
        """
        raise NotImplementedError

    def explicit(self, plan, res):
        """The plan with all chances replaced by what happened; the result has it as 'explicit'."""
        return dict(plan, **res['explicit']) if res.get('explicit') else None

    def shrink(self, plan):
        """Smaller plans to try, best first."""
        return []


def without(items, start, size):
    return items[:start] + items[start + size:]


def chunks(items):
    """(start, size) pieces to drop, big ones first."""
    size = len(items)
    while size >= 1:
        for start in range(0, len(items), size):
            yield start, size
        size //= 2


def drop_from(plan, *path):
    """Plans with pieces of the list at ``path`` dropped."""
    target = plan
    for key in path:
        target = target[key]
    for start, size in chunks(target):
        smaller = copy.deepcopy(plan)
        holder = smaller
        for key in path[:-1]:
            holder = holder[key]
        holder[path[-1]] = without(holder[path[-1]], start, size)
        yield smaller


def choose_dictionary(rand, fixtures=0.45, exotic=0.0, similar=0.14, big=0.0):
    dice = rand.random()
    if dice < fixtures:
        names = corpus.fixture_names()
        if rand.random() < 0.4:
            # one for a directive, so that rare ones have their turn
            names = rand.choice(corpus.by_directive())
        return 'fx:' + rand.choice(names)
    if dice < fixtures + exotic:
        kind = 'exo'
    else:
        kind = 'sim' if dice > 1 - similar else 'big' if dice > 1 - similar - big else 'syn'
    return f'{kind}:{rand.randrange(10 ** 9)}'


def related(rand, words):
    """Reorder words so that ones likely to share internal state (same letters, other case) come close."""
    groups = {}
    for word in words:
        groups.setdefault(word.lower()[:2], []).append(word)
    keys = sorted(groups)
    rand.shuffle(keys)
    return [word for key in keys for word in groups[key]]


def query_block(rand, refs, key, count=14):
    """What blocks of most properties are: a dictionary and a pool of its queries."""
    return {'dict': key, 'queries': pick_queries(rand, refs, key, count)}


def some(rand, items, low, high):
    return rand.sample(items, min(len(items), rand.randint(low, high)))


# what else people may ask for
ODD = ['', ' ', '-', '--', '.', "'", '0', '1.5', '2-3', '-1', 'a b', '\x00', '\ud800', '\ufb01n', '\u0130', 'i\u0307', '\u01c5', 'e\u0301', '\xdf', 'SS',
       '\u200b', 'x' * 30, 'X' * 12, 'ab-' * 4]


def pick_queries(rand, refs, key, count, kinds='LLSSSGFCX'):
    """
    Queries of a dictionary that have references (and so are known to end quickly): [(kind, word)].
    """
    words = corpus.get(key).words
    if not words:
        return []
    words = related(rand, words)
    start = rand.randrange(len(words))
    words = (words[start:] + words[:start])[:max(3, count // 2)]
    if rand.random() < 0.5:
        # words made of others, or written in another way
        for _ in range(3):
            one, two = rand.choice(words), rand.choice(words)
            words.append(rand.choice([one + two, f'{one}-{two}', f'{one}-{two}', one + '.', one.upper(), one.capitalize(), one[::-1], f'-{one}',
                                      corpus.typos(rand, one, two) if two else one])[:20])
    wanted = []
    for _ in range(count):
        wanted.append((rand.choice(kinds), rand.choice(ODD if rand.random() < 0.05 else words)))
    # the main query kinds for the same words, so that different kinds meet
    wanted += [(kind, rand.choice(words)) for kind in 'LS']
    found = refs.get(key, wanted)
    return [q for q in dict.fromkeys(wanted) if found[q] is not None]


def flood(rand, key, size=None):
    """Many queries of other words, to fill (and overfill) what may be kept of queries."""
    letters = sorted({ch for word in corpus.get(key).words for ch in word if ch.isalpha()})
    size = size or rand.choice([300, 1200, 3000])
    # now and then more than a thousand streams
    often = 1 if size == 3000 and rand.random() < 0.1 else 40
    return ['W', 0, size, rand.randrange(10 ** 6), ''.join(letters[:12]) or 'ab', often]


def seed_of(*parts):
    return rng(*parts).randrange(10 ** 12)
