"""C06: loaded content equals file content, however the bytes are delivered."""

import os

from dst import corpus, loading, syndict
from dst.base import Property, choose_dictionary, pick_queries
from dst.core import HarnessError, canon, content, query, rng
from dst.simio import SimIO

NEWLINES = {'lf': '\n', 'crlf': '\r\n', 'cr': '\r'}


def variants(rand, fixture, unicode):
    """How the files are written down."""
    return {
        'newline': rand.choice(['lf', 'lf', 'crlf', 'cr']),
        'bom': [unicode and rand.random() < 0.35, unicode and rand.random() < 0.35],
        'blank': None if rand.random() < 0.5 else rand.randrange(10 ** 6),
        'final': rand.random() < 0.7,
        'count': fixture or rand.random() < 0.85,
    }


def rewrite(data, newline, bom, final):
    """The same for files of a fixture."""
    if b'\r' not in data:
        data = data.replace(b'\n', NEWLINES[newline].encode())
        if not final:
            while data[-1:] in (b'\n', b'\r'):
                data = data[:-1]
    if bom and not data.startswith(b'\xef\xbb\xbf'):
        data = b'\xef\xbb\xbf' + data
    return data


def rendered(key, how):
    if key.startswith('fx:'):
        files = corpus.get(key)
        return [rewrite(data, how['newline'], how['bom'][num], how['final']) for num, data in enumerate((files.aff, files.dic))]
    model = syndict.model(key)
    blank = None if how['blank'] is None else rng('blank', how['blank'])
    return model.render(NEWLINES[how['newline']], how['bom'], blank, how['final'], how['count'])


def against_model(key, dictionary):
    """Compare a loaded dictionary with the model it was written from; a description of the first difference, or None."""
    model = syndict.model(key)
    try:
        words = [[w.stem, sorted(w.flags), dict(w.data)] for w in dictionary.dic.words]
    except AttributeError:
        # contents are kept in some other way; there are still the answers
        return None
    difference = loading.first_difference(canon(model.expected_words()), canon(words), 'words')
    if difference:
        return difference
    expected = model.expected_settings()
    observed = syndict.observed_settings(dictionary.aff, expected)
    for name in sorted(observed):
        wanted = canon(syndict.normalize_expected(name, expected[name], model))
        difference = loading.first_difference(wanted, canon(observed[name]), name)
        if difference:
            return difference
    return None


class Delivery(Property):
    id = 'C06'
    size = {'quick': (320, 20), 'thorough': (2400, 24)}
    rule = ('one run: one dictionary written in one of the equivalent ways (line ends, byte-order marks, blank lines, final line '
            'end, word count), put into files or an archive, and loaded while reads are short, interrupted and buffered in '
            'chosen sizes; distinct = distinct (dictionary, way of writing, container, delivery); trivial = plain files '
            'delivered as usual')
    real = ['spylls (all of it)', 'zipfile, io buffering and decoding']
    stub = ['operating system calls on files (sizes of reads, signals)']
    assumptions = ['the model of a generated dictionary (dst/syndict.py) reads the documented format; fixtures are compared with '
                   'a plain load of the fixture']

    def block(self, rand):
        key = choose_dictionary(rand, fixtures=0.3, exotic=0.35, big=0.07)
        unicode = corpus.get(key).encoding.upper() == 'UTF-8'
        queries = pick_queries(rand, self.env.refs, key, 3, 'LLS')
        return {'dict': key, 'unicode': unicode, 'queries': queries}

    def plan(self, rand, block):
        key = block['dict']
        how = variants(rand, key.startswith('fx:'), block['unicode'])
        style, seed = loading.style_for(rand)
        return {'dicts': [key], 'container': rand.choice(loading.CONTAINERS), 'how': how, 'style': style, 'seed': seed,
                'interrupts': sorted(rand.sample(range(1, 60), rand.randint(1, 8))) if rand.random() < 0.5 else [],
                'names': rand.randrange(10 ** 6), 'queries': [list(q) for q in block['queries']]}

    def prepare(self, plan):
        key = plan['dicts'][0]
        files = corpus.get(key)
        folder = os.path.join(self.env.scratch.root, 'c06-' + key.replace(':', '-'))
        expected = None
        if key.startswith('fx:'):
            expected = self.env.memo(('c06', key), lambda: loading.reference(folder, files.aff, files.dic))[0]
            if expected is None:
                raise HarnessError('fixture cannot be loaded')
        queries = [tuple(q) for q in plan['queries']]
        return {'expected': expected, 'refs': self.env.refs.get(key, queries), 'queries': queries, 'folder': folder}

    def execute(self, plan, prepared):
        key = plan['dicts'][0]
        aff, dic = rendered(key, plan['how'])
        path = loading.build(os.path.join(prepared['folder'], 'run'), aff, dic, plan['container'], plan['names'])
        sim = SimIO([os.path.dirname(path)], {n: ['intr'] for n in plan['interrupts']}, plan['style'],
                    rng('reads', plan['seed'])).install()
        violation = None
        try:
            with sim:
                dictionary = loading.load(plan['container'], path)
        except Exception as exc:                        # pylint: disable=broad-except
            violation = {'kind': 'raised', 'got': f'{type(exc).__name__}: {exc}'[:300]}
        if violation is None:
            if prepared['expected'] is not None:
                difference = loading.first_difference(prepared['expected'][0], content(dictionary))
            else:
                difference = against_model(key, dictionary)
            if difference:
                violation = {'kind': 'content', 'difference': difference}
        if violation is None:
            for kind, word in prepared['queries']:
                expected = prepared['refs'][kind, word]['answer']
                got = query(dictionary, kind, word)
                if got != expected:
                    violation = {'kind': 'answer', 'query': [kind, word], 'expected': expected, 'got': got}
                    break
        short = plan['style'].get('short')
        faults = dict(sim.fired)
        if short:
            faults['short reads'] = sum(kind == 'read' for kind, _ in sim.events)
        return {'violation': violation, 'faults': faults,
                'trace': (plan['dicts'], plan['container'], plan['how'], plan['style'], [kind for kind, _ in sim.events]),
                'steps': len(sim.events),
                'trivial': not plan['style'] and plan['container'] == 'files' and not sim.fired}

    def shrink(self, plan):
        for smaller in (dict(plan, interrupts=[]), dict(plan, container='files'), dict(plan, queries=[])):
            if smaller != plan:
                yield smaller
        for name in sorted(plan['style']):
            yield dict(plan, style={k: v for k, v in plan['style'].items() if k != name})
        simple = {'newline': 'lf', 'bom': [False, False], 'blank': None, 'final': True, 'count': True}
        for name, value in simple.items():
            if plan['how'][name] != value:
                yield dict(plan, how=dict(plan['how'], **{name: value}))


PROPERTY = Delivery
