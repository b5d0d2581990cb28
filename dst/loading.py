"""Loads of dictionaries through simulated I/O: containers, reference contents, points to inject faults at."""

import os
import zipfile

from dst import corpus
from dst.core import HarnessError, content, isolated, query, rng
from dst.simio import SimIO, draw_style
from dst.trace import Lines, Profiler

CONTAINERS = ['files', 'stored', 'deflated']


def put(path, data):
    """Write a file anew, atomically (also over a file that is open somewhere)."""
    with open(path + '.new', 'wb') as file:
        file.write(data)
    os.replace(path + '.new', path)


def archive(path, members, container, seed=0):
    """
    An archive with given members {name: bytes} and sometimes with others, never two of a kind. The seed decides on names,
    order and others.
    """
    rand = rng('archive', seed)
    items = list(members.items())
    if rand.random() < 0.4:
        items.append(('META-INF/manifest.xml', b'<manifest/>' * rand.randint(1, 20)))
    if rand.random() < 0.3:
        items.append(('README_' + 'x' * rand.randint(0, 30) + '.txt', b'Dictionary\n'))
    if rand.random() < 0.2:
        items.append(('dictionaries/', b''))
    rand.shuffle(items)
    method = zipfile.ZIP_STORED if container == 'stored' else rand.choice([zipfile.ZIP_DEFLATED] * 4 + [zipfile.ZIP_BZIP2])
    comment = rand.random() < 0.3
    # one written to a pipe has sizes and checksums after the data
    piped = rand.random() < 0.25
    with open(path + '.new', 'wb') as raw, zipfile.ZipFile(Pipe(raw) if piped else raw, 'w') as file:
        for name, data in items:
            info = zipfile.ZipInfo(name, date_time=(2020, 1, 1, 0, 0, 0))
            info.compress_type = method
            file.writestr(info, data)
        if comment:
            file.comment = b'comment'
    os.replace(path + '.new', path)


class Pipe:
    """A file that can only be written to, from start to end."""

    def __init__(self, file):
        self.write = file.write
        self.flush = file.flush


def build(folder, aff, dic, container, seed=0, name='dict'):
    """Put the dictionary into the folder; returns path to load."""
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, name)
    if container == 'files':
        put(path + '.aff', aff)
        put(path + '.dic', dic)
        return path
    prefix = rng('archive names', seed).choice(['', 'dictionaries/', 'a/b c/'])
    archive(path + '.zip', {prefix + 'xx.aff': aff, prefix + 'xx.dic': dic}, container, seed)
    return path + '.zip'


def load(container, path):
    from spylls.hunspell import Dictionary
    return Dictionary.from_files(path) if container == 'files' else Dictionary.from_zip(path)


def observe(dictionary, queries=()):
    return [content(dictionary), [query(dictionary, *q) for q in queries]]


def _reference(container, path, queries):
    try:
        dictionary = load(container, path)
    except Exception as exc:                            # pylint: disable=broad-except
        return None, type(exc).__name__
    return observe(dictionary, queries), None


def reference(folder, aff, dic, queries=(), container='files', seed=0):
    """Contents (and answers) after a plain load by an isolated process; (None, error) if it cannot be loaded."""
    path = build(folder, aff, dic, container, seed)
    out = isolated(_reference, container, path, list(queries), timeout=120)
    if out.kind != 'ok':
        raise HarnessError(f'reference load: {out.kind} {out.value}')
    return out.value


def _dry(container, path, style, seed):
    sim = SimIO([os.path.dirname(path)], style=style, rand=rng('reads', seed)).install()
    with sim:
        try:
            load(container, path)
        except Exception:                               # pylint: disable=broad-except
            pass
    return [(kind, os.path.basename(shown)) for kind, shown in sim.events], sim.spans


def dry_run(container, path, style, seed, spans=False):
    """Events of a load without faults, to aim at; with ``spans`` also what the reads deliver."""
    out = isolated(_dry, container, path, style, seed, timeout=120)
    if out.kind != 'ok':
        raise HarnessError(f'dry run: {out.kind} {out.value}')
    return out.value if spans else out.value[0]


def _profile(container, path, opcodes):
    profiler = Profiler(opcodes)
    with profiler:
        load(container, path)
    again = Lines()
    with again:
        load(container, path)
    return profiler.result(again.seen)


def profile(container, path, opcodes=False):
    out = isolated(_profile, container, path, opcodes, timeout=120)
    if out.kind != 'ok':
        raise HarnessError(f'profile of load: {out.kind} {out.value}')
    return out.value


def draw_event(rand, events, kinds):
    """An event to hit: kinds first, so that rare ones are hit as often as frequent ones; None if there is none."""
    present = sorted({(kind, name) for kind, name in events if kind in kinds})
    if not present:
        return None
    chosen = rand.choice(present)
    numbers = [n for n, event in enumerate(events) if tuple(event) == chosen]
    if rand.random() < 0.3:
        return rand.choice([numbers[0], numbers[-1]])
    return rand.choice(numbers)


def bytes_of(key):
    files = corpus.get(key)
    return files.aff, files.dic


def style_for(rand):
    """Style and its seed; mostly with small reads, so that a load has many points to fail at."""
    return draw_style(rand), rand.randrange(10 ** 9)


def first_difference(expected, got, path=''):
    """A short description of where two contents differ."""
    if type(expected) is not type(got):
        return f'{path}: {str(expected)[:80]!r} became {str(got)[:80]!r}'
    if isinstance(expected, (list, tuple)):
        for num, (one, two) in enumerate(zip(expected, got)):
            if one != two:
                return first_difference(one, two, f'{path}[{num}]')
        if len(expected) != len(got):
            return f'{path}: {len(expected)} items became {len(got)}'
        return None
    if expected != got:
        return f'{path}: {str(expected)[:80]!r} became {str(got)[:80]!r}'
    return None
