"""
Basics: where things are, seeded randomness, isolated execution in forked children,
canonical form of results.
"""

import dataclasses
import enum
import gc
import hashlib
import os
import pickle
import random
import resource
import select
import signal
import sys
import tempfile
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
LIB = os.path.join(REPO, 'spylls') + os.sep

# Real functions, kept before any simulation patches them
real_monotonic = _time.monotonic
real_sleep = _time.sleep

MEMORY_LIMIT = 6 << 30


def rng(*parts):
    """The only source of randomness: a private generator derived from printable parts."""
    digest = hashlib.sha256('\x1f'.join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(digest, 'big'))


def digest(obj):
    return hashlib.sha256(repr(obj).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


class Scratch:
    """Scratch directory owned by one process; removed on exit. Children make subdirectories."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='spylls-dst-')
        self.owner = os.getpid()

    def remove(self):
        if os.getpid() != self.owner or not os.path.basename(self.root).startswith('spylls-dst-'):
            return
        for folder, dirs, files in os.walk(self.root, topdown=False):
            for name in files:
                os.unlink(os.path.join(folder, name))
            for name in dirs:
                path = os.path.join(folder, name)
                if os.path.islink(path):
                    os.unlink(path)
                else:
                    os.rmdir(path)
        os.rmdir(self.root)


class Outcome:
    """What came of a forked call: kind is ok / error / timeout / died."""

    def __init__(self, kind, value=None):
        self.kind = kind
        self.value = value


def isolated(func, *args, timeout=300):
    """
    Run ``func(*args)`` in a forked child of this (pristine) process and return an Outcome.
    The wall-clock limit only guards the harness: it is never a part of a verdict of a normal run.
    """
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(rfd)
            gc.disable()
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
            except (ValueError, OSError):
                pass
            try:
                payload = ('ok', func(*args))
            except BaseException:               # pylint: disable=broad-except
                payload = ('error', traceback.format_exc())
            sys.settrace(None)
            data = pickle.dumps(payload)
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
            status = 0
        finally:
            os._exit(status)
    os.close(wfd)
    chunks = []
    deadline = real_monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - real_monotonic()
        if left <= 0 or not select.select([rfd], [], [], left)[0]:
            timed_out = True
            break
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return Outcome('timeout')
    try:
        kind, value = pickle.loads(b''.join(chunks))
    except Exception:                           # pylint: disable=broad-except
        return Outcome('died', status)
    return Outcome(kind, value)


class HarnessError(Exception):
    """The harness (not the code under test) is at fault."""


# -- canonical form of results ---------------------------------------------------------------------

def canon(obj, depth=0):
    """A comparable, picklable, address-free form of a result."""
    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        return obj
    if isinstance(obj, enum.Enum):
        return obj.name
    if depth > 12:
        return '...'
    if isinstance(obj, (list, tuple)):
        return [canon(item, depth + 1) for item in obj]
    if isinstance(obj, (set, frozenset)):
        return ['set', *sorted((canon(item, depth + 1) for item in obj), key=repr)]
    if isinstance(obj, dict):
        return ['dict', *sorted(([canon(k, depth + 1), canon(v, depth + 1)] for k, v in obj.items()), key=repr)]
    if dataclasses.is_dataclass(obj):
        return [type(obj).__name__,
                *[[f.name, canon(getattr(obj, f.name, None), depth + 1)]
                  for f in dataclasses.fields(obj) if not f.name.startswith('_')]]
    if hasattr(obj, 'pattern') and hasattr(obj, 'flags'):
        return ['re', obj.pattern]
    return ['object', type(obj).__name__]


def content(dictionary):
    """
    The documented contents of a loaded dictionary: entries of the word list and settings of the affix file
    (the directives, which are the upper-case fields). Indexes and other derived data are left out.
    """
    words = [
        [getattr(w, 'stem', None), sorted(getattr(w, 'flags', None) or ()), canon(dict(getattr(w, 'data', None) or {})),
         list(getattr(w, 'alt_spellings', None) or ())]
        for w in getattr(getattr(dictionary, 'dic', None), 'words', ())
    ]
    aff = getattr(dictionary, 'aff', None)
    names = [f.name for f in dataclasses.fields(aff)] if dataclasses.is_dataclass(aff) else sorted(getattr(aff, '__dict__', ()))
    settings = [[name, canon(getattr(aff, name))] for name in sorted(names) if name.isupper()]
    return [words, settings]


# -- queries ---------------------------------------------------------------------------------------

# Kinds of complete queries. All of them are pure functions of (dictionary files, word).
QUERY_KINDS = {
    'L': lambda d, w: d.lookup(w),
    'S': lambda d, w: d.suggest(w),
    'G': lambda d, w: ((s.kind, s.text) for s in d.suggester.suggestions(w)),
    'F': lambda d, w: d.lookuper.good_forms(w),
    'C': lambda d, w: d.lookuper(w, capitalization=False),
    'X': lambda d, w: d.lookuper(w, allow_nosuggest=False),
}
STREAMS = 'SGF'


def query(dictionary, kind, word, each=lambda: None):
    """
    Execute one complete query, return its canonical answer: ['val', v] / ['seq', [...]] / + exception. ``each`` is called after
    every item.
    """
    items = []
    try:
        res = QUERY_KINDS[kind](dictionary, word)
        if kind in STREAMS:
            for item in res:
                items.append(canon(item))
                each()
            return ['seq', items, None]
        return ['val', canon(res), None]
    except Exception as exc:                        # pylint: disable=broad-except
        return ['seq' if kind in STREAMS else 'val', items, type(exc).__name__]
