"""
Reference answers: what a query gives on a freshly loaded dictionary that nobody else uses, in a process that did
nothing else. Computed by the code under test itself, so that a change of the language rules is not an alarm here.
"""

import os

from dst import corpus
from dst.core import HarnessError, isolated, query
from dst.trace import Lines, Profiler

MAX_STEPS = 120_000         # lines of library code; costlier queries are left out
MAX_OPCODE_STEPS = 150_000


class TooSlow(BaseException):
    pass


def _too_slow():
    raise TooSlow


def load(path):
    from spylls.hunspell import Dictionary
    return Dictionary.from_files(path)


def _profiled(dictionary, kind, word, opcodes, limit):
    profiler = Profiler(opcodes, limit, _too_slow)
    marks = []
    try:
        with profiler:
            answer = query(dictionary, kind, word, lambda: marks.append(profiler.steps))
    except TooSlow:
        return None
    again = Lines()
    if limit == MAX_STEPS or opcodes:
        with again:
            query(dictionary, kind, word)
    return {'answer': answer, 'profile': dict(profiler.result(again.seen), marks=marks)}


def _answer_all(path, queries, limit):
    dictionary = load(path)
    res = []
    for kind, word in queries:
        out = isolated(_profiled, dictionary, kind, word, False, limit, timeout=60)
        if out.kind == 'ok':
            res.append(out.value)
        elif out.kind == 'error':
            raise HarnessError(out.value)
        else:
            res.append(None)
    return res


def _profile_opcodes(path, queries):
    dictionary = load(path)
    res = []
    for kind, word in queries:
        out = isolated(_profiled, dictionary, kind, word, True, MAX_OPCODE_STEPS, timeout=60)
        res.append(out.value['profile'] if out.kind == 'ok' and out.value else None)
    return res


class Refs:
    """Cache of reference answers of one worker."""

    def __init__(self, scratch, limit=MAX_STEPS):
        self.scratch = scratch
        self.limit = limit
        self.cache = {}
        self.lines = set()
        self.skipped = 0

    def path(self, key):
        folder = os.path.join(self.scratch.root, 'ref-' + key.replace(':', '-'))
        if not os.path.isdir(folder):
            corpus.write(key, folder)
        return os.path.join(folder, 'dict')

    def get(self, key, queries):
        """{(kind, word): {'answer', 'profile'}}; queries that are too slow or fail to end are None."""
        if len(self.cache) > 20000:
            self.cache.clear()
        missing = [q for q in dict.fromkeys(map(tuple, queries)) if (key, q) not in self.cache]
        if missing:
            out = isolated(_answer_all, self.path(key), missing, self.limit, timeout=600)
            if out.kind != 'ok':
                # The dictionary cannot be loaded at all: nothing to compare with
                raise HarnessError(f'no reference for {key}: {out.kind} {out.value}')
            for item, value in zip(missing, out.value):
                self.cache[key, item] = value
                if value is None:
                    self.skipped += 1
                else:
                    self.lines.update(value['profile'].pop('lines'))
        return {tuple(q): self.cache[key, tuple(q)] for q in queries}

    def profiles(self, key, queries, opcodes):
        """{(kind, word): profile}; for instructions instead of lines it may be None (too long)."""
        refs = self.get(key, queries)
        if not opcodes:
            return {q: ref['profile'] for q, ref in refs.items()}
        missing = [q for q, ref in refs.items() if 'oprofile' not in ref and ref['profile']['steps'] < MAX_OPCODE_STEPS / 6]
        if missing:
            out = isolated(_profile_opcodes, self.path(key), missing, timeout=600)
            if out.kind != 'ok':
                raise HarnessError(f'no profile for {key}: {out.kind} {out.value}')
            for item, value in zip(missing, out.value):
                if value:
                    value.pop('lines')
                    if refs[item]['profile']['steps'] and not value['steps']:
                        raise HarnessError('instructions are not traced')
                refs[item]['oprofile'] = value
        return {q: ref.get('oprofile') for q, ref in refs.items()}
