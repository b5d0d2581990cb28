"""
Executes operations on dictionaries and compares every result with the reference.

Operations (JSON lists), ``d`` is the index of the dictionary:

    ['Q', d, kind, word]            complete query
    ['P', d, kind, word, k, how]    take k items of a stream, then stop: how = close / drop / throw
    ['O', d, handle, kind, word]    open a stream
    ['N', d, handle, n]             take up to n items of it
    ['E', d, handle, how]           stop it: close / drop / throw
    ['GC']                          collect garbage
    ['W', d, n, seed, letters, m]   n lookups, and a suggestion every m-th time, of other words; all that is expected of the results
                                    is that a call that fails does so again
    ['I', op, step, exc, opcodes]   op with an interruption at the given step inside the library
    ['R', op, depth]                op with that much stack left
    ['T', d, n, seed, exc]          n queries of those that have references, each interrupted somewhere
    ['H', n, op]                    op in helper thread n, while the main thread waits; n = -1: a thread that ends after it
    ['V', n, op]                    op in context n (of contextvars)
"""

import _thread
import contextvars
import gc
import sys

from dst.core import QUERY_KINDS, STREAMS, canon, query, rng
from dst.sched import SimDeadlock, SimLock
from dst.trace import Stepper


class SimTimeout(Exception):
    """The kind of exception a timeout handler raises."""


class SimInterrupt(BaseException):
    """The kind of exception a cancelled task raises."""


INTERRUPTIONS = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'Timeout': SimTimeout,
    'Cancelled': SimInterrupt,
}


def fails(call):
    """Name of the exception, if any."""
    try:
        call()
    except Exception as exc:                            # pylint: disable=broad-except
        return type(exc).__name__
    return None


class Stream:
    def __init__(self, d, kind, word, iterator):
        self.d = d
        self.kind = kind
        self.word = word
        self.iterator = iterator
        self.items = []
        self.lock = SimLock()


class Helper:
    """A thread that does what it is told while the one that tells it waits."""

    def __init__(self):
        self.task = None
        self.failure = None
        self.ready = _thread.allocate_lock()
        self.done = _thread.allocate_lock()
        self.ready.acquire()
        self.done.acquire()
        _thread.start_new_thread(self.run, ())

    def run(self):
        while True:
            self.ready.acquire()
            if self.task is None:
                self.done.release()
                return
            try:
                self.task()
            except BaseException as exc:                # pylint: disable=broad-except
                self.failure = exc
            self.task = None
            self.done.release()

    def tell(self, task):
        self.task = task
        self.ready.release()
        self.done.acquire()
        failure, self.failure = self.failure, None
        if failure is not None:
            raise failure


class Session:
    """Operations on loaded dictionaries; ``refs[d]`` are reference answers for ``dictionaries[d]``."""

    def __init__(self, dictionaries, refs):
        self.dictionaries = dictionaries
        self.refs = refs
        self.streams = {}
        self.problems = []
        self.fired = {}
        self.done = 0
        self.helpers = {}
        self.contexts = {}

    def problem(self, kind, op, expected, got, where=None):
        self.problems.append({'kind': kind, 'op': op, 'where': where, 'expected': expected, 'got': got})

    def expected(self, d, kind, word):
        return self.refs[d][kind, word]['answer']

    def count(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    # -- comparisons

    def check(self, op, d, kind, word, got, where):
        expected = self.expected(d, kind, word)
        if got != expected:
            self.problem('answer', op, expected, got, where)

    def check_prefix(self, op, stream, where):
        expected = self.expected(stream.d, stream.kind, stream.word)[1]
        if stream.items != expected[:len(stream.items)]:
            self.problem('answer', op, expected, stream.items, where)

    # -- operations

    def do(self, op, where=None):
        self.done += 1
        getattr(self, 'op_' + op[0])(op, where)

    def op_Q(self, op, where):
        _, d, kind, word = op
        self.check(op, d, kind, word, query(self.dictionaries[d], kind, word), where)

    def op_P(self, op, where):
        _, d, kind, word, k, how = op
        handle = f'taken at {where}'
        self.open(op, handle, d, kind, word, where)
        self.pull(op, handle, k, where)
        self.end(op, handle, how, where)

    def op_O(self, op, where):
        _, d, handle, kind, word = op
        self.open(op, handle, d, kind, word, where)

    def op_N(self, op, where):
        _, _d, handle, n = op
        self.pull(op, handle, n, where)

    def op_E(self, op, where):
        _, _d, handle, how = op
        self.end(op, handle, how, where)

    def op_GC(self, _op, _where):
        self.count('gc')
        gc.collect()

    def op_H(self, op, where):
        _, number, inner = op
        self.count('other thread')
        helper = self.helpers.setdefault(number, None) or Helper()
        if number >= 0:
            self.helpers[number] = helper
        helper.tell(lambda: self.do(inner, where))
        if number < 0:
            helper.tell(None)

    def op_V(self, op, where):
        _, number, inner = op
        self.count('other context')
        context = self.contexts.setdefault(number, contextvars.Context())
        context.run(self.do, inner, where)

    def op_W(self, op, where):
        _, d, number, seed, letters, often = op
        rand = rng('flood', seed)
        dictionary = self.dictionaries[d]
        self.count('flood')
        for num in range(number):
            word = ''.join(rand.choice(letters) for _ in range(rand.randint(1, 7)))
            if rand.random() < 0.2:
                word = rand.choice([word.upper(), word.capitalize()])
            failed = fails(lambda: dictionary.lookup(word))     # pylint: disable=cell-var-from-loop
            if failed and not fails(lambda: dictionary.lookup(word)):
                return self.problem('failure', [*op[:2], num, *op[3:]], 'as when it is repeated', [failed, 'lookup', word], where)
            if num % often == 0 and len(word) < 5:
                failed = fails(lambda: [*zip(range(2), dictionary.suggest(word))])
                if failed and not fails(lambda: [*zip(range(2), dictionary.suggest(word))]):
                    return self.problem('failure', [*op[:2], num, *op[3:]], 'as when it is repeated', [failed, 'suggest', word], where)
        return None

    def open(self, op, handle, d, kind, word, where):
        try:
            iterator = iter(QUERY_KINDS[kind](self.dictionaries[d], word))
        except Exception as exc:                        # pylint: disable=broad-except
            # an implementation may do some of the work (and fail) when the stream is asked for
            expected = self.expected(d, kind, word)
            if type(exc).__name__ != expected[2]:
                self.problem('answer', op, expected, ['raised', type(exc).__name__], where)
            return
        self.streams[handle] = Stream(d, kind, word, iterator)

    def pull(self, op, handle, n, where):
        stream = self.streams.get(handle)
        if stream is None:
            return
        with stream.lock:
            if self.streams.get(handle) is not stream:
                return
            for _ in range(n):
                try:
                    stream.items.append(canon(next(stream.iterator)))
                except StopIteration:
                    expected = self.expected(stream.d, stream.kind, stream.word)
                    if stream.items != expected[1] or expected[2] is not None:
                        self.problem('answer', op, expected, ['seq', stream.items, None], where)
                    self.streams.pop(handle, None)
                    return
                except Exception as exc:                # pylint: disable=broad-except
                    expected = self.expected(stream.d, stream.kind, stream.word)
                    got = ['seq', stream.items, type(exc).__name__]
                    if got != expected:
                        self.problem('answer', op, expected, got, where)
                    self.streams.pop(handle, None)
                    return
            self.check_prefix(op, stream, where)

    def end(self, op, handle, how, where):
        stream = self.streams.get(handle)
        if stream is None:
            return
        with stream.lock:
            self.streams.pop(handle, None)
            self.count('stream ' + how)
            try:
                if how == 'close' and hasattr(stream.iterator, 'close'):
                    stream.iterator.close()
                elif how == 'throw' and hasattr(stream.iterator, 'throw'):
                    try:
                        item = stream.iterator.throw(SimTimeout())
                        self.problem('close', op, None, ['went on with', canon(item)], where)
                    except SimTimeout:
                        pass
                    except StopIteration:
                        pass
            except Exception as exc:                    # pylint: disable=broad-except
                self.problem('close', op, None, ['raised', type(exc).__name__], where)
            stream.iterator = None

    # -- interrupted operations (single-threaded)

    def op_I(self, op, where):
        _, inner, step, exc_name, opcodes = op
        exc = INTERRUPTIONS[exc_name]

        def fire(_frame):
            self.count(exc_name)
            raise exc('simulated interruption')

        self.interrupted(op, inner, where, Stepper(opcodes, [(step, fire)], signals=True))

    def op_R(self, op, where):
        _, inner, depth = op
        self.interrupted(op, inner, where, None, depth)

    def op_T(self, op, where):
        _, d, number, seed, exc_name = op
        rand = rng('storm', seed)
        queries = sorted(self.refs[d], key=lambda q: (self.refs[d][q]['profile']['steps'], q))
        queries = queries[:max(1, len(queries) // 2)]
        for _ in range(number):
            kind, word = rand.choice(queries)
            steps = self.refs[d][kind, word]['profile']['steps']
            self.op_I(['I', ['Q', d, kind, word], rand.randint(1, max(1, steps)), exc_name, False], where)
            if self.problems:
                self.problems[0]['op'] = op
                return

    def interrupted(self, op, inner, where, stepper, depth=None):
        """
        An interruption may strike anywhere: then the call raises, or gives the right result nevertheless.
        What a stream delivered before is a correct prefix.
        """
        _, d, kind, word, *rest = inner
        limit = rest[0] if inner[0] == 'P' else None
        expected = self.expected(d, kind, word)
        items, value, raised = [], None, None
        normal = sys.getrecursionlimit()
        if depth is not None:
            frame, used = sys._getframe(), 0
            while frame:
                frame, used = frame.f_back, used + 1
            sys.setrecursionlimit(used + 4 + depth)
        if stepper:
            stepper.start()
        try:
            res = QUERY_KINDS[kind](self.dictionaries[d], word)
            if kind in STREAMS:
                for item in res:
                    items.append(item)
                    if limit is not None and len(items) >= limit:
                        break
            else:
                value = res
        except SimDeadlock:
            raise
        except BaseException as exc:                    # pylint: disable=broad-except
            raised = type(exc)
            del exc
        finally:
            if stepper:
                stepper.stop()
            sys.setrecursionlimit(normal)
        res = None
        if raised is RecursionError and stepper is None:
            self.count('stack exhausted')
        items, value = canon(items), canon(value)
        if kind in STREAMS:
            if items != expected[1][:len(items)]:
                self.problem('interrupted', op, expected, items, where)
            elif raised is None and limit is None and (items != expected[1] or expected[2]):
                self.problem('interrupted', op, expected, ['seq', items, None], where)
        elif raised is None and (value != expected[1] or expected[2]):
            self.problem('interrupted', op, expected, ['val', value, None], where)
