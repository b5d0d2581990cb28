"""C05: read errors during loads."""

import os
import sys

from dst import loading
from dst.base import Property, choose_dictionary, drop_from, pick_queries
from dst.core import rng
from dst.engine import INTERRUPTIONS
from dst.simio import SimIO
from dst.trace import Stepper, draw_point

ERRORS = {
    'open': ['ENOENT', 'EACCES', 'EMFILE', 'EIO', 'ENOMEM', 'ETIMEDOUT', 'EPERM', 'ENOTDIR', 'ELOOP'],
    'read': ['EIO', 'ESTALE', 'ENXIO', 'ENOMEM', 'EISDIR', 'ETIMEDOUT', 'ECONNRESET', 'EPERM', 'ENOENT'],
    'seek': ['EIO', 'ESPIPE', 'EINVAL'],
}


class ReadErrors(Property):
    id = 'C05'
    size = {'quick': (160, 16), 'thorough': (1600, 24)}
    rule = ('one run: 1-4 attempts to load one dictionary (two files or an archive) with an error at a chosen open, read or seek '
            '(once, or from there on), or an asynchronous exception at a chosen step of the loading code, then a load without '
            'faults; distinct = distinct (dictionary, container, delivery, faults) sequences; trivial = no fault fired')
    real = ['spylls (all of it)', 'zipfile, io buffering and decoding']
    stub = ['operating system calls on files (errors, sizes of reads)', 'source of asynchronous exceptions']
    assumptions = ['an operation that fails has no effect', 'a load that succeeds in spite of a fault is accepted if it is complete']

    def block(self, rand):
        key = choose_dictionary(rand, fixtures=0.35, big=0.05)
        container = rand.choice(loading.CONTAINERS)
        folder = os.path.join(self.env.scratch.root, 'c05-' + key.replace(':', '-'))
        path = loading.build(folder, *loading.bytes_of(key), container)
        profile = loading.profile(container, path)
        queries = pick_queries(rand, self.env.refs, key, 4)
        return {'dict': key, 'container': container, 'path': path, 'profile': profile, 'queries': queries}

    def plan(self, rand, block):
        attempts = []
        for _ in range(rand.choice([1, 1, 2, 4])):
            style, seed = loading.style_for(rand)
            attempt = {'style': style, 'seed': seed}
            dice = rand.random()
            if dice < 0.75:
                events = loading.dry_run(block['container'], block['path'], style, seed)
                number = loading.draw_event(rand, events, ERRORS)
                if number is None:
                    continue
                attempt['event'] = number
                attempt['error'] = rand.choice(ERRORS[events[number][0]])
                attempt['lasting'] = rand.random() < 0.3
            elif dice < 0.97:
                attempt['step'] = draw_point(rand, block['profile'])
                attempt['exception'] = rand.choice(sorted(INTERRUPTIONS))
            else:
                attempt['depth'] = rand.randint(1, 15)
            attempts.append(attempt)
        if not attempts:
            return None
        return {'dicts': [block['dict']], 'container': block['container'], 'attempts': attempts,
                'queries': [list(q) for q in block['queries']]}

    def prepare(self, plan):
        key = plan['dicts'][0]
        aff, dic = loading.bytes_of(key)
        folder = os.path.join(self.env.scratch.root, 'c05-' + key.replace(':', '-'))
        queries = [tuple(q) for q in plan['queries']]
        expected = self.env.memo(('c05', key, plan['container'], repr(queries)),
                                 lambda: loading.reference(folder, aff, dic, queries, plan['container']))
        return {'folder': folder, 'expected': expected[0], 'queries': queries}

    def execute(self, plan, prepared):
        path = os.path.join(prepared['folder'], 'dict' + ('' if plan['container'] == 'files' else '.zip'))
        expected, queries = prepared['expected'], prepared['queries']
        trace, violation, steps, fired = [], None, 0, {}
        for num, attempt in enumerate([*plan['attempts'], None]):
            outcome, sim = self.attempt(plan, path, attempt)
            steps += len(sim.events)
            for what, count in sim.fired.items():
                fired[what] = fired.get(what, 0) + count
            trace.append([attempt, sim.fired, outcome if isinstance(outcome, str) else 'loaded'])
            if attempt is None and isinstance(outcome, str):
                violation = {'kind': 'reload', 'attempt': 'after the faults', 'got': outcome}
            elif not isinstance(outcome, str):
                got = loading.observe(outcome, queries)
                if got != expected:
                    violation = {'kind': 'partial' if attempt else 'reload', 'attempt': num,
                                 'difference': loading.first_difference(expected, got)}
            if violation:
                break
        return {'violation': violation, 'faults': fired, 'trace': (plan['dicts'], plan['container'], trace), 'steps': steps,
                'trivial': not fired}

    def attempt(self, plan, path, attempt):
        """(dictionary or name of the exception, simulation)"""
        attempt = attempt or {}
        sim = SimIO([os.path.dirname(path)], style=attempt.get('style'), rand=rng('reads', attempt.get('seed'))).install()
        if 'event' in attempt:
            sim.plan[attempt['event']] = ['raise', attempt['error']]
            if attempt['lasting']:
                sim.lasting = attempt['event']
        points, depth = [], attempt.get('depth')
        if 'step' in attempt:
            def fire(_frame):
                sim.count(attempt['exception'])
                raise INTERRUPTIONS[attempt['exception']]('simulated interruption')
            points = [(attempt['step'], fire)]
        stepper = Stepper(False, points, signals=True)
        normal = sys.getrecursionlimit()
        if depth:
            frame, used = sys._getframe(), 0            # pylint: disable=protected-access
            while frame:
                frame, used = frame.f_back, used + 1
            sys.setrecursionlimit(used + 4 + depth)
        try:
            with sim:
                if points:
                    stepper.start()
                try:
                    return loading.load(plan['container'], path), sim
                finally:
                    stepper.stop()
                    sys.setrecursionlimit(normal)
        except BaseException as exc:                    # pylint: disable=broad-except
            if depth and isinstance(exc, RecursionError):
                sim.count('stack exhausted')
            return type(exc).__name__, sim

    def shrink(self, plan):
        yield from drop_from(plan, 'attempts')
        for num, attempt in enumerate(plan['attempts']):
            if attempt.get('lasting'):
                yield dict(plan, attempts=[dict(a, lasting=False) if i == num else a for i, a in enumerate(plan['attempts'])])
        yield from drop_from(plan, 'queries')


PROPERTY = ReadErrors
