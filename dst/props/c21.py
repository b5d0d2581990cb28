"""C21: the library leaves the state of the process as it found it."""

import builtins
import codecs
import decimal
import gc
import glob
import io
import locale
import logging
import os
import random
import re
import signal
import socket
import sys
import threading
import time
import warnings
import zipfile

from dst import loading
from dst.base import Property, choose_dictionary, drop_from, query_block, some
from dst.core import STREAMS, canon, rng
from dst.engine import Session
from dst.props.c01 import draw_switches, op_query
from dst.props.c05 import ERRORS
from dst.props.c09 import BAD_LINES, BAD_WORDS, spoil
from dst.sched import Scheduler
from dst.simio import SimIO

MODULES = [builtins, codecs, decimal, gc, glob, io, locale, logging, os, os.path, random, re, signal, socket, threading, time, warnings,
           zipfile]
SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGPIPE, signal.SIGHUP, signal.SIGVTALRM,
           signal.SIGPROF, signal.SIGXCPU]


def functions(module):
    """What the module offers, to see whether somebody exchanged it."""
    return {name: id(value) for name, value in vars(module).items() if callable(value) and not name.startswith('__')}


def umask():
    mask = os.umask(0o77)
    os.umask(mask)
    return mask


def state(threads=True):
    """The settings of the process that a library could change."""
    res = {
        'recursion limit': sys.getrecursionlimit(), 'switch interval': round(sys.getswitchinterval(), 6),
        'garbage collector enabled': gc.isenabled(), 'garbage collector thresholds': gc.get_threshold(),
        'garbage collector debug flags': gc.get_debug(), 'garbage collector callbacks': len(gc.callbacks),
        'locale': locale.setlocale(locale.LC_ALL), 'random generator': hash(random.getstate()),
        'warning filters': repr(warnings.filters), 'warning hook': id(warnings.showwarning),
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'umask': umask(),
        'signal handlers': [str(signal.getsignal(sig)) for sig in SIGNALS],
        'timers': [signal.getitimer(which)[1] for which in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
        + [signal.getitimer(which)[0] > 0 for which in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        'module path': list(sys.path), 'arguments': list(sys.argv), 'exception hook': id(sys.excepthook),
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'socket timeout': socket.getdefaulttimeout(),
        'decimal context': str(decimal.getcontext()), 'log level': logging.getLogger().level,
        'log handlers': len(logging.getLogger().handlers), 'logging disabled': logging.root.manager.disable,
        'stack size of threads': threading.stack_size(), 'longest number': sys.get_int_max_str_digits(),
        'time zone': time.tzname, 'profiler': sys.getprofile() is None, 'bytecode': sys.dont_write_bytecode,
    }
    if threads:
        res['threads'] = sorted(t.name for t in threading.enumerate())
    for module in MODULES:
        res[f'functions of {module.__name__}'] = functions(module)
    return res


def difference(before, after):
    for name, value in before.items():
        if name in after and after[name] != value:
            if isinstance(value, dict):
                changed = sorted(k for k in {*value, *after[name]} if value.get(k) != after[name].get(k))
                return {'kind': 'state', 'what': name, 'changed': changed[:5]}
            if name == 'random generator':
                return {'kind': 'state', 'what': name}
            return {'kind': 'state', 'what': name, 'before': canon(value), 'after': canon(after[name])}
    return None


# states to start from: what is restored must be what was there, not what is usual
def draw_start(rand):
    start = {}
    if rand.random() < 0.5:
        start['gc'] = rand.random() < 0.5
    if rand.random() < 0.3:
        start['threshold'] = [rand.randint(500, 2000), 11, 13]
    if rand.random() < 0.5:
        start['recursion'] = rand.choice([700, 900, 1500, 5000])
    if rand.random() < 0.3:
        start['random'] = rand.randrange(10 ** 6)
    if rand.random() < 0.3:
        start['cwd'] = True
    if rand.random() < 0.3:
        start['warnings'] = rand.choice(['ignore', 'always', 'default'])
    if rand.random() < 0.2:
        start['umask'] = rand.choice([0o022, 0o077, 0o002])
    if rand.random() < 0.2:
        start['signals'] = True
    if rand.random() < 0.2:
        start['timer'] = True
    if rand.random() < 0.2:
        start['locale'] = rand.choice(['C', 'C.UTF-8'])
    if rand.random() < 0.2:
        start['precision'] = rand.choice([5, 50])
    if rand.random() < 0.2:
        start['interval'] = rand.choice([0.001, 0.5])
    return start


def arrange(start, folder):
    if 'gc' in start:
        (gc.enable if start['gc'] else gc.disable)()
    if 'threshold' in start:
        gc.set_threshold(*start['threshold'])
    if 'recursion' in start:
        sys.setrecursionlimit(start['recursion'])
    if 'random' in start:
        random.seed(start['random'])
    if 'cwd' in start:
        os.chdir(folder)
    if 'warnings' in start:
        warnings.simplefilter(start['warnings'])
    if 'umask' in start:
        os.umask(start['umask'])
    if 'signals' in start:
        for sig in SIGNALS[2:5]:
            signal.signal(sig, lambda *_: None)
    if 'timer' in start:
        signal.signal(signal.SIGALRM, lambda *_: None)
        signal.setitimer(signal.ITIMER_REAL, 10 ** 6)
    if 'locale' in start:
        try:
            locale.setlocale(locale.LC_ALL, start['locale'])
        except locale.Error:
            pass
    if 'precision' in start:
        decimal.getcontext().prec = start['precision']
    if 'interval' in start:
        sys.setswitchinterval(start['interval'])


class ProcessState(Property):
    id = 'C21'
    size = {'quick': (200, 14), 'thorough': (2400, 16)}
    rule = ('one run: loads (sound, malformed, or with an I/O error at a chosen event), queries and streams that stay suspended, from a drawn '
            'state of the process, which is compared after every operation; or threads with chosen switches, compared when all have ended; '
            'distinct = distinct (dictionary, start, operations, switches); trivial = fewer than two operations')
    real = ['spylls (all of it)', 'CPython threads and generators', 'zipfile, io']
    stub = ['thread scheduler', 'operating system calls on files']
    assumptions = ['observed: recursion limit, switch interval, garbage collector settings, locale, random generator, warnings, working '
                   'directory, environment, umask, signal handlers and timers, threads, standard streams and what is printed, logging, '
                   'decimal context, functions of standard modules']

    def block(self, rand):
        block = query_block(rand, self.env.refs, choose_dictionary(rand), 12)
        block['container'] = rand.choice(loading.CONTAINERS)
        return block

    def load_op(self, rand, block):
        dice = rand.random()
        op = {'spoil': [], 'error': None, 'missing': False, 'system': rand.random() < 0.15}
        if dice < 0.4:
            op['spoil'] = [[rand.choice(['aff', 'dic']), rand.randrange(10 ** 4), rand.randrange(len(BAD_LINES) * len(BAD_WORDS))]]
        elif dice < 0.7:
            events = self.events(block)
            number = loading.draw_event(rand, events, ERRORS)
            if number is not None:
                op['error'] = [number, rand.choice(ERRORS[events[number][0]])]
        elif dice < 0.8:
            op['missing'] = True
        return ['Load', op]

    def events(self, block):
        def compute():
            path = loading.build(os.path.join(self.env.scratch.root, 'c21'), *loading.bytes_of(block['dict']), block['container'])
            return loading.dry_run(block['container'], path, {}, 0)
        return self.env.memo(('c21', block['dict'], block['container']), compute)

    def plan(self, rand, block):
        queries = some(rand, block['queries'], 2, 8)
        if not queries:
            return None
        streams = [q for q in queries if q[0] in STREAMS]
        plan = {'dicts': [block['dict']], 'container': block['container'], 'start': draw_start(rand)}
        if rand.random() < 0.3:
            plan['mode'] = 'threads'
            plan['threads'] = []
            for num in range(rand.choice([2, 2, 3])):
                ops = [['Q', 0, *rand.choice(queries)] for _ in range(rand.randint(1, 3))]
                if rand.random() < 0.4:
                    ops.insert(rand.randint(0, len(ops)), self.load_op(rand, block))
                if streams and rand.random() < 0.4:
                    ops += [['O', 0, f't{num}', *rand.choice(streams)], ['N', 0, f't{num}', 1]]
                plan['threads'].append(ops)
            profiles = self.env.refs.profiles(block['dict'], queries, False)
            plan['switches'], plan['strategy'] = draw_switches(rand, plan['threads'], profiles)
            if rand.random() < 0.5:
                # while something is being loaded
                for tid in range(len(plan['threads'])):
                    plan['switches'] += [[tid, rand.randint(1, 3000), rand.randrange(len(plan['threads']))] for _ in range(20)]
            return plan
        plan['mode'] = 'sequence'
        ops, opened = [], []
        for _ in range(rand.choice([2, 5, 12])):
            dice = rand.random()
            if dice < 0.25:
                ops.append(self.load_op(rand, block))
            elif dice < 0.6 or not streams:
                ops.append(['Q', 0, *rand.choice(queries)])
            elif dice < 0.8 and len(opened) < 4:
                handle = f's{len(opened)}'
                opened.append(handle)
                ops += [['O', 0, handle, *rand.choice(streams)], ['N', 0, handle, 1]]
            elif opened and dice < 0.9:
                ops.append(['N', 0, rand.choice(opened), rand.choice([1, 1, 3])])
            elif opened:
                ops.append(['E', 0, rand.choice(opened), rand.choice(['close', 'drop', 'throw'])])
        plan['ops'] = ops
        return plan

    def prepare(self, plan):
        ops = plan.get('ops') or [op for thread in plan.get('threads', ()) for op in thread]
        queries = [q for op in ops for q in [op_query(op)] if q]
        refs = self.env.refs.get(plan['dicts'][0], queries)
        return {'refs': refs, 'folder': os.path.join(self.env.scratch.root, 'c21-run'), 'path': self.env.refs.path(plan['dicts'][0]),
                'cap': sum(ref['profile']['steps'] for ref in refs.values()) * 20 + 3_000_000}

    def load_now(self, plan, op, folder, sim, number):
        aff, dic = spoil(*loading.bytes_of(plan['dicts'][0]), op['spoil'])
        sim.active = False
        path = loading.build(os.path.join(folder, str(number)), aff, dic, plan['container'])
        sim.active = True
        if op['missing']:
            path += '-missing'
        sim.events.clear()
        sim.plan = {op['error'][0]: ['raise', op['error'][1]]} if op['error'] else {}
        try:
            if op['system']:
                from spylls.hunspell import Dictionary
                Dictionary.from_system('no_such_dictionary')
            loading.load(plan['container'], path)
        except Exception as exc:                        # pylint: disable=broad-except
            sim.count('load fails: ' + type(exc).__name__)
        sim.plan = {}

    def execute(self, plan, prepared):
        folder = prepared['folder']
        os.makedirs(folder, exist_ok=True)
        sim = SimIO([folder], rand=rng('reads')).install()
        sys.stdout = io.StringIO()
        printed = os.path.join(folder, 'printed')
        fd = os.open(printed, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        saved = os.dup(1)
        os.dup2(fd, 1)
        arrange(plan['start'], folder)
        violation, trace = None, None
        first = state()
        session = Session([loading.load('files', prepared['path'])], [prepared['refs']])
        violation = difference(first, state())
        if violation:
            violation['after'] = 'first load'
        elif plan['mode'] == 'sequence':
            with sim:
                for num, op in enumerate(plan['ops']):
                    if op[0] == 'Load':
                        self.load_now(plan, op[1], folder, sim, 0)
                    else:
                        session.do(op, num)
                    sim.active = False
                    violation = difference(first, state())
                    sim.active = True
                    if violation:
                        violation['after'] = op
                        break
                session.problems.clear()                # answers are the business of others
        else:
            violation, trace = self.concurrent(plan, prepared, session, sim, first)
        os.dup2(saved, 1)
        if not violation and (sys.stdout.getvalue() or os.fstat(fd).st_size):
            os.lseek(fd, 0, 0)
            text = sys.stdout.getvalue() or os.read(fd, 200).decode('utf-8', 'replace')
            violation = {'kind': 'printed', 'text': text[:200]}
        sys.stdout = sys.__stdout__
        return {'violation': violation, 'faults': {**session.fired, **sim.fired}, 'steps': session.done,
                'trace': (plan['dicts'], plan['start'], plan.get('ops'), trace),
                'trivial': plan['mode'] == 'sequence' and len(plan['ops']) < 2}

    def concurrent(self, plan, prepared, session, sim, first):
        def body(tid, ops):
            def run(_thread):
                for num, op in enumerate(ops):
                    if op[0] == 'Load':
                        # the seam belongs to one thread at a time: faults are left to sequences
                        self.load_now(plan, dict(op[1], error=None), prepared['folder'], sim, tid)
                    else:
                        session.do(op, [tid, num])
            return run

        sched = Scheduler([body(tid, ops) for tid, ops in enumerate(plan['threads'])], plan['switches'], False, prepared['cap'])
        sched.run()
        if sched.verdict:
            return None, sched.trace            # C01
        violation = difference(first, state(threads=False))
        if violation:
            violation['after'] = 'threads'
        session.count('runs with threads')
        return violation, sched.trace

    def shrink(self, plan):
        if plan['mode'] == 'sequence':
            yield from drop_from(plan, 'ops')
        else:
            for tid in range(len(plan['threads'])):
                yield from drop_from(plan, 'threads', tid)
            yield from drop_from(plan, 'switches')
        for name in plan['start']:
            yield dict(plan, start={k: v for k, v in plan['start'].items() if k != name})


PROPERTY = ProcessState
