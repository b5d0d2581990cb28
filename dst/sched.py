"""
Deterministic thread scheduler. Real threads, of which exactly one runs at any time. A running thread keeps
control until the plan says otherwise: a *switch* (thread, local step, target) hands control over at that
step of that thread; a thread that ends or blocks hands over to the next runnable one in cyclic order.
So the list of switches determines the interleaving completely.

Locks that the library may create are replaced by simulated ones (``install_locks``), which block in the
scheduler, so that a deadlock is an observation and not a hanging process.
"""

import _thread
import threading
import time

from dst.core import real_sleep, rng
from dst.trace import Eager, Stepper, hot_lines

_current = None         # the active Scheduler of this process, if any


class SimDeadlock(BaseException):
    """A thread waits for something nobody can provide."""


class SimAbort(BaseException):
    """The simulation is over; unwind."""


class SimThread:
    def __init__(self, sched, tid, body, stepper):
        self.sched = sched
        self.tid = tid
        self.body = body
        self.stepper = stepper
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = 'ready'        # ready / blocked / done
        self.waiting_for = None
        self.ident = None
        self.failure = None

    def run(self):
        self.ident = _thread.get_ident()
        self.sched.by_ident[self.ident] = self
        self.baton.acquire()
        try:
            self.stepper.start()
            try:
                self.body(self)
            finally:
                self.stepper.stop()
        except SimAbort:
            return
        except BaseException as exc:        # pylint: disable=broad-except
            self.failure = exc
        self.state = 'done'
        self.sched.leave(self)


class Scheduler:
    """
    bodies: callables taking the SimThread; switches: list of [tid, local step, target tid]; locks: list of [number, target tid],
    to switch after so many acquisitions of locks; eager: None or [seed, probability, share] of a switch before an instruction of the
    ``hot_lines``, or of a share of them (the trace has those that happened, and as ``switches`` they do the same).
    """

    def __init__(self, bodies, switches, opcodes=False, cap=None, locks=(), eager=None):
        self.by_ident = {}
        self.trace = []             # switches that really happened: (from, local step, to, reason)
        self.verdict = None         # 'deadlock' / 'no-progress'
        self.detail = None
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.threads = []
        self.clock = 0.0
        self.yields = 0
        self.acquired = 0
        self.locks = dict(locks)
        if eager:
            self.rand = rng('eager', eager[0])
            self.hot = {place for place in sorted(hot_lines()) if self.rand.random() < eager[2]}
        for tid, body in enumerate(bodies):
            points = [(step, self._switcher(tid, target)) for who, step, target in switches if who == tid]
            if eager:
                stepper = Eager(cap, lambda tid=tid: self._no_progress(tid), self.hot, self._chance(tid, eager[1]))
            else:
                stepper = Stepper(opcodes, points, cap, lambda tid=tid: self._no_progress(tid))
            self.threads.append(SimThread(self, tid, body, stepper))

    def _switcher(self, tid, target):
        return lambda _frame: self.switch(self.threads[tid], target, 'preempt')

    def _chance(self, tid, probability):
        def act():
            if self.rand.random() < probability:
                self.switch(self.threads[tid], self.rand.randrange(len(self.threads)), 'preempt')
        return act

    def lock_acquired(self, thread):
        self.acquired += 1
        if self.acquired in self.locks:
            self.switch(thread, self.locks[self.acquired], 'lock')

    def explicit(self):
        """The switches that happened, to be given instead of chances."""
        return [[tid, step, target] for tid, step, target, reason in self.trace if reason == 'preempt']

    def _no_progress(self, tid):
        self.stop('no-progress', f'thread {tid} exceeded the step limit')
        raise SimAbort

    def pick(self, start):
        """Next runnable thread, cyclically from ``start``."""
        for offset in range(len(self.threads)):
            thread = self.threads[(start + offset) % len(self.threads)]
            if thread.state == 'ready':
                return thread
        return None

    def switch(self, thread, target, reason):
        nxt = self.pick(target)
        if nxt is None or nxt is thread:
            return
        self.trace.append((thread.tid, thread.stepper.steps, nxt.tid, reason))
        nxt.baton.release()
        thread.baton.acquire()
        if self.verdict:
            raise SimAbort

    def leave(self, thread):
        nxt = self.pick(thread.tid + 1)
        if nxt is not None:
            self.trace.append((thread.tid, thread.stepper.steps, nxt.tid, 'end'))
            nxt.baton.release()
        elif all(t.state == 'done' for t in self.threads):
            self.finished.release()
        else:
            self.stop('deadlock', self._blocked())

    def _blocked(self):
        return 'blocked threads: ' + ', '.join(str(t.tid) for t in self.threads if t.state == 'blocked')

    def block(self, thread, lock):
        """The running thread waits until ``lock`` is released."""
        thread.state = 'blocked'
        thread.waiting_for = lock
        nxt = self.pick(thread.tid + 1)
        if nxt is None:
            self.stop('deadlock', self._blocked())
            raise SimAbort
        self.trace.append((thread.tid, thread.stepper.steps, nxt.tid, 'block'))
        nxt.baton.release()
        thread.baton.acquire()
        if self.verdict:
            raise SimAbort

    def wake(self, lock):
        for thread in self.threads:
            if thread.state == 'blocked' and thread.waiting_for is lock:
                thread.state = 'ready'
                thread.waiting_for = None

    def stop(self, verdict, detail):
        if not self.verdict:
            self.verdict, self.detail = verdict, detail
            self.finished.release()

    def pause(self, thread):
        """Voluntary yield (sleep, timed wait). Simulated time passes."""
        self.yields += 1
        if self.yields > 20000:
            self.stop('no-progress', 'threads only wait')
            raise SimAbort
        self.switch(thread, thread.tid + 1, 'yield')

    def run(self):
        global _current                     # pylint: disable=global-statement
        _current = self
        for thread in self.threads:
            _thread.start_new_thread(thread.run, ())
        self.threads[0].baton.release()
        self.finished.acquire()
        _current = None
        for thread in self.threads:
            if thread.failure is not None:
                raise thread.failure


def here():
    """The SimThread the caller runs in, or None outside of a simulation."""
    if _current is None:
        return None
    return _current.by_ident.get(_thread.get_ident())


# -- locks -----------------------------------------------------------------------------------------

class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        thread = here()
        return thread if thread is not None else _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        attempts = 0
        while self.count:
            if self.reentrant and self.owner == me:
                break
            if not blocking:
                return False
            attempts += 1
            if isinstance(me, SimThread):
                if timeout is not None and timeout >= 0:
                    if attempts > 3:
                        return False
                    me.sched.clock += timeout / 3
                    me.sched.pause(me)
                else:
                    me.sched.block(me, self)
            else:
                if timeout is not None and timeout >= 0 and attempts > 3:
                    return False
                if self.owner == me:
                    raise SimDeadlock('lock is held by the thread that waits for it')
                if attempts > 4000:
                    raise SimDeadlock('lock is never released')
                real_sleep(0.0005)          # a thread the simulation does not know
        self.owner = me
        self.count += 1
        if isinstance(me, SimThread):
            me.sched.lock_acquired(me)
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            if _current is not None:
                _current.wake(self)

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_exc):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    # what threading.Condition wants of its lock
    def _is_owned(self):
        return bool(self.count) and self.owner == self._me()

    def _release_save(self):
        saved, self.count, self.owner = self.count, 0, None
        if _current is not None:
            _current.wake(self)
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        self.count = saved


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    """Must be called before the library is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock      # waiters of Condition/Event/Semaphore

    def sleep(seconds):
        thread = here()
        if thread is None:
            return real_sleep(min(seconds, 0.01))
        thread.sched.clock += max(0, seconds)
        return thread.sched.pause(thread)

    time.sleep = sleep
