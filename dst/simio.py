"""
Simulated file I/O. Files are real files in a scratch directory, but everything between them and the library goes
through this seam: every open, read, seek, close, stat and directory listing of a path under the watched folders is an
*event*, events are numbered, and the plan says what happens at which event.

Actions at an event (JSON lists):

    ['raise', errno name]       the call fails (before it does anything)
    ['intr']                    the read is interrupted by a signal (EINTR) once, then goes on
    ['call', n]                 call the hook number n first (a change of the world: replace a file, ...)
    ['corrupt', offset, mask]   the bytes of this read are damaged in transit

Apart from that ``style`` says how data is delivered: sizes of reads and buffers.
"""

import builtins
import errno
import io
import os
import weakref
import zipfile

real = {
    'open': builtins.open, 'stat': os.stat, 'lstat': os.lstat, 'scandir': os.scandir, 'listdir': os.listdir,
    'access': os.access, 'os.open': os.open, 'TextIOWrapper': io.TextIOWrapper,
    'exists': os.path.exists,
}

PLAIN = {'short': 0, 'buffer': 8192, 'chunk': 8192, 'zip': 4096}


class Raw(io.FileIO):
    """An open file."""

    def __init__(self, sim, path, shown):
        self.sim = sim
        self.shown = shown
        super().__init__(path, 'r')
        sim.opened.append(weakref.ref(self))

    def _size(self, wanted):
        short = self.sim.style['short']
        if not short:
            return wanted
        return max(1, min(wanted, 1 + self.sim.rand.randrange(short)))

    def _damage(self, data, action):
        if not data:
            return data
        _, offset, mask = action
        self.sim.count('corrupted read')
        data = bytearray(data)
        data[offset % len(data)] ^= mask
        return bytes(data)

    def _read(self, wanted, retry):
        """One call of the operating system."""
        action = self.sim.event('read', self.shown)
        if action and action[0] == 'intr':
            self.sim.count('EINTR')
            if retry:
                raise InterruptedError(errno.EINTR, 'Interrupted system call')
        number, start = len(self.sim.events) - 1, self.tell()
        data = super().read(self._size(wanted))
        self.sim.spans.append((number, start, len(data)))
        if action and action[0] == 'corrupt':
            data = self._damage(data, action)
        return data

    def readinto(self, buffer):
        view = memoryview(buffer).cast('B')
        if not len(view):
            return 0
        data = self._read(len(view), True)
        view[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return self._read(size, False)

    def readall(self):
        parts = []
        while True:
            data = self._read(1 << 16, False)
            if not data:
                return b''.join(parts)
            parts.append(data)

    def seek(self, offset, whence=0):
        # asking for the position or the size does no work in the file
        if not (whence == 1 and offset == 0):
            self.sim.event('seek', self.shown)
        return super().seek(offset, whence)

    def close(self):
        if not self.closed:
            self.sim.closed += 1
            try:
                self.sim.event('close', self.shown)
            finally:
                super().close()


class SimIO:
    """``roots``: watched folders; ``remap``: {absolute folder: scratch folder}, as if the latter was the former."""

    def __init__(self, roots, plan=None, style=None, rand=None, hooks=(), remap=None):
        self.roots = [os.path.realpath(r) for r in roots]
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.style = dict(PLAIN, **(style or {}))
        self.rand = rand
        self.hooks = hooks
        self.remap = sorted((remap or {}).items(), key=lambda kv: -len(kv[0]))
        self.events = []
        self.spans = []             # (number of the event, position in the file, bytes) of reads
        self.opened = []
        self.closed = 0
        self.fired = {}
        self.active = False
        self.lasting = None         # number of an event whose fault all later ones of its kind suffer too
        self.broken = {}            # folder -> errno name: nothing in it can be examined or opened
        self.down = None            # errno name: nothing works any more
        self.nth = None             # [kind, n, errno name]: the n-th event of the kind from now on fails, once

    def count(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def event(self, kind, shown):
        if not self.active:
            return None
        number = len(self.events)
        self.events.append((kind, shown))
        action = self.plan.get(number)
        if self.lasting is not None and number > self.lasting and kind == self.events[self.lasting][0]:
            action = self.plan[self.lasting]
        for folder, error in self.broken.items():
            if kind in ('stat', 'list', 'open') and (shown + os.sep).startswith(folder + os.sep):
                action = ['raise', error]
        if self.nth and kind == self.nth[0]:
            self.nth[1] -= 1
            if self.nth[1] < 0:
                action, self.nth = ['raise', self.nth[2]], None
        if self.down and kind != 'close':
            action = ['raise', self.down]
        if not action:
            return None
        if action[0] == 'raise':
            self.count(f'{action[1]} on {kind}')
            code = getattr(errno, action[1])
            raise OSError(code, os.strerror(code), shown)
        if action[0] == 'call':
            self.active = False
            try:
                self.hooks[action[1]]()
            finally:
                self.active = True
        return action

    # -- paths

    def resolve(self, path):
        """(real path, path as the library named it) for watched paths, else None."""
        if not self.active or isinstance(path, int):
            return None
        try:
            name = os.fspath(path)
        except TypeError:
            return None
        if isinstance(name, bytes):
            name = os.fsdecode(name)
        full = os.path.abspath(name)
        for prefix, target in self.remap:
            if full == prefix or full.startswith(prefix + os.sep):
                return target + full[len(prefix):], full
        for root in self.roots:
            if full == root or full.startswith(root + os.sep):
                return full, full
        return None

    # -- replaced functions

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        found = self.resolve(file)
        if found is None or opener is not None or set(mode) - set('rbt'):
            if found is not None:
                file = found[0]
            return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if 'b' in mode and 't' in mode:
            raise ValueError("can't have text and binary mode at once")
        path, shown = found
        self.event('open', shown)
        try:
            raw = Raw(self, path, shown)
        except OSError as exc:
            exc.filename = shown
            raise
        raw.name = file
        if buffering == 0:
            if 'b' not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.style['buffer'] if buffering < 0 or buffering == 1 else buffering
        try:
            buffered = io.BufferedReader(raw, size)
            if 'b' in mode:
                return buffered
            text = io.TextIOWrapper(buffered, encoding, errors, newline, buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def install(self):
        sim = self

        class TextIOWrapper(real['TextIOWrapper']):
            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                self._CHUNK_SIZE = sim.style['chunk']       # pylint: disable=invalid-name

        def call(name, kind):
            def replaced(path='.', *args, **kwargs):
                found = sim.resolve(path)
                if found is None:
                    return real[name](path, *args, **kwargs)
                sim.event(kind, found[1])
                try:
                    return real[name](found[0], *args, **kwargs)
                except OSError as exc:
                    if exc.filename is not None:
                        exc.filename = found[1]
                    raise
            return replaced

        def access(path, *args, **kwargs):
            found = sim.resolve(path)
            if found is None:
                return real['access'](path, *args, **kwargs)
            try:
                sim.event('stat', found[1])
            except OSError:
                return False
            return real['access'](found[0], *args, **kwargs)

        builtins.open = self.open
        io.open = self.open
        io.TextIOWrapper = TextIOWrapper
        os.stat = call('stat', 'stat')
        os.lstat = call('lstat', 'stat')
        os.scandir = call('scandir', 'list')
        os.listdir = call('listdir', 'list')
        os.open = call('os.open', 'open')
        os.access = access
        zipfile.ZipExtFile.MIN_READ_SIZE = self.style['zip']
        return self

    def __enter__(self):
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False

    def leaked(self):
        return sorted(raw.shown for raw in (ref() for ref in self.opened) if raw is not None and not raw.closed)


def draw_style(rand):
    """How data is delivered; None for the usual way."""
    style = {}
    if rand.random() < 0.7:
        style['short'] = rand.choice([1, 2, 3, 7, 50, 1000])
    if rand.random() < 0.5:
        style['buffer'] = rand.choice([1, 2, 5, 64, 512, 1 << 16])
    if rand.random() < 0.6:
        style['chunk'] = rand.choice([1, 2, 3, 10, 100, 1 << 16])
    if rand.random() < 0.5:
        style['zip'] = rand.choice([1, 16, 100, 1 << 16])
    return style


def real_leaks(folder):
    """Open descriptors of this process that lead into the folder (also by means the seam does not see)."""
    res = []
    for number in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + number)
        except OSError:
            continue
        if target.startswith(folder + os.sep):
            res.append(target[len(folder) + 1:])
    return sorted(res)
