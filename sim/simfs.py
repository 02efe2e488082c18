"""
Simulated storage.

`open` (builtins and io) and the os calls that change directories and names are replaced inside the forked process of
one run.  Files below the run's scratch directory go through SimRaw, a raw file on the real file system whose every
operation is a numbered event.  A fault plan maps event numbers to faults; everything else on the path (the buffered
and text layers, the library) is real code.

    open     EACCES | ENOSPC | EMFILE | EISDIR-free failures before any effect; crash (after the file was truncated)
    write    ENOSPC (a prefix is stored, the disk stays full), EIO (once), short (a prefix is accepted), crash (torn)
    read     EIO, short
    close    EIO (the second half of the file is lost: a delayed allocation that failed)
    mkdir    EACCES | ENOSPC, race (somebody else creates the directory just before)
    fsync, rename, replace, unlink   EIO

A crash raises SimCrash and freezes the disk: nothing reaches it any more, whatever clean-up code still runs.
"""
import builtins
import errno
import io
import os

_real_open = io.open
_os = {n: getattr(os, n) for n in ('mkdir', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'fsync', 'truncate',
                                   'ftruncate', 'link', 'symlink')}


class SimCrash(BaseException):
    pass


OPTIONS = {'open': ['EACCES', 'ENOSPC', 'EMFILE', 'crash'], 'openr': ['EACCES', 'EMFILE', 'EIO'],
           'write': ['ENOSPC', 'ENOSPC', 'EIO', 'short', 'short', 'crash'], 'read': ['EIO', 'EIO', 'short', 'short'],
           'close': ['EIO', 'crash'], 'closer': ['EIO'], 'mkdir': ['EACCES', 'ENOSPC', 'race', 'race', 'crash'],
           'fsync': ['EIO', 'crash'], 'rename': ['EIO', 'crash'], 'unlink': ['EIO']}
HARMLESS = ('short', 'race')


class SimRaw(io.FileIO):
    def __init__(self, fs, path, mode):
        self._fs, self._fspath, self._w = fs, path, mode != 'rb'
        super().__init__(path, mode)
        fs.raws.append(self)

    def write(self, b):
        fs = self._fs
        b = bytes(b)
        f = fs.event('write', self._fspath)
        if fs.full and b:
            raise OSError(errno.ENOSPC, 'simulated: no space left on device')
        if f is None or not b:
            return self._put(b)
        n = int(len(b) * f.get('frac', 0.5))
        if f['what'] == 'short':
            return self._put(b[:max(1, n)])
        if f['what'] == 'ENOSPC':
            fs.full = True
            if n:
                return self._put(b[:n])
            raise OSError(errno.ENOSPC, 'simulated: no space left on device')
        if f['what'] == 'crash':
            if n:
                self._put(b[:n])
            fs.crash()
        raise OSError(errno.EIO, 'simulated: input/output error')

    def _put(self, b):
        done = 0
        while done < len(b):
            done += super().write(b[done:])
        return len(b)

    def readinto(self, buf):
        fs = self._fs
        f = fs.event('read', self._fspath)
        if f is not None:
            if f['what'] == 'short':
                mv = memoryview(buf).cast('B')
                n = max(1, int(len(mv) * f.get('frac', 0.5)))
                n = min(n, f.get('max', 7))
                return super().readinto(mv[:n])
            raise OSError(errno.EIO, 'simulated: input/output error')
        return super().readinto(buf)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def readall(self):
        out = b''
        while True:
            b = self.read(4096)
            if not b:
                return out
            out += b

    def close(self):
        if self.closed:
            return
        fs = self._fs
        if fs.dead:
            return super().close()
        try:
            f = fs.event('close' if self._w else 'closer', self._fspath)
        except BaseException:
            super().close()
            raise
        super().close()
        if f is not None:
            if self._w:
                size = os.path.getsize(self._fspath)
                _os['truncate'](self._fspath, size // 2)
            if f['what'] == 'crash':
                fs.crash()
            raise OSError(errno.EIO, 'simulated: input/output error on close')


class SimFS:
    def __init__(self, root, plan=(), buf=None, yield_=None):
        self.root = os.path.realpath(root)
        self.plan = {f['k']: f for f in plan}
        self.buf = buf
        self.n = 0
        self.events = []
        self.fired = []
        self.full = self.dead = False
        self.raws = []
        self.yield_ = yield_
        self.hold = False        # the harness itself is using the storage

    # -- events -----------------------------------------------------------------------------------------------------
    def event(self, name, path):
        if self.dead:
            raise SimCrash()
        if self.hold:
            return None
        if self.yield_ is not None:
            self.yield_('fs:' + name)
        i = self.n
        self.n += 1
        self.events.append(name)
        f = self.plan.get(i)
        if f is None or f['what'] not in OPTIONS[name]:
            return None
        self.fired.append([name, f['what']])
        return f

    def crash(self):
        self.dead = True
        raise SimCrash()

    def open_handles(self):
        return sum(1 for r in self.raws if not r.closed)

    def damaging(self):
        """A fault that must not go unreported has been delivered."""
        return any(w not in HARMLESS for _, w in self.fired)

    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except (TypeError, ValueError):
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    # -- replacements -----------------------------------------------------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or opener is not None or not self.mine(file):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.realpath(os.fspath(file))
        text = 'b' not in mode
        kind = ''.join(c for c in mode if c in 'rwax+')
        if kind.replace('+', '') not in ('r', 'w', 'a', 'x'):
            raise ValueError('invalid mode: %r' % mode)
        f = self.event('openr' if kind == 'r' else 'open', path)
        if f is not None and f['what'] != 'crash':
            raise OSError(getattr(errno, f['what']), 'simulated: open failed', os.fspath(file))
        raw = SimRaw(self, path, kind.replace('+', '') + 'b' + ('+' if '+' in kind else ''))
        if f is not None:
            self.crash()
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else (self.buf or io.DEFAULT_BUFFER_SIZE)
        if '+' in kind:
            b = io.BufferedRandom(raw, size)
        elif kind == 'r':
            b = io.BufferedReader(raw, size)
        else:
            b = io.BufferedWriter(raw, size)
        if not text:
            return b
        t = io.TextIOWrapper(b, encoding, errors, newline, buffering == 1)
        if self.buf:
            t._CHUNK_SIZE = max(16, self.buf)
        t.mode = mode
        return t

    def _call(self, name, event, path, *args, **kw):
        if self.dead:
            raise SimCrash()
        if isinstance(path, int) or not self.mine(path):
            return _os[name](path, *args, **kw)
        f = self.event(event, path)
        if f is not None:
            if f['what'] == 'race':
                try:
                    _os['mkdir'](path)
                except OSError:
                    pass
            elif f['what'] == 'crash':
                self.crash()
            else:
                raise OSError(getattr(errno, f['what']), 'simulated failure of ' + name, os.fspath(path))
        return _os[name](path, *args, **kw)

    def _fsync(self, fd):
        f = self.event('fsync', '')
        if f is not None:
            if f['what'] == 'crash':
                self.crash()
            raise OSError(errno.EIO, 'simulated failure of fsync')
        return _os['fsync'](fd)

    def __enter__(self):
        builtins.open = io.open = self.open
        for name, event in (('mkdir', 'mkdir'), ('rename', 'rename'), ('replace', 'rename'), ('unlink', 'unlink'),
                            ('remove', 'unlink'), ('rmdir', 'unlink'), ('truncate', 'unlink'), ('link', 'rename'),
                            ('symlink', 'rename')):
            setattr(os, name, self._make(name, event))
        os.fsync = self._fsync
        return self

    def _make(self, name, event):
        return lambda path, *a, **k: self._call(name, event, path, *a, **k)

    def __exit__(self, *a):
        builtins.open = io.open = _real_open
        for name, f in _os.items():
            setattr(os, name, f)
        return False


def pick(rng, events, count=1, tier='quick'):
    """A fault plan over the recorded events: event types first, then positions, then faults."""
    plan, used = [], set()
    for _ in range(count):
        by = {}
        for i, e in enumerate(events):
            if i not in used and OPTIONS.get(e):
                by.setdefault(e, []).append(i)
        if not by:
            break
        e = rng.choice(sorted(by))
        k = rng.choice(by[e])
        used.add(k)
        plan.append(dict(k=k, what=rng.choice(OPTIONS[e]), frac=rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])))
    return sorted(plan, key=lambda f: f['k'])
