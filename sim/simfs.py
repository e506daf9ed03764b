# A simulated disk.  Paths below PREFIX live in memory; everything else goes to
# the real functions.  Data written to a file sits in the process (lost when it
# crashes) until flushed.
import __builtin__
import errno
import io
import os
import os.path

PREFIX = '/simfs/'


class Crash(BaseException):
    """the simulated process dies here"""


class Interrupt(KeyboardInterrupt):
    """the user interrupts the process here"""


_real = {}
_disk = [None]


class Disk(object):
    """
    :param decide: called with the name of every system call; returns None or
        a fault: ('error', errno), ('crash',), ('interrupt',),
        ('full', number of bytes that still fit)
    """

    def __init__(self, decide):
        self.files = {}
        self.decide = decide
        self.handles = []
        self.dead = False

    def open(self, path, mode='r', *a, **kw):
        f = SimFile(self, path, mode)
        self.handles.append(f)
        return f

    def open_handles(self):
        return [h for h in self.handles if not h.closed]

    def reboot(self):
        """the process is gone, and what it had not flushed"""
        self.handles = []
        self.dead = False

    def fault(self, call):
        if self.dead:
            return None
        r = self.decide(call)
        if r is None:
            return None
        if r[0] == 'crash':
            self.dead = True
            raise Crash(call)
        if r[0] == 'interrupt':
            raise Interrupt(call)
        if r[0] == 'error':
            raise IOError(r[1], os.strerror(r[1]))
        return r


class SimFile(object):
    def __init__(self, disk, path, mode):
        self.disk = disk
        self.name = path
        self.mode = mode
        self.closed = False
        self.pending = []
        self.pos = 0
        base = mode.replace('b', '').replace('t', '').replace('U', '')
        self.readable_ = base[:1] == 'r' or '+' in base
        self.writable_ = base[:1] in 'wa' or '+' in base
        disk.fault('open')
        if base[:1] == 'r':
            if path not in disk.files:
                raise IOError(errno.ENOENT, 'No such file or directory', path)
        elif base[:1] == 'w':
            disk.files[path] = ''
            try:
                disk.fault('truncated')
            except BaseException:
                self.closed = True
                raise
        elif base[:1] == 'a':
            disk.files.setdefault(path, '')
            self.pos = len(disk.files[path])
        else:
            raise ValueError('mode %r' % (mode,))

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def _drain(self):
        """hands pending writes to the disk"""
        while self.pending:
            pos, data = self.pending.pop(0)
            r = self.disk.fault('write')
            if self.disk.dead:
                return
            cur = self.disk.files.get(self.name, '')
            if r is not None and r[0] == 'torn':
                # only a part of it reaches the disk before the crash
                data = data[:r[1] % (len(data) + 1)]
                self.disk.files[self.name] = cur[:pos].ljust(
                    pos, '\0') + data + cur[pos + len(data):]
                self.disk.dead = True
                raise Crash('write')
            full = r is not None and r[0] == 'full'
            if full:
                data = data[:r[1] % (len(data) + 1)]
            self.disk.files[self.name] = (
                cur[:pos].ljust(pos, '\0') + data + cur[pos + len(data):])
            if full:
                self.pending = []
                raise IOError(errno.ENOSPC, 'No space left on device')

    def read(self, n=-1):
        self._check()
        if not self.readable_:
            raise IOError(errno.EBADF, 'File not open for reading')
        self._drain()
        self.disk.fault('read')
        s = self.disk.files.get(self.name, '')[self.pos:]
        if n is not None and n >= 0:
            s = s[:n]
        self.pos += len(s)
        return s

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        self._check()
        s = self.disk.files.get(self.name, '')[self.pos:]
        i = s.find('\n') + 1 or len(s)
        return self.read(i)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        self._check()
        if not self.writable_:
            raise IOError(errno.EBADF, 'File not open for writing')
        if self.mode[:1] == 'a':
            self.pos = len(self.disk.files.get(self.name, ''))
        s = str(s)
        self.pending.append((self.pos, s))
        self.pos += len(s)
        # large writes go through at once, small ones when flushed
        if len(s) > 512:
            self._drain()

    def writelines(self, seq):
        for s in seq:
            self.write(s)

    def flush(self):
        self._check()
        self._drain()

    def seek(self, pos, how=0):
        self._check()
        self._drain()
        if how == 1:
            pos += self.pos
        elif how == 2:
            pos += len(self.disk.files.get(self.name, ''))
        self.pos = pos

    def tell(self):
        self._check()
        return self.pos

    def truncate(self, n=None):
        self._check()
        self._drain()
        n = self.pos if n is None else n
        self.disk.files[self.name] = self.disk.files.get(
            self.name, '')[:n].ljust(n, '\0')

    def fileno(self):
        return 1000

    def isatty(self):
        return False

    def close(self):
        if self.closed:
            return
        self.closed = True
        self._drain()
        self.disk.fault('close')

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()


def _mine(path):
    return (_disk[0] is not None and isinstance(path, basestring) and
            path.startswith(PREFIX))


def _open(name, *a, **kw):
    if _mine(name):
        return _disk[0].open(name, *a, **kw)
    return _real['open'](name, *a, **kw)


def _io_open(name, *a, **kw):
    if _mine(name):
        return _disk[0].open(name, *a, **kw)
    return _real['io.open'](name, *a, **kw)


def _rename(a, b):
    if _mine(a):
        d = _disk[0]
        d.fault('rename')
        if a not in d.files:
            raise OSError(errno.ENOENT, 'No such file or directory')
        d.files[b] = d.files.pop(a)
        return
    return _real['rename'](a, b)


def _remove(a):
    if _mine(a):
        d = _disk[0]
        if a not in d.files:
            raise OSError(errno.ENOENT, 'No such file or directory')
        del d.files[a]
        return
    return _real['remove'](a)


def _exists(a):
    if _mine(a):
        return a in _disk[0].files
    return _real['exists'](a)


def _fsync(fd):
    if fd == 1000:
        return
    return _real['fsync'](fd)


def install():
    """once per worker process; inactive until use() is called"""
    if _real:
        return
    _real['open'] = __builtin__.open
    __builtin__.open = _open
    _real['io.open'] = io.open
    io.open = _io_open
    _real['rename'] = os.rename
    os.rename = _rename
    _real['remove'] = os.remove
    os.remove = os.unlink = _remove
    _real['exists'] = os.path.exists
    os.path.exists = os.path.isfile = os.path.lexists = _exists
    if hasattr(os, 'fsync'):
        _real['fsync'] = os.fsync
        os.fsync = _fsync


def use(disk):
    _disk[0] = disk
