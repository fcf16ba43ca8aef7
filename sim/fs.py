"""The simulated disk.

Everything the library (and the standard library under it) does to files goes
through here while a disk is mounted.  Files of the real file system can be
read, and are copied in when first opened; nothing is ever written back to
it.  Each operation has a number, and faults are attached to numbers, so a
fault sequence is a list of (number, kind).
"""
import builtins
import errno
import gc
import io
import os
import stat as st
import sys

import _io

from . import clock

R = {n: getattr(os, n) for n in (
    'open', 'close', 'read', 'write', 'fsync', 'fdatasync', 'ftruncate', 'truncate', 'lseek',
    'fstat', 'stat', 'lstat', 'access', 'mkdir', 'rmdir', 'listdir', 'scandir', 'remove', 'unlink',
    'rename', 'replace', 'link', 'symlink', 'chmod', 'chown', 'utime', 'getcwd', 'chdir', 'sendfile',
    'copy_file_range', 'readlink', 'fchmod', 'pread', 'pwrite', 'writev', 'fdopen', 'sync', 'posix_fallocate')}
real_open = io.open
FD0 = 1 << 20
CUR = None            # the mounted disk


class SimCrash(BaseException):
    """The simulated process was killed."""


ERR = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EDQUOT': errno.EDQUOT, 'EACCES': errno.EACCES,
       'EMFILE': errno.EMFILE, 'EROFS': errno.EROFS, 'EPERM': errno.EPERM, 'ENFILE': errno.ENFILE, 'ENOMEM': errno.ENOMEM, 'EFBIG': errno.EFBIG}


def oserr(name, path=None):
    e = ERR.get(name) or getattr(errno, name)
    return OSError(e, os.strerror(e), path)


class Node:
    __slots__ = ('data', 'durable', 'mode', 'mtime', 'ino', 'linked')

    def __init__(self, data=b'', mode=0o644, ino=0):
        self.data = bytearray(data)
        self.durable = bytes(data)
        self.mode = mode
        self.mtime = clock.CLOCK.now
        self.ino = ino
        self.linked = True


class Disk:
    def __init__(self, rand=None):
        self.files = {}
        self.dirs = set()
        self.gone = set()
        self.cwd = '/sim/work'
        for d in ('/sim', '/sim/work', '/sim/tmp', '/sim/home'):
            self.dirs.add(d)
        self.fds = {}
        self.nextfd = FD0
        self.nextino = 1
        self.epoch = 0
        self.n = 0                  # operations so far
        self.nof = {}               # the same by kind
        self.armed = False
        self.faults = {}
        self.sticky = None
        self.wchunk = None          # largest write the device accepts at once
        self.rchunk = None
        self.capacity = None
        self.maxfd = None           # files open at a time
        self.fired = {}
        self.ops = {}
        self.log = []
        self.dead = False
        self.trace = None           # (op, path) per operation, when wanted
        self.rand = rand
        self.handles = 0
        self.held = []              # file objects the program opened: no garbage collection

    # -- paths -----------------------------------------------------------
    def norm(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = self.cwd + '/' + p
        return os.path.normpath(p)

    def real_exists(self, p):
        if p in self.gone or p.startswith('/sim/') or p == '/sim':
            return False
        try:
            R['lstat'](p)
            return True
        except OSError:
            return False

    def isdir(self, p):
        if p in self.dirs or p == '/':
            return True
        if p in self.files or not self.real_exists(p):
            return False
        return st.S_ISDIR(R['stat'](p).st_mode)

    def exists(self, p):
        return p in self.files or p in self.dirs or self.real_exists(p)

    def need_parent(self, p):
        d = os.path.dirname(p)
        if not self.isdir(d):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)

    # -- operations and faults --------------------------------------------
    def arm(self, faults=(), reset=True):
        """Number operations from 0 and attach faults to them: to the
        operation numbered 'at', or if 'of' names a kind of operation to the
        one numbered 'at' among those of that kind, and if 'ext' names a kind
        of file among those on such files."""
        if reset:
            self.n = 0
            self.nof = {}
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f['of'], f['at']) + ((f['ext'],) if f.get('ext') else ()) if f.get('of') else f['at'], f)
        self.sticky = None
        self.armed = True

    def disarm(self):
        self.armed = False
        self.faults = {}
        self.sticky = None

    def heal(self):
        self.disarm()
        self.capacity = None
        self.wchunk = None
        self.rchunk = None

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def op(self, kind, path, size=0):
        """Account one operation.  Returns the fault to apply, or None."""
        clock.CLOCK.advance(0.001)
        self.ops[kind] = self.ops.get(kind, 0) + 1
        if self.dead:
            raise SimCrash()
        if not self.armed:
            return None
        k = self.n
        self.n += 1
        self.log.append((kind, path, size))
        j = self.nof.get(kind, 0)
        self.nof[kind] = j + 1
        f = self.faults.get(k) or self.faults.get((kind, j))
        if path and self.faults:
            e = os.path.splitext(path)[1] or 'none'
            i = self.nof[kind, e] = self.nof.get((kind, e), -1) + 1
            f = f or self.faults.get((kind, i, e))
        if f is None and self.sticky is not None:
            if kind in ('write', 'open-w', 'mkdir', 'close-w', 'rename', 'truncate', 'fsync') \
                    and (self.sticky['kind'] != 'ENOSPC' or kind in ('write', 'mkdir', 'fsync')):
                f = self.sticky
        elif f is not None and f.get('sticky'):
            self.sticky = f
        return f

    def apply(self, f, path):
        """Raise the error or the crash of fault f."""
        k = f['kind']
        self.fire(k)
        if k == 'crash':
            self.dead = True
            raise SimCrash()
        if k in ('KeyboardInterrupt', 'MemoryError'):
            raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[k]()
        raise oserr(k, path)

    def simple(self, kind, path):
        f = self.op(kind, path)
        if f and f['kind'] != 'short':
            self.apply(f, path)

    def restart(self):
        """The process is gone: forget its handles, keep the disk."""
        self.epoch += 1
        self.fds.clear()
        self.old = getattr(self, 'old', []) + self.held     # never collected, never flushed
        self.held = []
        self.dead = False
        self.disarm()

    def collect(self):
        """Garbage collection gets round to it: whatever the program left
        open is closed, and its buffers are flushed."""
        held, self.held = self.held, []
        n = 0
        for h in reversed(held):
            try:
                if not h.closed:
                    n += 1
                    h.close()
            except Exception:
                pass
        self.old = getattr(self, 'old', []) + held
        return n

    def used(self):
        return sum(len(n.data) for n in self.files.values())

    # -- harness access (no faults, no accounting) --------------------------
    def put(self, path, data):
        path = self.norm(path)
        self.nextino += 1
        self.files[path] = Node(data, ino=self.nextino)
        d = os.path.dirname(path)
        while d not in ('/', ''):
            self.dirs.add(d)
            d = os.path.dirname(d)
        return path

    def content(self, path):
        path = self.norm(path)
        n = self.files.get(path)
        return None if n is None else bytes(n.data)

    def snapshot(self):
        return {p: bytes(n.data) for p, n in self.files.items()}

    # -- opening ------------------------------------------------------------
    def node(self, p):
        n = self.files.get(p)
        if n is None and self.real_exists(p) and not self.isdir(p):
            with real_open(p, 'rb') as h:
                data = h.read()
            self.nextino += 1
            n = Node(data, ino=self.nextino)
            n.mode = R['stat'](p).st_mode & 0o777
            self.files[p] = n
        return n

    def open_raw(self, p, read, write, create, excl, trunc, append, opmode):
        kind = 'open-w' if write else 'open-r'
        f = self.op(kind, p)
        if f and f['kind'] not in ('short',):
            if f['kind'] == 'crash' and f.get('after') and write:
                self._open_node(p, write, create, excl, trunc)
            self.apply(f, p)
        if self.maxfd is not None and len(self.fds) >= self.maxfd:
            gc.collect()            # what nobody can reach any more counts as closed
            if len(self.fds) >= self.maxfd:
                self.fire('descriptor limit')
                raise oserr('EMFILE', p)
        n = self._open_node(p, write, create, excl, trunc)
        return SimRaw(self, p, n, read, write, append, opmode)

    def _open_node(self, p, write, create, excl, trunc):
        if self.isdir(p):
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
        n = self.node(p)
        if n is None:
            if not create:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            self.need_parent(p)
            self.nextino += 1
            n = Node(ino=self.nextino)
            n.durable = None
            self.files[p] = n
            self.gone.discard(p)
        elif excl:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
        if trunc:
            del n.data[:]
        return n

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if isinstance(file, int):
            if file < FD0:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = self.fds[file]
            raw.mode = mode.replace('t', '')
            name = file
        else:
            modes = set(mode)
            if modes - set('rwxabt+') or len(modes & set('rwxa')) != 1 or ('t' in modes and 'b' in modes):
                raise ValueError('invalid mode: %r' % mode)
            name = file
            p = self.norm(file)
            up = '+' in modes
            if opener is not None:
                flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                         'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                         'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}[(modes & set('rwxa')).pop()]
                if up:
                    flags = (flags & ~os.O_WRONLY) | os.O_RDWR
                raw = self.fds[opener(file, flags)]
            else:
                raw = self.open_raw(p, 'r' in modes or up, bool(modes & set('wxa')) or up,
                                    bool(modes & set('wxa')), 'x' in modes, 'w' in modes, 'a' in modes,
                                    mode.replace('t', ''))
        raw.name = name
        binary = 'b' in mode
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if raw._r and raw._w:
            buf = io.BufferedRandom(raw, size)
        elif raw._w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if raw._w:
            self.held.append(buf)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
        text.mode = mode
        if raw._w:
            self.held.append(text)
        return text

    # -- stat -----------------------------------------------------------------
    def stat(self, path):
        p = self.norm(path)
        if p in self.files:
            n = self.files[p]
            t = int(n.mtime)
            return os.stat_result((st.S_IFREG | n.mode, n.ino, 77, 1, 0, 0, len(n.data), t, t, t))
        if p in self.dirs:
            return os.stat_result((st.S_IFDIR | 0o755, 1 + len(p), 77, 2, 0, 0, 4096, 0, 0, 0))
        if p in self.gone or p.startswith('/sim/'):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return R['stat'](p)


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, node, r, w, append, mode):
        super().__init__()
        self.disk = disk
        self.path = path
        self.node = node
        self._r, self._w, self._append = r, w, append
        self.mode = mode
        self.name = path
        self.pos = len(node.data) if append else 0
        self.epoch = disk.epoch
        disk.nextfd += 1
        disk.handles += 1
        self.fd = disk.nextfd
        disk.fds[self.fd] = self

    def stale(self):
        return self.epoch != self.disk.epoch or self.disk.dead

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.fd

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        base = {0: 0, 1: self.pos, 2: len(self.node.data)}[whence]
        self.pos = base + off
        return self.pos

    def truncate(self, size=None):
        if self.stale():
            return 0
        self.disk.simple('truncate', self.path)
        if size is None:
            size = self.pos
        d = self.node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(bytes(size - len(d)))
        return size

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        disk = self.disk
        f = disk.op('read', self.path, len(b))
        n = len(b)
        if f:
            if f['kind'] == 'short':
                disk.fire('short-read')
                n = max(1, n // 2)
            else:
                disk.apply(f, self.path)
        if disk.rchunk and n > disk.rchunk:
            n = disk.rchunk
            disk.fire('short-read')
        data = self.node.data[self.pos:self.pos + n]
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError('write to closed file')
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        b = bytes(b)
        if self.stale():
            return len(b)           # a dead process: its buffers are lost
        disk = self.disk
        if not b:
            return 0
        f = disk.op('write', self.path, len(b))
        n = len(b)
        if f:
            part = int(n * f.get('part', 0))
            if f['kind'] == 'short':
                disk.fire('short-write')
                n = max(1, part)
            else:
                # part of the data may reach the device before the failure
                if f['kind'] == 'crash':
                    self._store(b[:part])
                elif part:
                    # a partial write is reported as such; the next one fails
                    disk.faults[disk.n] = dict(f, part=0)
                    disk.fire('short-write')
                    self._store(b[:part])
                    return part
                disk.apply(f, self.path)
        if disk.wchunk and n > disk.wchunk:
            n = disk.wchunk
            disk.fire('short-write')
        if disk.capacity is not None:
            room = disk.capacity - disk.used()
            if room <= 0:
                disk.fire('ENOSPC')
                raise oserr('ENOSPC', None)
            if n > room:
                n = room
                disk.fire('short-write')
        self._store(b[:n])
        return n

    def _store(self, b):
        d = self.node.data
        if self._append:
            self.pos = len(d)
        if self.pos > len(d):
            d.extend(bytes(self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.node.mtime = clock.CLOCK.now

    def sync(self):
        if self.stale():
            return
        self.disk.simple('fsync', self.path)
        self.node.durable = bytes(self.node.data)

    def close(self):
        if self.closed:
            return
        disk = self.disk
        fault = None
        if not self.stale():
            f = disk.op('close-w' if self._w else 'close-r', self.path)
            if f and f['kind'] not in ('short',) and (self._w or f['kind'] == 'crash'):
                fault = f
        disk.fds.pop(self.fd, None)
        super().close()
        if fault:
            disk.apply(fault, self.path)


# -- the patched functions ---------------------------------------------------
def _sim(fd):
    return CUR is not None and isinstance(fd, int) and fd >= FD0


def p_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if CUR is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return CUR.open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def p_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if CUR is None:
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
    p = CUR.norm(path)
    if CUR.isdir(p) and acc == os.O_RDONLY:
        n = Node()
        return SimRaw(CUR, p, n, True, False, False, 'rb').fd
    w = acc != os.O_RDONLY
    raw = CUR.open_raw(p, acc != os.O_WRONLY, w, bool(flags & os.O_CREAT), bool(flags & os.O_EXCL) and bool(flags & os.O_CREAT),
                       bool(flags & os.O_TRUNC), bool(flags & os.O_APPEND), 'rb+' if acc == os.O_RDWR else ('wb' if w else 'rb'))
    return raw.fd


def p_close(fd):
    if _sim(fd):
        return CUR.fds[fd].close()
    return R['close'](fd)


def p_write(fd, b):
    if _sim(fd):
        return CUR.fds[fd].write(b)
    return R['write'](fd, b)


def p_read(fd, n):
    if _sim(fd):
        return CUR.fds[fd].read(n)
    return R['read'](fd, n)


def p_fsync(fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    if _sim(fd):
        return CUR.fds[fd].sync()
    return R['fsync'](fd)


def p_lseek(fd, off, whence):
    if _sim(fd):
        return CUR.fds[fd].seek(off, whence)
    return R['lseek'](fd, off, whence)


def p_fstat(fd):
    if _sim(fd):
        return CUR.stat(CUR.fds[fd].path)
    return R['fstat'](fd)


def p_ftruncate(fd, n):
    if _sim(fd):
        CUR.fds[fd].truncate(n)
        return None
    return R['ftruncate'](fd, n)


def p_sendfile(out, inf, offset, count, *a, **k):
    if _sim(out) or _sim(inf):
        if not _sim(out):
            raise OSError(errno.EINVAL, 'sendfile')
        if _sim(inf):
            src = CUR.fds[inf]
            f = CUR.op('read', src.path, count)
            if f and f['kind'] != 'short':
                CUR.apply(f, src.path)
            off = src.pos if offset is None else offset
            data = bytes(src.node.data[off:off + count])
        else:
            data = R['pread'](inf, count, offset or 0)
        if not data:
            return 0
        if CUR.rchunk:
            data = data[:CUR.rchunk]
        return CUR.fds[out].write(data)
    return R['sendfile'](out, inf, offset, count, *a, **k)


def p_stat(path, *a, **k):
    if CUR is None:
        return R['stat'](path, *a, **k)
    if isinstance(path, int):
        return p_fstat(path)
    return CUR.stat(path)


def p_lstat(path, *a, **k):
    if CUR is None:
        return R['lstat'](path, *a, **k)
    p = CUR.norm(path)
    if p in CUR.files or p in CUR.dirs or p in CUR.gone or p.startswith('/sim'):
        return CUR.stat(path)
    return R['lstat'](p, *a, **k)


def p_access(path, mode, *a, **k):
    if CUR is None:
        return R['access'](path, mode, *a, **k)
    return CUR.exists(CUR.norm(path))


def p_mkdir(path, mode=0o777, *, dir_fd=None):
    if CUR is None:
        return R['mkdir'](path, mode, dir_fd=dir_fd)
    p = CUR.norm(path)
    if CUR.exists(p):
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
    CUR.need_parent(p)
    f = CUR.op('mkdir', p)
    if f and f['kind'] != 'short':
        if f['kind'] == 'crash' and f.get('after'):
            CUR.dirs.add(p)
        CUR.apply(f, p)
    CUR.dirs.add(p)
    CUR.gone.discard(p)


def _drop(p):
    CUR.files.pop(p, None)
    CUR.gone.add(p)


def p_remove(path, *, dir_fd=None):
    if CUR is None:
        return R['remove'](path, dir_fd=dir_fd)
    p = CUR.norm(path)
    if not CUR.exists(p):
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    CUR.simple('unlink', p)
    _drop(p)


def p_rmdir(path, *, dir_fd=None):
    if CUR is None:
        return R['rmdir'](path, dir_fd=dir_fd)
    p = CUR.norm(path)
    CUR.simple('rmdir', p)
    if p_listdir(p):
        raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), p)
    CUR.dirs.discard(p)
    CUR.gone.add(p)


def p_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    if CUR is None:
        return R['rename'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
    a, b = CUR.norm(src), CUR.norm(dst)
    n = CUR.node(a)
    if n is None:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
    CUR.need_parent(b)
    f = CUR.op('rename', b)
    if f and f['kind'] != 'short' and not (f['kind'] == 'crash' and f.get('after')):
        CUR.apply(f, b)
    _drop(a)
    CUR.files[b] = n
    CUR.gone.discard(b)
    if f and f['kind'] == 'crash':
        CUR.apply(f, b)


def p_link(src, dst, **k):
    if CUR is None:
        return R['link'](src, dst, **k)
    CUR.simple('link', CUR.norm(dst))
    CUR.files[CUR.norm(dst)] = CUR.node(CUR.norm(src))


def p_listdir(path='.'):
    if CUR is None:
        return R['listdir'](path)
    p = CUR.norm(path)
    names = set()
    if not (p.startswith('/sim/') or p == '/sim') and p not in CUR.gone:
        try:
            names.update(x for x in R['listdir'](p) if os.path.join(p, x) not in CUR.gone)
        except OSError:
            if p not in CUR.dirs:
                raise
    elif p not in CUR.dirs:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    pre = p.rstrip('/') + '/'
    for q in list(CUR.files) + list(CUR.dirs):
        if q.startswith(pre) and '/' not in q[len(pre):]:
            names.add(q[len(pre):])
    out = sorted(names)
    if CUR.rand is not None:
        CUR.rand.shuffle(out)          # the order of a directory is the disk's business
    return out


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class _Entry:
    def __init__(self, d, name):
        self.name = name
        self.path = os.path.join(d, name)

    def __fspath__(self):
        return self.path

    def is_dir(self, follow_symlinks=True):
        return CUR.isdir(CUR.norm(self.path))

    def is_file(self, follow_symlinks=True):
        return not self.is_dir()

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return p_stat(self.path)


def p_scandir(path='.'):
    if CUR is None:
        return R['scandir'](path)
    return _Scan(_Entry(os.fspath(path), x) for x in p_listdir(path))


def p_chmod(path, mode, *a, **k):
    if CUR is None:
        return R['chmod'](path, mode, *a, **k)
    if isinstance(path, int):
        p = CUR.fds[path].path
    else:
        p = CUR.norm(path)
    CUR.simple('chmod', p)
    n = CUR.node(p)
    if n is not None:
        n.mode = mode & 0o777


def p_utime(path, *a, **k):
    if CUR is None:
        return R['utime'](path, *a, **k)


def p_getcwd():
    return R['getcwd']() if CUR is None else CUR.cwd


def p_chdir(path):
    if CUR is None:
        return R['chdir'](path)
    CUR.cwd = CUR.norm(path)


def p_truncate(path, n):
    if CUR is None:
        return R['truncate'](path, n)
    if isinstance(path, int):
        return p_ftruncate(path, n)
    with CUR.open(path, 'rb+') as h:
        h.truncate(n)


def p_copy_file_range(*a, **k):
    raise OSError(errno.ENOSYS, 'copy_file_range')


def p_fdopen(fd, mode='r', *a, **k):
    return p_open(fd, mode, *a, **k)


def p_readlink(path, *a, **k):
    if CUR is None or CUR.real_exists(CUR.norm(path)):
        return R['readlink'](path, *a, **k)
    raise OSError(errno.EINVAL, 'readlink')


def p_symlink(src, dst, *a, **k):
    if CUR is None:
        return R['symlink'](src, dst, *a, **k)
    raise OSError(errno.EPERM, 'symlink')


def install():
    builtins.open = p_open
    io.open = p_open
    _io.open = p_open
    for name, fn in dict(
            open=p_os_open, close=p_close, write=p_write, read=p_read, fsync=p_fsync, fdatasync=p_fsync,
            lseek=p_lseek, fstat=p_fstat, ftruncate=p_ftruncate, sendfile=p_sendfile, stat=p_stat, lstat=p_lstat,
            access=p_access, mkdir=p_mkdir, rmdir=p_rmdir, remove=p_remove, unlink=p_remove, rename=p_rename,
            replace=p_rename, link=p_link, listdir=p_listdir, scandir=p_scandir, chmod=p_chmod, fchmod=p_chmod,
            utime=p_utime, getcwd=p_getcwd, chdir=p_chdir, truncate=p_truncate, copy_file_range=p_copy_file_range,
            fdopen=p_fdopen, readlink=p_readlink, symlink=p_symlink).items():
        setattr(os, name, fn)
    # Modules that took a copy of open() when they were loaded.
    for m in list(sys.modules.values()):
        for k in ('open', 'io_open', '_open'):
            if getattr(m, '__dict__', {}).get(k) is real_open:
                setattr(m, k, p_open)
    import gzip
    ginit = gzip.GzipFile.__init__

    def g_init(self, *a, **k):
        if CUR is not None:
            CUR.held.append(self)
        ginit(self, *a, **k)
    gzip.GzipFile.__init__ = g_init
    import tempfile

    class Names:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            return 'sim%06d' % self.n
    tempfile._name_sequence = Names()
    tempfile._os.stat = p_stat
    tempfile.tempdir = '/sim/tmp'
    import shutil
    shutil._use_fd_functions = False    # directories have no descriptors here


class mounted:
    """with mounted(disk): the library sees this disk."""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        global CUR
        self.prev = CUR
        CUR = self.disk
        return self.disk

    def __exit__(self, *a):
        global CUR
        CUR = self.prev
