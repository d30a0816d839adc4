"""Stand-ins for the environment in symbolic runs: a file system below
/sxvfs, temporary files, mmap, pickle, dbm and lock files.

Semantics of the file system: a write to an open file reaches the "disk" when
the file is flushed or closed; a rename is atomic; the directory /sxvfs/tmp
(the default for temporary files) is on another device.  Fault plans
(sx.faults) may fail any operation, or end the process there.
"""
import builtins
import copy
import dbm
import errno
import io
import mmap
import os
import pickle
import shutil
import tempfile
import time

from . import faults, models
from .core import Control, Inconclusive
from .models import MODELS, SDict, SymIO, mcall
from .values import (SYM, SymBytes, SymStr, chars_of, ch_eq, concretize, eng, is_sym, mk)

ROOT = '/sxvfs'
# (files are not older than the process)
START = time.time()


class State(object):

    def __init__(self):
        self.root = Dir()
        self.root.entries['tmp'] = Dir()
        self.fds = {}
        self.next_fd = 1000000
        self.temps = 0
        self.pickles = {}
        self.dbms = SDict()
        self.clock = int(START)
        self.now = None


class Dir(object):
    def __init__(self):
        self.entries = SDict()
        self.ctime = 0


class File(object):
    def __init__(self, cs=()):
        self.cs = list(cs)
        self.ctime = S.clock if S else 0
        self.mtime = self.ctime


S = None


def reset():
    global S
    S = None
    S = State()
    faults.reset()


def frozen():
    p = faults.CURRENT
    return p is not None and p.crashed


def is_vfs(p):
    if isinstance(p, os.PathLike):
        p = models.m_fspath(p)
    if type(p) is str:
        return p.startswith(ROOT)
    if type(p) is SymStr:
        return len(p.cs) >= 6 and all(p.cs[i] == ord(ROOT[i]) for i in range(6))
    return False


def oserror(code, path=None, path2=None):
    a = (code, os.strerror(code)) + ((path,) if path is not None else ())
    e = OSError(*a[:2])
    if path is not None:
        e.filename = path
    return e


def parts(path):
    if isinstance(path, os.PathLike):
        path = models.m_fspath(path)
    if type(path) is str:
        if '\0' in path:
            raise ValueError('embedded null byte')
        ps = path[len(ROOT):].split('/')
    else:
        e = eng()
        for c in path.cs:
            if type(c) is not int and e.branch(ch_eq(c, 0)):
                raise ValueError('embedded null byte')
        ps = mk(False, path.cs[len(ROOT):])
        ps = mcall(ps, 'split', '/')
    out = []
    for p in ps:
        if len(p) == 0:
            continue
        if len(p) <= 2:
            if bool(p == '.'):
                continue
            if bool(p == '..'):
                if out:
                    out.pop()
                continue
        if len(p) > 255:
            raise oserror(errno.ENAMETOOLONG, path)
        out.append(p)
    return out


def node(path, ps=None):
    """The node at path; raises FileNotFoundError / NotADirectoryError."""
    ps = parts(path) if ps is None else ps
    n = S.root
    for i, p in enumerate(ps):
        if not isinstance(n, Dir):
            raise oserror(errno.ENOTDIR, path)
        x = n.entries.get(p)
        if x is None:
            raise oserror(errno.ENOENT, path)
        n = x
    return n


def parent(path):
    ps = parts(path)
    if not ps:
        raise oserror(errno.EBUSY, path)
    d = node(path, ps[:-1])
    if not isinstance(d, Dir):
        raise oserror(errno.ENOTDIR, path)
    return d, ps[-1]


def device(path):
    ps = parts(path)
    return 1 if ps and ps[0] == 'tmp' else 0


class VFile(object):
    """An open file."""

    def __init__(self, n, path, mode, encoding=None, errors=None, newline=None, fd=None):
        self.node = n
        self.name = path
        self.mode = mode
        self.binary = 'b' in mode
        self.encoding = None if self.binary else (encoding or 'utf-8')
        self.errors = None if self.binary else (errors or 'strict')
        self.can_write = any(x in mode for x in 'wax+')
        self.can_read = 'r' in mode or '+' in mode
        self.closed = False
        self.dirty = False
        self.io = SymIO(True)
        self.io.cs = list(n.cs)
        self.text = None
        if not self.binary and self.can_read and not self.can_write:
            t = mcall(self.io.getvalue(), 'decode', self.encoding, self.errors)
            self.text = SymIO(False, t, newline=newline)
        if 'a' in mode:
            self.io.pos = len(self.io.cs)
        self.fd = fd
        if fd is None:
            self.fd = S.next_fd
            S.next_fd += 1
        S.fds[self.fd] = self
        self.delete = False

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def fileno(self):
        self._check()
        return self.fd

    def _in(self):
        self._check()
        if not self.can_read:
            raise io.UnsupportedOperation('not readable')
        if self.text is None and not self.binary:
            raise Inconclusive('text file opened for update')
        return self.io if self.binary else self.text

    def read(self, n=-1):
        return self._in().read(n)

    def readline(self, n=-1):
        return self._in().readline(n)

    def readlines(self, hint=-1):
        return self._in().readlines()

    def __iter__(self):
        return iter(self._in())

    def __next__(self):
        return next(self._in())

    def write(self, s):
        self._check()
        if not self.can_write:
            raise io.UnsupportedOperation('not writable')
        if frozen():
            return len(s)
        if not self.binary:
            if not isinstance(s, str):
                raise TypeError('write() argument must be str, not bytes')
            n = len(s)
            s = mcall(s, 'encode', self.encoding, self.errors)
        else:
            if isinstance(s, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            n = len(s)
        faults.touch(self.name)
        faults.hit('write', self._half)
        if 'a' in self.mode:
            self.io.pos = len(self.io.cs)
        self.io.write(s)
        self.dirty = True
        return n

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def _half(self):
        """Part of what was written reaches the disk."""
        if self.dirty:
            new = self.io.cs
            self.node.cs = new[:(len(new) + 1) // 2]

    def flush(self):
        self._check()
        if self.dirty and not frozen():
            faults.hit('flush', self._half)
            self._commit()

    def _commit(self):
        self.node.cs = list(self.io.cs)
        self.node.mtime = self.node.ctime = S.clock
        self.dirty = False

    def close(self):
        if self.closed:
            return
        self.closed = True
        S.fds.pop(self.fd, None)
        if frozen():
            return
        if self.can_write:
            faults.hit('close', self._half)
            if self.dirty:
                self._commit()
        if self.delete:
            unlink(self.name)

    def seek(self, pos, whence=0):
        self._check()
        return (self.text or self.io).seek(pos, whence)

    def tell(self):
        self._check()
        return (self.text or self.io).tell()

    def truncate(self, size=None):
        self.dirty = True
        return self.io.truncate(size)

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def isatty(self):
        return False

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()


def vopen(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(path, int) and path in S.fds:
        f = S.fds[path]
        return VFile(f.node, f.name, mode, encoding, errors, newline, fd=path)
    d, name = parent(path)
    write = any(x in mode for x in 'wax+')
    faults.touch(path)
    faults.hit('open')
    n = d.entries.get(name)
    if isinstance(n, Dir):
        raise oserror(errno.EISDIR, path)
    if n is None:
        if not any(x in mode for x in 'wax'):
            raise oserror(errno.ENOENT, path)
        n = File()
        if not frozen():
            d.entries[name] = n
    elif 'x' in mode:
        raise oserror(errno.EEXIST, path)
    if 'w' in mode and not frozen():
        n.cs = []
        n.mtime = n.ctime = S.clock
    return VFile(n, path, mode, encoding, errors, newline)


class Stat(object):
    def __init__(self, n):
        self.st_size = len(n.cs) if isinstance(n, File) else 0
        self.st_mode = 0o100644 if isinstance(n, File) else 0o40755
        self.st_ctime = n.ctime
        self.st_mtime = getattr(n, 'mtime', n.ctime)
        self.st_atime = self.st_mtime
        self.st_ino = id(n)
        self.st_dev = 0
        self.st_nlink = 1


def stat(path, **k):
    return Stat(node(path))


def exists(path):
    try:
        node(path)
        return True
    except (OSError, ValueError):
        return False


def isfile(path):
    try:
        return isinstance(node(path), File)
    except (OSError, ValueError):
        return False


def isdir(path):
    try:
        return isinstance(node(path), Dir)
    except (OSError, ValueError):
        return False


def listdir(path='.'):
    n = node(path)
    if not isinstance(n, Dir):
        raise oserror(errno.ENOTDIR, path)
    return list(n.entries)


class DirEntry(object):
    def __init__(self, d, name):
        self.name = name
        self.path = d + '/' + name

    def is_file(self, **k):
        return isfile(self.path)

    def is_dir(self, **k):
        return isdir(self.path)

    def stat(self, **k):
        return stat(self.path)


class Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def scandir(path='.'):
    return Scan(DirEntry(path, x) for x in listdir(path))


def mkdir(path, mode=0o777):
    d, name = parent(path)
    if name in d.entries:
        raise oserror(errno.EEXIST, path)
    if not frozen():
        d.entries[name] = Dir()


def makedirs(path, mode=0o777, exist_ok=False):
    ps = parts(path)
    n = S.root
    new = False
    for p in ps:
        x = n.entries.get(p)
        new = x is None
        if new:
            x = n.entries[p] = Dir()
        n = x
    if not new and not exist_ok:
        raise oserror(errno.EEXIST, path)


def unlink(path):
    d, name = parent(path)
    n = d.entries.get(name)
    if n is None:
        raise oserror(errno.ENOENT, path)
    if isinstance(n, Dir):
        raise oserror(errno.EISDIR, path)
    faults.touch(path)
    faults.hit('remove')
    if not frozen():
        del d.entries[name]


def rmdir(path):
    d, name = parent(path)
    if not isinstance(d.entries.get(name), Dir):
        raise oserror(errno.ENOENT, path)
    if len(d.entries.get(name).entries):
        raise oserror(errno.ENOTEMPTY, path)
    if not frozen():
        del d.entries[name]


def rename(src, dst, **k):
    d, name = parent(src)
    n = d.entries.get(name)
    if n is None:
        raise oserror(errno.ENOENT, src)
    d2, name2 = parent(dst)
    if device(src) != device(dst):
        raise oserror(errno.EXDEV, src)
    faults.touch(src)
    faults.touch(dst)
    faults.hit('rename')
    if frozen():
        return
    if isinstance(d2.entries.get(name2), Dir):
        raise oserror(errno.EISDIR, dst)
    del d.entries[name]
    d2.entries[name2] = n


def link(src, dst, **k):
    n = node(src)
    d, name = parent(dst)
    if name in d.entries:
        raise oserror(errno.EEXIST, dst)
    faults.touch(dst)
    faults.hit('rename')
    if not frozen():
        d.entries[name] = n


def copyfile(src, dst, **k):
    if isdir(dst):
        dst = dst + '/' + parts(src)[-1]
    with vopen(src, 'rb') as a:
        with vopen(dst, 'wb') as b:
            b.write(a.read())
    return dst


def move(src, dst, *a, **k):
    if isdir(dst):
        dst = dst + '/' + parts(src)[-1]
    try:
        rename(src, dst)
    except OSError as e:
        if e.errno != errno.EXDEV:
            raise
        copyfile(src, dst)
        unlink(src)
    return dst


def rmtree(path, *a, **k):
    d, name = parent(path)
    d.entries.pop(name, None)


def temp_name(suffix, prefix, dir):
    S.temps += 1
    return '%s/%s%08d%s' % (dir or ROOT + '/tmp', 'tmp' if prefix is None else prefix, S.temps, suffix or '')


def named_temporary_file(mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
                         delete=True, *, errors=None, delete_on_close=True):
    if dir is not None and not is_vfs(dir):
        raise Inconclusive('temporary file in %r' % (dir,))
    path = temp_name(suffix, prefix, dir)
    f = vopen(path, mode.replace('w', 'x'), encoding=encoding, errors=errors, newline=newline)
    f.mode = mode
    f.delete = delete
    return f


def mkstemp(suffix=None, prefix=None, dir=None, text=False):
    path = temp_name(suffix, prefix, dir)
    f = vopen(path, 'x+b')
    return f.fd, path


def mkdtemp(suffix=None, prefix=None, dir=None):
    path = temp_name(suffix, prefix, dir)
    mkdir(path)
    return path


def os_open(path, flags, mode=0o777, **k):
    m = 'rb'
    if flags & (os.O_WRONLY | os.O_RDWR):
        m = 'r+b'
        if flags & os.O_CREAT and not exists(path):
            m = 'x+b'
        elif flags & os.O_EXCL:
            raise oserror(errno.EEXIST, path)
        elif flags & os.O_TRUNC:
            m = 'w+b'
    return vopen(path, m).fd


def os_write(fd, data):
    f = S.fds[fd]
    n = f.write(data)
    if not frozen():
        f._commit()
    return n


def os_close(fd):
    S.fds[fd].close()


def fstat(fd):
    return Stat(S.fds[fd].node)


class VMap(object):
    """mmap of a file for reading."""

    def __init__(self, n, size):
        self.n = n
        self.size = size
        self.pos = 0
        self.closed = False

    def _data(self):
        if self.closed:
            raise ValueError('mmap closed or invalid')
        return mk(True, self.n.cs[:self.size])

    def __getitem__(self, i):
        return self._data()[i]

    def __len__(self):
        return self.size

    def read(self, n=None):
        d = self._data()[self.pos:] if n is None else self._data()[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else self.size + p

    def tell(self):
        return self.pos

    def find(self, *a):
        return mcall(self._data(), 'find', *a)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def m_mmap(fd, length, *a, **k):
    f = S.fds.get(fd)
    if f is None:
        return mmap.mmap(fd, length, *a, **k)
    size = len(f.node.cs)
    if length == 0:
        length = size
        if not size:
            raise ValueError('cannot mmap an empty file')
    if length > size:
        raise ValueError('mmap length is greater than file size')
    return VMap(f.node, length)


# -- pickle -------------------------------------------------------------------
MAGIC = b'\x80\x05SXPICKLE'


def dumps(value, protocol=None, **k):
    n = len(S.pickles)
    S.pickles[n] = _deepcopy(value)
    return MAGIC + b'%08d.' % n


def loads(data, **k):
    data = _bytes(data)
    v, rest = _load(data)
    return v


def _bytes(data):
    if isinstance(data, models.SymBuf):
        data = data.getvalue()
    if type(data) is SymBytes:
        if not all(type(c) is int for c in data.cs):
            raise Inconclusive('symbolic pickle data')
        data = bytes(data.cs)
    return data


def _load(data):
    if not data:
        raise EOFError('Ran out of input')
    n = len(MAGIC)
    if data[:n] != MAGIC or len(data) < n + 9 or data[n + 8:n + 9] != b'.':
        if data.startswith(MAGIC[:len(data)]):
            raise EOFError('Ran out of input')
        if data[:2] == MAGIC[:2] and data[:n] == MAGIC:
            raise pickle.UnpicklingError('pickle data was truncated')
        # a real pickle
        return pickle.loads(data), b''
    i = int(data[n:n + 8])
    if i not in S.pickles:
        raise pickle.UnpicklingError('invalid load key')
    return _deepcopy(S.pickles[i]), data[n + 9:]


def _deepcopy(v):
    import copy     # the instrumented one
    return copy.deepcopy(v)


def dump(value, f, protocol=None, **k):
    f.write(dumps(value, protocol))


def load(f, **k):
    pos = f.tell()
    data = _bytes(f.read())
    v, rest = _load(data)
    f.seek(pos + len(data) - len(rest))
    return v


class Pickler(object):
    def __init__(self, f, protocol=None, **k):
        self.f = f

    def dump(self, v):
        dump(v, self.f)


class Unpickler(object):
    def __init__(self, f, **k):
        self.f = f

    def load(self):
        return load(self.f)


# -- dbm --------------------------------------------------------------------------
class Dbm(object):
    """A database file: every write is on disk at once."""

    def __init__(self, data, flag):
        self.data = data
        self.flag = flag
        self.opened = True

    def _check(self, write=False):
        if not self.opened:
            raise dbm.error[0]('DBM object has already been closed')
        if write and self.flag == 'r':
            raise dbm.error[0]('read only')

    def _k(self, k):
        if isinstance(k, str):
            k = mcall(k, 'encode', 'utf-8')
        return k

    def __getitem__(self, k):
        self._check()
        return self.data[self._k(k)]

    def __setitem__(self, k, v):
        self._check(True)
        self.data[self._k(k)] = v

    def __delitem__(self, k):
        self._check(True)
        del self.data[self._k(k)]

    def __contains__(self, k):
        self._check()
        return self._k(k) in self.data

    def get(self, k, d=None):
        self._check()
        return self.data.get(self._k(k), d)

    def setdefault(self, k, d=b''):
        self._check()
        return self.data.setdefault(self._k(k), d)

    def keys(self):
        self._check()
        return list(self.data)

    def __iter__(self):
        self._check()
        return iter(list(self.data))

    def __len__(self):
        self._check()
        return len(self.data)

    def sync(self):
        pass

    def close(self):
        self.opened = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def dbm_open(file, flag='r', mode=0o666):
    if not is_vfs(file):
        return dbm.open(file, flag, mode)
    old = S.dbms.get(file)
    if old is None:
        if flag in ('r', 'w'):
            raise dbm.error[0]("db file doesn't exist; use 'c' or 'n' flag to create a new db")
        old = S.dbms[file] = SDict()
    elif flag == 'n':
        old.clear()
    return Dbm(old, flag)


# -- installation --------------------------------------------------------------------
def on_path(native, fake, pos=0, also=()):
    """Model: use the stand-in if the path argument is below ROOT (or one of
    our file descriptors)."""
    def m(*a, **k):
        if S is not None and len(a) > pos:
            p = a[pos]
            if is_vfs(p) or (type(p) is int and p in S.fds):
                return fake(*a, **k)
        elif S is not None and k:
            for n in ('path', 'file', 'fd', 'src', 'filename'):
                if n in k and (is_vfs(k[n]) or type(k[n]) is int and k[n] in S.fds):
                    return fake(*a, **k)
        if models.anysym(a, k):
            return models.native(native, a, k)
        return native(*a, **k)
    prev = MODELS.get(id(native))
    if prev is not None:
        old = prev[1]

        def m2(*a, **k):
            p = a[pos] if len(a) > pos else None
            if S is not None and p is not None and is_vfs(p):
                return fake(*a, **k)
            return old(*a, **k)
        MODELS[id(native)] = (native, m2)
    else:
        MODELS[id(native)] = (native, m)


def always(native, fake):
    def m(*a, **k):
        if S is None:
            return native(*a, **k)
        return fake(*a, **k)
    MODELS[id(native)] = (native, m)


def temp(native, fake):
    def m(*a, **k):
        if S is None or not eng().active:
            return native(*a, **k)
        return fake(*a, **k)
    MODELS[id(native)] = (native, m)


def install():
    faults.Crash = type('Crash', (Control,), {})
    on_path(builtins.open, vopen)
    for n, f in (('stat', stat), ('lstat', stat), ('listdir', listdir), ('scandir', scandir), ('mkdir', mkdir),
                 ('makedirs', makedirs), ('remove', unlink), ('unlink', unlink), ('rmdir', rmdir),
                 ('rename', rename), ('replace', rename), ('link', link), ('open', os_open), ('write', os_write),
                 ('close', os_close), ('fstat', fstat), ('fdopen', vopen),
                 ('fsync', lambda fd: S.fds[getattr(fd, 'fd', fd)].flush()), ('fdatasync', lambda fd: None),
                 ('utime', lambda *a, **k: None), ('chmod', lambda *a, **k: None),
                 ('access', lambda p, *a, **k: exists(p))):
        on_path(getattr(os, n), f)
    for n, f in (('exists', exists), ('lexists', exists), ('isfile', isfile), ('isdir', isdir),
                 ('islink', lambda p: False), ('getsize', lambda p: stat(p).st_size),
                 ('getmtime', lambda p: stat(p).st_mtime), ('getctime', lambda p: stat(p).st_ctime),
                 ('getatime', lambda p: stat(p).st_atime),
                 ('realpath', lambda p, **k: p), ('samefile', lambda a, b: node(a) is node(b))):
        on_path(getattr(os.path, n), f)
    for n, f in (('move', move), ('copy', copyfile), ('copyfile', copyfile), ('copy2', copyfile), ('rmtree', rmtree)):
        on_path(getattr(shutil, n), f)
    temp(tempfile.NamedTemporaryFile, named_temporary_file)
    temp(tempfile.mkstemp, mkstemp)
    temp(tempfile.mkdtemp, mkdtemp)
    temp(tempfile.gettempdir, lambda: ROOT + '/tmp')
    MODELS[id(mmap.mmap)] = (mmap.mmap, m_mmap)
    for n, f in (('dumps', dumps), ('loads', loads), ('dump', dump), ('load', load), ('Pickler', Pickler),
                 ('Unpickler', Unpickler)):
        always(getattr(pickle, n), f)
    always(dbm.open, dbm_open)
    import time
    real_time = time.time
    always(time.time, lambda: S.now() if S.now is not None else real_time())
    import lockfile
    faults.patch_locks()
