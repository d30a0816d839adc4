"""Fault plans: which I/O operation fails, or where the process ends.

Shared by symbolic runs (the operations of sx.fs call `hit`) and by native
replays (wrappers around the real functions call `hit`)."""
import builtins
import errno
import io
import os
import shutil
import sys
import tempfile

CURRENT = None          # the plan in force
Crash = None            # exception that ends a symbolic run of the operation
LOCKS = []              # ('acquire' | 'release', name)
HELD = {}
TOUCH = None            # function called with every path that is accessed

KINDS = ['open', 'write', 'flush', 'close', 'rename', 'remove', 'none']
ACTIONS = ['error', 'crash', 'half', 'interrupt']


def reset():
    global CURRENT, TOUCH
    CURRENT = None
    TOUCH = None
    LOCKS.clear()
    HELD.clear()


class Plan(object):
    """kind, occurrence and action may be symbolic."""

    def __init__(self, kind, occurrence, action):
        self.kind = kind
        self.occurrence = occurrence
        self.action = action
        self.count = {}
        self.crashed = False
        self.fired = False
        self.steps = []

    def hit(self, kind, half=None):
        n = self.count.get(kind, 0)
        self.count[kind] = n + 1
        self.steps.append(kind)
        if self.fired or n > 2:
            return
        if self.kind == KINDS.index(kind) and self.occurrence == n:
            self.fired = True
            a = self.action
            if a == 0:
                raise OSError(errno.EIO, 'injected failure of ' + kind)
            if a == 3:
                raise KeyboardInterrupt()
            if a == 2 and half is not None:
                half()
            self.crash()

    def crash(self):
        self.crashed = True
        raise Crash()


def hit(kind, half=None):
    if CURRENT is not None and not CURRENT.crashed:
        CURRENT.hit(kind, half)


def touch(path):
    if TOUCH is not None and not (CURRENT is not None and CURRENT.crashed):
        TOUCH(path)


class RecordingLock(object):
    """Stands for lockfile.FileLock and records what happens to it."""

    def __init__(self, path, threaded=True, timeout=None):
        self.path = os.path.abspath(path)
        self.timeout = timeout

    def acquire(self, timeout=None):
        import lockfile
        if HELD.get(self.path):
            raise lockfile.LockTimeout('already locked')
        HELD[self.path] = self
        LOCKS.append(('acquire', self.path))

    def release(self):
        import lockfile
        if CURRENT is not None and CURRENT.crashed:
            return
        if not HELD.get(self.path):
            raise lockfile.NotLocked('not locked')
        if HELD[self.path] is not self:
            raise lockfile.NotMyLock('not my lock')
        HELD[self.path] = None
        LOCKS.append(('release', self.path))

    def is_locked(self):
        return bool(HELD.get(self.path))

    def i_am_locking(self):
        return HELD.get(self.path) is self

    def break_lock(self):
        HELD[self.path] = None
        LOCKS.append(('release', self.path))

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def patch_locks():
    import lockfile
    for n in ('FileLock', 'LockFile', 'LinkFileLock', 'MkdirFileLock', 'SQLiteFileLock'):
        if hasattr(lockfile, n):
            setattr(lockfile, n, RecordingLock)
    for m, n in (('linklockfile', 'LinkLockFile'), ('mkdirlockfile', 'MkdirLockFile')):
        try:
            mod = __import__('lockfile.' + m, fromlist=['x'])
            setattr(mod, n, RecordingLock)
        except ImportError:
            pass


def run(ctx, plan, fn):
    """Runs fn under the plan: ('ok', result), ('error', exception) or
    ('crash', None)."""
    if ctx.symbolic:
        return run_symbolic(plan, fn)
    return run_native(plan, fn)


def run_symbolic(plan, fn):
    global CURRENT
    CURRENT = plan
    try:
        r = fn()
        return 'ok', r
    except Crash:
        return 'crash', None
    except (Exception, KeyboardInterrupt) as e:
        if plan.crashed:
            return 'crash', None
        return 'error', e
    finally:
        CURRENT = None


# -- native: wrappers around the real functions ----------------------------------
class FaultFile(object):

    def __init__(self, f, name):
        self.__dict__['_f'] = f
        self.__dict__['_name'] = name
        self.__dict__['_w'] = f.writable()
        self.__dict__['_pending'] = b''

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)

    def _half(self):
        p = self._pending
        if isinstance(p, bytes) and p:
            os.write(self._f.fileno(), p[:(len(p) + 1) // 2])

    def write(self, s):
        touch(self._name)
        hit('write', self._half)
        r = self._f.write(s)
        if isinstance(s, str):
            s = s.encode('utf-8', 'replace')
        self.__dict__['_pending'] += bytes(s)
        return r

    def flush(self):
        if self._pending:
            hit('flush', self._half)
        self._f.flush()
        self.__dict__['_pending'] = b''

    def close(self):
        if self._f.closed:
            return
        if self._w:
            try:
                hit('close', self._half)
            except OSError:
                # the data is lost, the descriptor is closed
                self.__dict__['_pending'] = b''
                fd = os.dup(self._f.fileno())
                null = os.open('/dev/null', os.O_WRONLY)
                os.dup2(null, self._f.fileno())
                os.close(null)
                os.close(fd)
                self._f.close()
                raise
        self._f.close()
        self.__dict__['_pending'] = b''

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)


def run_native(plan, fn, tmp=None):
    """In a forked child if the plan ends the process."""
    if plan.action in (0, 3) or plan.kind == KINDS.index('none'):
        return with_wrappers(plan, fn)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            plan.crash = lambda: os._exit(77)
            st, x = with_wrappers(plan, fn)
            code = 0 if st == 'ok' else 1
        finally:
            os._exit(code)
    os.close(w)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code == 77:
        plan.crashed = True
        return 'crash', None
    if code == 0:
        return 'ok', None
    return 'error', None


def with_wrappers(plan, fn):
    global CURRENT
    real = {}

    def patch(mod, name, f):
        real.setdefault((mod, name), getattr(mod, name))
        setattr(mod, name, f)
    r_open = io.open
    r_os_open = os.open
    tmp = tempfile.mkdtemp(prefix='sx-tmp-')

    def f_open(file, mode='r', *a, **k):
        opener = k.get('opener') or (a[5] if len(a) > 5 else None)
        if opener is None and not isinstance(file, int):
            touch(file)
            hit('open')
        f = r_open(file, mode, *a, **k)
        return FaultFile(f, file if isinstance(file, str) else '')

    def f_os_open(path, flags, *a, **k):
        touch(path)
        hit('open')
        return r_os_open(path, flags, *a, **k)

    def wrap2(f):
        def g(src, dst, **k):
            a, b = (os.path.abspath(os.fspath(x)) for x in (src, dst))
            if a.startswith(tmp) != b.startswith(tmp):
                raise OSError(errno.EXDEV, 'Invalid cross-device link', src)
            touch(src)
            touch(dst)
            hit('rename')
            return f(src, dst, **k)
        return g

    def wrap1(f):
        def g(path, **k):
            touch(path)
            hit('remove')
            return f(path, **k)
        return g
    old_tmp = tempfile.tempdir
    tempfile.tempdir = tmp
    patch(builtins, 'open', f_open)
    patch(io, 'open', f_open)
    patch(os, 'open', f_os_open)
    patch(os, 'fdopen', lambda fd, *a, **k: FaultFile(r_open(fd, *a, **k), ''))
    for n in ('rename', 'replace', 'link', 'symlink'):
        patch(os, n, wrap2(getattr(os, n)))
    for n in ('remove', 'unlink'):
        patch(os, n, wrap1(getattr(os, n)))
    patch(shutil, '_USE_CP_SENDFILE', False)
    CURRENT = plan
    try:
        try:
            return 'ok', fn()
        except (Exception, KeyboardInterrupt) as e:
            return 'error', e
    finally:
        CURRENT = None
        tempfile.tempdir = old_tmp
        for (mod, name), f in real.items():
            setattr(mod, name, f)
        shutil.rmtree(tmp, ignore_errors=True)
