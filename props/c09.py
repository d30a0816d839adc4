"""C09: interrupted pickle writes."""
import os
import pickle

from sx import faults
from sx.harness import scenario

faults.patch_locks()

from sbclassifier.safepickle import pickle_read, pickle_write     # noqa: E402

META = dict(
    labels=['complete pickle', 'new value stored', 'lock held', 'lock released', 'failure reported', 'read back',
            'locked file untouched', 'nothing locked forever'],
    bounds='one write (thorough: two) of a symbolic value over no file, an old pickle or an old pickle of another size; '
           'one fault at a symbolic place: any open, write, flush, close, rename or remove (1st to 3rd of its kind), '
           'as an error, an interrupt, the end of the process there, or its end with half of the data written',
    outside='several faults in one write; losses of data already handed to the operating system; real lock files '
            '(a stand-in records acquire and release); concurrent writers other than by the lock they hold',
    assumptions=['rename is atomic within a directory and fails across file systems; buffered data reaches the file '
                 'at flush or close'],
)


class Bad(object):
    """Cannot be pickled."""

    def __reduce_ex__(self, protocol):
        raise ValueError('no pickle')


def content(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def value(ctx, name, n):
    return {'a': [ctx.bytes(name, n), n], 'b': (n, 'x')}


def watch(ctx, path):
    """Checks that the lock is held whenever the file is touched."""
    def touch(p):
        if type(p) is str and os.path.abspath(p) == path:
            ctx.check(bool(faults.HELD.get(path)), 'lock held')
    faults.TOUCH = touch


def plan(ctx, name):
    kind = ctx.small(name + '.kind', 0, len(faults.KINDS) - 1)
    return faults.Plan(kind, ctx.small(name + '.occurrence', 0, 2), ctx.small(name + '.action', 0, 3))


def check_file(ctx, path, old, new, pl, st, x):
    """The content afterwards: old or new, complete."""
    now = content(path)
    ctx.reach('complete pickle')
    if now != old:
        # raises unless it is a complete pickle
        ctx.check(pickle.loads(now) == new, 'complete pickle')
    if st == 'ok':
        ctx.check(now is not None, 'new value stored')
        ctx.check(pickle.loads(now) == new, 'new value stored')
    if st != 'crash':
        ctx.check(not faults.HELD.get(path), 'lock released')
    if st == 'error':
        ctx.reach('failure reported')
        ctx.check(pl.fired, 'failure reported')


@scenario(quick=[dict(old=0, relative=False), dict(old=1, relative=False), dict(old=3, relative=False),
                 dict(old=1, relative=True)])
def write(ctx, old, relative):
    faults.reset()
    d = ctx.scratch()
    path = os.path.join(d, 'db')
    if old:
        with open(path, 'wb') as f:
            pickle.dump([b'old'] * old, f)
    before = content(path)
    new = value(ctx, 'new', 2)
    pl = plan(ctx, 'fault')
    watch(ctx, path)
    name = d + '/./db' if relative else path
    st, x = faults.run(ctx, pl, lambda: pickle_write(name, new))
    faults.TOUCH = None
    check_file(ctx, path, before, new, pl, st, x)
    if st == 'crash':
        # the next process finds a stale lock at most
        faults.HELD.clear()
    # a later write works
    again = value(ctx, 'again', 1)
    pickle_write(path, again)
    ctx.check(pickle_read(path) == again, 'read back')
    ctx.check(not faults.HELD.get(path), 'lock released')


@scenario(quick=[], thorough=[dict(old=0), dict(old=1)])
def write_twice(ctx, old):
    faults.reset()
    path = os.path.join(ctx.scratch(), 'db')
    if old:
        pickle_write(path, [b'old'])
    for i in '12':
        before = content(path)
        new = value(ctx, 'new' + i, int(i))
        pl = plan(ctx, 'fault' + i)
        watch(ctx, path)
        st, x = faults.run(ctx, pl, lambda: pickle_write(path, new))
        faults.TOUCH = None
        check_file(ctx, path, before, new, pl, st, x)
        if st == 'crash':
            faults.HELD.clear()


@scenario(quick=[dict(old=0), dict(old=1)])
def bad_value(ctx, old):
    faults.reset()
    path = os.path.join(ctx.scratch(), 'db')
    if old:
        pickle_write(path, [b'old'])
    before = content(path)
    bad = [b'x' * 10, Bad()] if ctx.boolean('late') else Bad()
    failed, e = ctx.raises(lambda: pickle_write(path, bad), ValueError)
    ctx.check(failed, 'failure reported')
    ctx.check(content(path) == before, 'complete pickle')
    ctx.check(not faults.HELD.get(path), 'lock released')


@scenario(quick=[{}])
def read(ctx):
    faults.reset()
    path = os.path.join(ctx.scratch(), 'db')
    v = value(ctx, 'v', 2)
    kind = ctx.choice('file', ['good', 'missing', 'empty'])
    if kind == 'good':
        pickle_write(path, v)
    elif kind == 'empty':
        with open(path, 'wb') as f:
            pass
    pl = plan(ctx, 'fault')
    ctx.assume(ctx.any([pl.action == 0, pl.action == 3]))
    watch(ctx, path)
    st, x = faults.run(ctx, pl, lambda: pickle_read(path))
    faults.TOUCH = None
    ctx.check(not faults.HELD.get(path), 'lock released')
    if kind == 'good' and not pl.fired:
        ctx.check(st == 'ok', 'read back')
        ctx.check(x == v, 'read back')
    if kind != 'good':
        ctx.check(st == 'error', 'failure reported')
    faults.TOUCH = None


@scenario(quick=[dict(op='read'), dict(op='write')])
def locked(ctx, op):
    """Somebody else holds the lock."""
    import lockfile
    faults.reset()
    path = os.path.join(ctx.scratch(), 'db')
    v = value(ctx, 'v', 2)
    pickle_write(path, v)
    before = content(path)
    other = lockfile.FileLock(path)
    other.acquire()
    touched = []
    faults.TOUCH = lambda p: touched.append(p == path)
    pl = faults.Plan(faults.KINDS.index('none'), 0, 0)
    st, x = faults.run(ctx, pl, lambda: pickle_read(path) if op == 'read' else pickle_write(path, [b'no']))
    faults.TOUCH = None
    ctx.check(st == 'error', 'locked file untouched')
    ctx.check(not any(touched), 'locked file untouched')
    ctx.check(content(path) == before, 'locked file untouched')
    ctx.check(faults.HELD.get(path) is other, 'locked file untouched')
    other.release()
    ctx.check(pickle_read(path) == v, 'nothing locked forever')
