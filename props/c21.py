"""C21: expiry of messages."""
import os

from props.clock import MAX, Clock, World
from sx.harness import scenario
from sbclassifier.corpora import ExpiryFileCorpus, message_added, message_removed
from sbclassifier.message import from_bytes

META = dict(
    labels=['expired removed', 'younger kept', 'silent', 'other files', 'listing', 'content'],
    bounds='every clock history (integer clock readings, never decreasing, also between the readings of one call) and every expiry age, '
           'with up to 3 files of arbitrary creation (and modification) times, 2 to 4 (thorough: 5) calls, messages added in between; 300 files of two ages',
    outside='clocks that go backwards; files that change while a check runs; failing file operations; fractional clock readings '
            '(the code only adds and compares)',
    assumptions=['os.path.getctime / os.stat deliver the creation time'],
)

def text(i):
    return b'Subject: m%d\n\nbody\n' % i


def put(w, d, name, ctime, mtime, data=b'Subject: x\n\nbody\n'):
    with open(os.path.join(d, name), 'wb') as f:
        f.write(data)
    w.set(os.path.join(d, name), ctime, mtime)


def run(ctx, n, calls, steady, adds, pattern='*'):
    d = ctx.scratch()
    clock = Clock(ctx)
    age = ctx.int('age', 0, MAX)
    log = []

    def seen(sender, **k):
        log.append(sender)
    with World(ctx, clock) as w:
        files = {}
        for i in range(n):
            c = ctx.int('c%d' % i, 0, MAX)
            m = ctx.int('m%d' % i, 0, MAX) if i == 0 else c
            put(w, d, 'm%d' % i, c, m, text(i))
            files['m%d' % i] = c
        others = []
        if pattern != '*':
            put(w, d, 'other', 0, 0)
            others.append('other')
        t = clock.read()
        clock.steady = steady
        corpus = ExpiryFileCorpus(age, d, pattern)
        for c in files.values():
            ctx.assume(c <= clock.value)
        message_added.connect(seen)
        message_removed.connect(seen)
        try:
            for i in range(calls):
                if adds and i == 1:
                    clock.steady = False
                    clock.read()
                    clock.steady = steady
                    m = from_bytes(text(9), 'm9')
                    corpus.add_message(m, emit_signal=False)
                    w.set(os.path.join(d, 'm9'), clock.value, clock.value)
                    files['m9'] = clock.value
                clock.steady = False
                before = clock.read()
                clock.steady = steady
                corpus.remove_expired_messages()
                after = clock.value
                left = list(os.listdir(d))
                for k, c in list(files.items()):
                    if k in left:
                        # it had not expired when the call began
                        ctx.check(c + age >= before, 'expired removed')
                    else:
                        # it has expired when the call ends
                        ctx.check(c + age < after, 'younger kept')
                        del files[k]
                ctx.check(sorted(left) == sorted(list(files) + others), 'other files')
                ctx.check(sorted(corpus.keys()) == sorted(files), 'listing')
                ctx.check(len(corpus) == len(files), 'listing')
            for k in files:
                with open(os.path.join(d, k), 'rb') as f:
                    ctx.check(f.read() == text(int(k[1:])), 'content')
                ctx.check(corpus[k].id() == k, 'content')
            for k in others:
                with open(os.path.join(d, k), 'rb') as f:
                    ctx.check(f.read() == text(0).replace(b'm0', b'x'), 'other files')
            ctx.check(len(log) == 0, 'silent')
        finally:
            message_added.disconnect(seen)
            message_removed.disconnect(seen)


@scenario(quick=[dict(n=1, calls=4), dict(n=2, calls=3), dict(n=3, calls=3)], thorough=[dict(n=2, calls=4), dict(n=4, calls=3), dict(n=1, calls=6)])
def steady(ctx, n, calls):
    run(ctx, n, calls, True, False, ctx.choice('pattern', ['*', 'm*']))


@scenario(quick=[dict(n=2, calls=2), dict(n=1, calls=3), dict(n=2, calls=3)], thorough=[dict(n=3, calls=3), dict(n=2, calls=4)])
def moving(ctx, n, calls):
    run(ctx, n, calls, False, False)


@scenario(quick=[dict(n=1, calls=2), dict(n=1, calls=3), dict(n=0, calls=3), dict(n=2, calls=3)], thorough=[dict(n=2, calls=4)])
def adding(ctx, n, calls):
    run(ctx, n, calls, True, True)


@scenario()
def many(ctx):
    """Hundreds of files, some of which have expired."""
    d = ctx.scratch()
    clock = Clock(ctx)
    clock.steady = True
    clock.value = 10 ** 6
    n = 300
    with World(ctx, clock) as w:
        old = ctx.choice('old', [range(0), range(n), range(0, n, 2), range(250, n), [0], [n - 1], range(n - 1)])
        for i in range(n):
            put(w, d, 'm%d' % i, 10 ** 6 - (1001 if i in old else 999), 0, text(i))
        corpus = ExpiryFileCorpus(1000, d, '*', ctx.choice('cache', [1, 256]))
        corpus.remove_expired_messages()
        ctx.check(sorted(os.listdir(d)) == sorted(['m%d' % i for i in range(n) if i not in old]), 'expired removed')
        # the others go when they are due
        clock.value += ctx.int('later', 0, 10)
        corpus.remove_expired_messages()
        left = len(os.listdir(d))
        ctx.check(left == (n - len(old) if clock.value <= 10 ** 6 + 1 else 0), 'younger kept')
