"""C10: the shelve-backed classifier against the in-memory one."""
import os

from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.storage import ShelveClassifier

META = dict(
    labels=['same totals', 'same counts', 'same scores', 'same after reopening', 'totals are not a token',
            'unknown token'],
    bounds='histories of 4 (thorough 5) operations out of learn, unlearn, score, store, store+close+reopen over 2 tokens; '
           'and a fixed life cycle (learn, learn, store, reopen, unlearn, store, reopen) of 2 tokens of every kind '
           '(bytes, str) made of one of 8 prefixes ("", "saved stat", "bytes:", "str:", ...) and 1 to 2 symbolic characters',
    outside='longer histories; more tokens; str tokens with characters above U+00FF (none can be a surrogate, which '
            'has no UTF-8 form); the dbm and pickle modules (modelled as a map and as deep copies; replays use them)',
    assumptions=['a dbm database is a map from bytes to bytes, written at once'],
)

PREFIXES = ['', 'saved stat', 'saved state', 'bytes:', 'str:', 'str:saved stat', 'bytes:bytes:', 'str:str:']


def counts(c, t):
    r = c._wordinfoget(t)
    return None if r is None else (r.spamcount, r.hamcount)


def same(ctx, c, m, toks, label='same counts', score=True):
    ctx.check((c.nspam, c.nham) == (m.nspam, m.nham), 'same totals')
    for t in toks:
        ctx.check(counts(c, t) == counts(m, t), label)
    if score:
        for t in toks:
            a, b = c.spamprob([t], True), m.spamprob([t], True)
            ctx.check(abs(a[0] - b[0]) < 1e-12, 'same scores')
            ctx.check(a[1] == b[1], 'same scores')


def token(ctx, name, prefix, kind, n):
    if kind == 'bytes':
        return prefix.encode() + ctx.bytes(name, n)
    return prefix + ctx.str(name, n)


def reopen(c, path):
    c.store()
    c.close()
    return ShelveClassifier(path)


@scenario(quick=[dict(i=i, n=1) for i in range(len(PREFIXES))], thorough=[dict(i=0, n=2), dict(i=1, n=2)], weight=2)
def texts(ctx, i, n):
    path = os.path.join(ctx.scratch(), 'db')
    c, m = ShelveClassifier(path), Classifier()
    a = token(ctx, 'a', PREFIXES[i], ctx.choice('kind', ['bytes', 'str']), n)
    b = token(ctx, 'b', ctx.choice('prefix', PREFIXES), ctx.choice('kindb', ['bytes', 'str']), n)
    if ctx.symbolic or type(a) is type(b):
        ctx.assume(a != b)
    new = type(a)() + a + a
    for x in c, m:
        x.learn([a], True)
        x.learn([b], False)
        if ctx.boolean('more'):
            x.learn([a], False)
    same(ctx, c, m, [a, b])
    ctx.check(counts(c, new) is None, 'unknown token')
    c = reopen(c, path)
    same(ctx, c, m, [a, b], 'same after reopening')
    ctx.check(counts(c, new) is None, 'unknown token')
    for t in 'saved state', b'saved state':
        if not ctx.any([t == x for x in (a, b) if isinstance(x, type(t))]):
            ctx.check(counts(c, t) is None, 'totals are not a token')
    for x in c, m:
        x.unlearn([a], True)
        x.learn([b], True)
    same(ctx, c, m, [a, b])
    c = reopen(c, path)
    same(ctx, c, m, [a, b], 'same after reopening')


@scenario(quick=[dict(ops=4)], thorough=[dict(ops=5), dict(ops=6)], weight=3)
def history(ctx, ops):
    path = os.path.join(ctx.scratch(), 'db')
    c, m = ShelveClassifier(path), Classifier()
    same(ctx, c, m, [b'aaa'])
    toks = [b'aaa', b'bbb']
    learned = []
    for i in range(ops):
        op = ctx.choice('op%d' % i, ['learn', 'store', 'reopen', 'score'] + (['unlearn'] if learned else []))
        if op == 'learn':
            msg = toks[:1 + ctx.pick('len%d' % i, 2)]
            spam = ctx.boolean('spam%d' % i)
            for x in c, m:
                x.learn(msg, spam)
            learned.append((msg, spam))
        elif op == 'unlearn':
            msg, spam = learned.pop(ctx.pick('which%d' % i, min(2, len(learned))))
            for x in c, m:
                x.unlearn(msg, spam)
        elif op == 'score':
            same(ctx, c, m, toks)
        elif op == 'store':
            c.store()
        else:
            c = reopen(c, path)
    same(ctx, c, m, toks)
    c = reopen(c, path)
    same(ctx, c, m, toks, 'same after reopening')


@scenario(quick=[{}])
def load_again(ctx):
    """load() of an open classifier gives the stored state."""
    path = os.path.join(ctx.scratch(), 'db')
    c = ShelveClassifier(path)
    c.learn([b'aaa', b'bbb'], True)
    c.learn([b'aaa'], ctx.boolean('spam'))
    c.spamprob([b'aaa', b'bbb'])
    c.store()
    c.close()
    c.load()
    d = Classifier()
    d.learn([b'aaa', b'bbb'], True)
    d.learn([b'aaa'], ctx.boolean('spam'))
    same(ctx, c, d, [b'aaa', b'bbb'], 'same after reopening')
