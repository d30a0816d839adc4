"""C12: the CDB-backed classifier."""
import os

from sx.harness import scenario
from sbclassifier.classifiers.basic import WordInfo
from sbclassifier.classifiers.storage import CDBClassifier

META = dict(
    labels=['same totals', 'same records', 'missing file is empty', 'load replaces', 'same scores'],
    bounds='1 to 2 tokens of every kind (bytes, str) made of one of 8 prefixes ("", "saved stat", "bytes:", "str:", ...) '
           'and up to 1 symbolic character of a small alphabet (thorough also 2), or of any byte, or one of 16 characters; all counts symbolic up to 99 (thorough 999), one up to 9999, and counts around 2**16, 2**31, 2**32 and 10**15; '
           'histories of 4 (thorough 5) trainings, stores and loads of 2 tokens',
    outside='more tokens (C11 decides the file format); str tokens with surrogates, which have no UTF-8 form; '
            'interrupted writes (the file is written in place)',
    assumptions=['files, struct and mmap as modelled in sx (replayed with the real ones)'],
)

PREFIXES = ['', 'saved stat', 'saved state', 'bytes:', 'str:', 'str:saved stat', 'bytes:bytes:', 'str:str:']


def state(c):
    return c.nspam, c.nham, {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}


def token(ctx, name, prefix, kind, n):
    if kind == 'bytes':
        return prefix.encode() + ctx.bytes(name, n, b'e\x00\xe9')
    return prefix + ctx.str(name, n, 'e\u20ac\xe9')


def compare(ctx, a, b):
    ctx.check(a[:2] == b[:2], 'same totals')
    ctx.check(a[2] == b[2], 'same records')


@scenario(quick=[dict(i=i, n=1) for i in range(len(PREFIXES))] + [dict(i=0, n=0)], thorough=[dict(i=0, n=2), dict(i=1, n=2)], weight=2)
def texts(ctx, i, n):
    path = os.path.join(ctx.scratch(), 'db')
    c = CDBClassifier(path)
    a = token(ctx, 'a', PREFIXES[i], ctx.choice('kind', ['bytes', 'str']), n)
    c.nham, c.nspam = 11, 7
    c.wordinfo[a] = WordInfo(3, 10)
    j = ctx.pick('prefix', len(PREFIXES) + 1)
    if j < len(PREFIXES):
        b = token(ctx, 'b', PREFIXES[j], ctx.choice('kindb', ['bytes', 'str']), 1)
        ctx.assume(b not in c.wordinfo)
        c.wordinfo[b] = WordInfo(5, 0)
    c.store()
    d = CDBClassifier(path)
    compare(ctx, state(c), state(d))
    d.store()
    compare(ctx, state(c), state(CDBClassifier(path)))


@scenario(quick=[dict(kind='bytes'), dict(kind='str')])
def characters(ctx, kind):
    """A token with any byte, or any of the characters where encodings change."""
    path = os.path.join(ctx.scratch(), 'db')
    c = CDBClassifier(path)
    a = b'x' + ctx.bytes('a', 1) if kind == 'bytes' else 'x' + ctx.str('a', 1, '\x00\n\r,\x7f\x80\x85\xa0\xff\u0100\u2028\ud7ff\ufeff\uffff\U00010000\U0010ffff')
    c.nham, c.nspam = 11, 7
    c.wordinfo[a] = WordInfo(3, 10)
    c.wordinfo[a + a] = WordInfo(1, 2)
    c.store()
    compare(ctx, state(c), state(CDBClassifier(path)))


@scenario(quick=[dict(top=99, one=False), dict(top=9999, one=True)], thorough=[dict(top=999, one=False)])
def counts(ctx, top, one):
    """All counts symbolic, or one of them."""
    path = os.path.join(ctx.scratch(), 'db')
    c = CDBClassifier(path)
    n = [11, 7, 10, 3]
    for i in [ctx.pick('which', 4)] if one else range(4):
        n[i] = ctx.int('n%d' % i, 0, top)
    c.nham, c.nspam = n[:2]
    c.wordinfo[b'abc'] = WordInfo(n[2], n[3])
    c.wordinfo[b'x'] = WordInfo(1, 10)
    before = state(c)
    c.store()
    compare(ctx, before, state(CDBClassifier(path)))


@scenario()
def large_counts(ctx):
    path = os.path.join(ctx.scratch(), 'db')
    c = CDBClassifier(path)
    base = ctx.choice('base', [65480, 2 ** 31 - 50, 2 ** 32 - 50, 10 ** 15])
    n = [base + 200, base + 300, base, base + 100]
    i = ctx.pick('which', 4)
    n[i] = base + ctx.int('n', 0, 99)
    c.nham, c.nspam = n[:2]
    c.wordinfo[b'abc'] = WordInfo(n[2], n[3])
    before = state(c)
    c.store()
    compare(ctx, before, state(CDBClassifier(path)))


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)], weight=2)
def history(ctx, n):
    path = os.path.join(ctx.scratch(), 'db')
    c = CDBClassifier(path)
    ctx.check(state(c) == (0, 0, {}), 'missing file is empty')
    stored = state(c)
    toks = [b'aaa', b'ccc']
    learned = []
    kept = []
    for i in range(n):
        op = ctx.choice('op%d' % i, ['learn', 'store', 'load', 'reopen'] + (['unlearn'] if learned else []))
        if op == 'learn':
            msg = toks[:1 + ctx.pick('len%d' % i, 2)]
            spam = ctx.boolean('spam%d' % i)
            c.learn(msg, spam)
            learned.append((msg, spam))
        elif op == 'unlearn':
            c.unlearn(*learned.pop())
        elif op == 'store':
            c.store()
            stored = state(c)
            kept = list(learned)
        else:
            if op == 'load':
                c.load()
            else:
                c = CDBClassifier(path)
            ctx.check(state(c) == stored, 'load replaces')
            learned = list(kept)
        f = CDBClassifier(path + '-none')
        f.nspam, f.nham = c.nspam, c.nham
        for w, r in c.wordinfo.items():
            f.wordinfo[w] = WordInfo(r.spamcount, r.hamcount)
        a, b = c.spamprob(toks, True), f.spamprob(toks, True)
        ctx.check(abs(a[0] - b[0]) < 1e-12, 'same scores')
        ctx.check(a[1] == b[1], 'same scores')
