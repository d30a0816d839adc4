"""C02: which tokens become clues."""
import math
from sx.harness import scenario
from sbclassifier.classifiers import basic
from sbclassifier.classifiers.basic import Classifier, WordInfo

META = dict(
    labels=['significant', 'strongest', 'at most 150', 'order and repeats', 'nothing else', 'from counts'],
    bounds='148 to 152 distinct tokens, of which 2 (thorough 3) have a spam count s that is a solver variable '
           '(0..1000, seen in 1000 messages in all) and the others one of 4 concrete strengths; up to 3 (thorough 4) tokens all symbolic; '
           '1 or 2 tokens at a distance of 0.1 +- 3e-5; all orders and repetitions of 3 tokens in streams of 4',
    outside='more symbolic tokens at once',
    assumptions=['chi2Q and log are replaced by constants in selection and big (the score is C01)'],
)


T = 1000


def classifier():
    c = Classifier()
    c.nham = c.nspam = T
    return c


def add(c, t, s):
    """A token seen in s spam and T - s ham messages."""
    c.wordinfo[t] = WordInfo(s, T - s)


def dist(p):
    return p - 0.5 if p >= 0.5 else 0.5 - p


def verify(ctx, c, toks):
    probs = {t: c.probability(c.wordinfo[t]) for t in c.wordinfo}
    real = math.log, basic.chi2Q
    # the score itself is not looked at here
    math.log, basic.chi2Q = (lambda x: -1.0), (lambda x2, v: 0.25)
    try:
        score, ev = c.spamprob(list(toks), True)
    finally:
        math.log, basic.chi2Q = real
    ctx.observe('score', len(ev))
    used = ev[2:]
    names = set()
    for w, p in used:
        ctx.check(w in probs, 'nothing else')
        ctx.check(p == probs[w], 'nothing else')
        ctx.check(w not in names, 'nothing else')
        names.add(w)
    strong = 0
    weakest = None
    for w, p in used:
        d = dist(p)
        ctx.check(d >= 0.1, 'significant')
        if weakest is None or d < weakest:
            weakest = d
    for w in probs:
        d = dist(probs[w])
        if d >= 0.1:
            strong += 1
            if w not in names:
                ctx.check(len(used) == 150, 'significant')
                ctx.check(ctx.ge(weakest, d), 'strongest')
    ctx.check(len(used) == (strong if strong < 150 else 150), 'at most 150')


@scenario(quick=[dict(n=149, k=2), dict(n=150, k=2), dict(n=151, k=2), dict(n=152, k=2), dict(n=3, k=3)],
          thorough=[dict(n=151, k=3), dict(n=152, k=3), dict(n=5, k=4)])
def selection(ctx, n, k):
    c = classifier()
    strengths = [750, 125, 875, 250]
    for i in range(n - k):
        add(c, b'w%03d' % i, strengths[i % 4])
    for i in range(k):
        add(c, b's%d' % i, ctx.int('s%d' % i, 0, T))
    toks = list(c.wordinfo) + [b'unknown', b'w000']
    verify(ctx, c, toks)


@scenario(quick=[dict(k=1), dict(k=2)])
def threshold(ctx, k):
    """Tokens very close to the limit of 0.1."""
    n = 10 ** 6
    c = Classifier()
    c.nham = c.nspam = n
    for i in range(k):
        s = ctx.int('s%d' % i, -30, 30) + ctx.choice('base%d' % i, [400000, 600000])
        c.wordinfo[b's%d' % i] = WordInfo(s, n - s)
    verify(ctx, c, list(c.wordinfo))


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def streams(ctx, n):
    """Order, repetition and the kind of iterable are irrelevant."""
    c = classifier()
    for t, p in ((b'a', 900), (b'b', 60), (b'c', 500), (b'd', 750)):
        add(c, t, p)
    s = [ctx.bytes('t%d' % i, 1, b'abcd') for i in range(n)]
    distinct = [t for t in (b'a', b'b', b'c', b'd') if ctx.any([x == t for x in s])]
    ref = c.spamprob(distinct, True)
    for other in (list(s), iter(s), tuple(s), reversed(s), s + s):
        got = c.spamprob(other, True)
        ctx.check(got == ref, 'order and repeats')
    ctx.check(c.spamprob(x for x in s) == ref[0], 'order and repeats')


@scenario(quick=[dict(extra=1), dict(extra=4), dict(extra=150), dict(extra=350)])
def big(ctx, extra):
    """150 + extra strong tokens of distinct strengths in symbolic order: the weakest are left out."""
    c = classifier()
    n = 150 + extra
    # distinct distances from 0.11 on
    rot = ctx.choice('rot', [0, 1, 7, 75, n - 1])
    side = [ctx.boolean('side%d' % i) for i in range(3)]
    for i in range(n):
        d = 110 + (i + rot) % n if n < 380 else 110 + (i + rot) % n * 0.75
        up = side[i % 3]
        add(c, b'w%03d' % i, 500 + d if up else 500 - d)
    toks = list(c.wordinfo)
    if ctx.boolean('reverse'):
        toks.reverse()
    verify(ctx, c, toks)


@scenario(quick=[{}])
def from_counts(ctx):
    c = Classifier()
    c.nham = ctx.int('nham', 1, 1000)
    c.nspam = ctx.int('nspam', 1, 1000)
    h = ctx.int('h', 0, 1000)
    s = ctx.int('s', 0, 1000)
    ctx.assume(ctx.all([h <= c.nham, s <= c.nspam, h + s >= 1]))
    c.wordinfo[b't'] = WordInfo(s, h)
    p = c.probability(c.wordinfo[b't'])
    score, ev = c.spamprob([b'u', b't', b'u'], True)
    got = [w for w, q in ev[2:]]
    if dist(p) >= 0.1:
        ctx.check(got == [b't'], 'from counts')
    else:
        ctx.check(got == [], 'from counts')
