"""C05: scores depend on the current counts only."""
from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier, WordInfo

META = dict(
    labels=['same probability', 'same score', 'counts unchanged', 'same evidence'],
    bounds='histories of 3 (thorough 4) operations out of score, learn, unlearn (spam or ham, tokens symbolic bytes) '
           'and a getstate/setstate round trip, from totals and counts that are solver variables up to 1000 '
           '(or concrete for whole scores); 2 tokens, with any counts up to 10**6',
    outside='longer histories, more tokens; exact instead of rounded arithmetic',
    assumptions=[],
)


def fresh(c):
    n = Classifier()
    n.nspam, n.nham = c.nspam, c.nham
    for w in c.wordinfo:
        r = c.wordinfo[w]
        n.wordinfo[w] = WordInfo(r.spamcount, r.hamcount)
    return n


def counts(c):
    return c.nspam, c.nham, {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}


TOKENS = [b'a', b'b']


def step(ctx, c, i, learned):
    ops = ['score', 'learn', 'restore'] + (['unlearn'] if learned else [])
    op = ctx.choice('op%d' % i, ops)
    if op == 'score':
        before = counts(c)
        for t in TOKENS:
            if t in c.wordinfo:
                c.probability(c.wordinfo[t])
        c.spamprob(TOKENS)
        ctx.check(counts(c) == before, 'counts unchanged')
    elif op == 'learn':
        spam = ctx.boolean('spam%d' % i)
        msg = [TOKENS[0]] if ctx.boolean('one%d' % i) else list(TOKENS)
        c.learn(msg, spam)
        learned.append((msg, spam))
    elif op == 'unlearn':
        msg, spam = learned.pop()
        c.unlearn(msg, spam)
    else:
        st = c.__getstate__()
        if ctx.boolean('same%d' % i):
            c.__setstate__(st)
        else:
            n = Classifier()
            n.__setstate__(st)
            c = n
    return c


@scenario(quick=[dict(ops=3)], thorough=[dict(ops=4)], weight=2)
def symbolic_counts(ctx, ops):
    c = Classifier()
    c.nham = ctx.int('nham', 2, 1000)
    c.nspam = ctx.int('nspam', 2, 1000)
    h = ctx.int('h', 1, 1000)
    s = ctx.int('s', 1, 1000)
    ctx.assume(ctx.all([h <= c.nham, s <= c.nspam]))
    c.wordinfo[b'a'] = WordInfo(s, h)
    p0 = c.probability(c.wordinfo[b'a'])
    learned = []
    for i in range(ops):
        op = ctx.choice('op%d' % i, ['learn', 'probability', 'restore'] + (['unlearn'] if learned else []))
        if op == 'learn':
            spam = ctx.boolean('spam%d' % i)
            msg = [ctx.bytes('t%d' % i, 1, b'ab')]
            c.learn(msg, spam)
            learned.append((msg, spam))
        elif op == 'probability':
            before = counts(c)
            for t in c.wordinfo:
                c.probability(c.wordinfo[t])
            ctx.check(counts(c) == before, 'counts unchanged')
        elif op == 'unlearn':
            msg, spam = learned.pop()
            c.unlearn(msg, spam)
        else:
            c.__setstate__(c.__getstate__())
        f = fresh(c)
        for t in c.wordinfo:
            ctx.check(ctx.close(c.probability(c.wordinfo[t]), f.probability(f.wordinfo[t]), 1e-12),
                      'same probability')


@scenario(quick=[dict(ops=3), dict(ops=4)], thorough=[dict(ops=5)])
def whole_scores(ctx, ops):
    c = Classifier()
    c.learn([b'a', b'b'], True)
    c.learn([b'b'], False)
    learned = []
    for i in range(ops):
        c = step(ctx, c, i, learned)
        f = fresh(c)
        stream = [b'a', b'b', b'c']
        got = c.spamprob(stream, True)
        want = f.spamprob(stream, True)
        ctx.check(abs(got[0] - want[0]) < 1e-12, 'same score')
        ctx.check(got[1] == want[1], 'same evidence')
        ctx.check(c.spamprob(stream) == got[0], 'same score')


@scenario(quick=[dict(top=4, whole=True), dict(top=10 ** 6, whole=False)], thorough=[dict(top=7, whole=True)])
def several(ctx, top, whole):
    """Two tokens with any counts: what one of them gets has nothing to do
    with what the other one got before."""
    c = Classifier()
    c.nham = c.nspam = top
    if not whole:
        c.nham = ctx.int('nham', 1, top)
        c.nspam = ctx.int('nspam', 1, top)
    for t in TOKENS:
        s = ctx.int('s' + t.decode(), 0, top)
        h = ctx.int('h' + t.decode(), 0, top)
        ctx.assume(ctx.all([s + h >= 1, s <= c.nspam, h <= c.nham]))
        c.wordinfo[t] = WordInfo(s, h)
    for t in TOKENS:
        f = fresh(c)
        ctx.check(ctx.close(c.probability(c.wordinfo[t]), f.probability(f.wordinfo[t]), 1e-12), 'same probability')
    if whole:
        ctx.check(c.spamprob(TOKENS, True) == fresh(c).spamprob(TOKENS, True), 'same evidence')
