"""C04: training counts."""
from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier, WordInfo

META = dict(
    labels=['totals', 'records', 'no empty records', 'refused unchanged'],
    bounds='up to 4 (thorough 6) operations, learn or unlearn, spam or ham, of messages of up to 3 tokens, '
           'each token one symbolic byte of three; one more and one less of any counts up to 10**12, also with bigrams, through each of the six methods; '
           'a message of 3000 tokens',
    outside='longer histories',
)


def state(c):
    return c.nspam, c.nham, {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}


@scenario(quick=[dict(ops=3, width=2)], thorough=[dict(ops=4, width=2), dict(ops=3, width=3)])
def history(ctx, ops, width):
    c = Classifier()
    trained = []
    for i in range(ops):
        unlearn = ctx.boolean('op%d' % i) if trained else False
        if unlearn:
            j = ctx.pick('which%d' % i, len(trained))
            msg, spam = trained.pop(j)
            c.unlearn(iter(msg) if ctx.boolean('it%d' % i) else list(msg), spam)
        else:
            spam = ctx.boolean('spam%d' % i)
            n = ctx.pick('n%d' % i, width + 1)
            msg = [ctx.bytes('m%d_%d' % (i, k), 1, b'abc') for k in range(n)]
            c.learn(list(msg), spam)
            trained.append((msg, spam))
        check(ctx, c, trained)
    ctx.observe('state', state(c))


def check(ctx, c, trained):
    ctx.check(c.nspam == sum(1 for m, s in trained if s), 'totals')
    ctx.check(c.nham == sum(1 for m, s in trained if not s), 'totals')
    for t in (b'a', b'b', b'c'):
        ws = sum(1 for m, s in trained if s and any(w == t for w in m))
        wh = sum(1 for m, s in trained if not s and any(w == t for w in m))
        r = c.wordinfo.get(t)
        if ws + wh == 0:
            ctx.check(r is None, 'no empty records')
        else:
            ctx.check(r is not None, 'records')
            ctx.check(ctx.all([r.spamcount == ws, r.hamcount == wh]), 'records')
    ctx.check(len(c.wordinfo) <= 3, 'records')


@scenario(quick=[{}])
def refused(ctx):
    c = Classifier()
    nspam = ctx.int('nspam', 0, 5)
    nham = ctx.int('nham', 0, 5)
    spam = ctx.boolean('spam')
    other = ctx.int('other', 0, 5)
    c.nspam, c.nham = nspam, nham
    c.learn([b'a', b'b'], not spam)
    for k in range(2):
        c.learn([b'a'], not spam)
    before = state(c)
    msg = [ctx.bytes('t%d' % k, 1, b'abc') for k in range(2)]
    n = c.nspam if spam else c.nham
    err, r = ctx.raises(lambda: c.unlearn(msg, spam), ValueError)
    if n == 0:
        ctx.check(err, 'refused unchanged')
        ctx.check(state(c) == before, 'refused unchanged')
    else:
        ctx.check(not err, 'refused unchanged')


@scenario(quick=[dict(bigrams=False), dict(bigrams=True)])
def any_counts(ctx, bigrams):
    """One more and one less, whatever the counts are; through any of the
    names of the operation."""
    c = Classifier(bigrams)
    a = [ctx.int('a%d' % i, 0, 10 ** 12) for i in range(2)]
    b = [ctx.int('b%d' % i, 0, 10 ** 12) for i in range(2)]
    total = [ctx.int('total%d' % i, 0, 10 ** 12) for i in range(2)]
    ctx.assume(ctx.all([x <= t for x, t in zip(a, total)] + [x <= t for x, t in zip(b, total)] + [a[0] + a[1] > 0, b[0] + b[1] > 0]))
    c.nspam, c.nham = total
    c.wordinfo[b'a'] = WordInfo(a[0], a[1])
    c.wordinfo[b'b'] = WordInfo(b[0], b[1])
    spam = ctx.boolean('spam')
    k = 0 if spam else 1
    one = [0, 0]
    one[k] = 1
    name = ctx.choice('name', ['learn_spam', 'learn'] if spam else ['learn_ham', 'learn'])
    msg = [b'a', b'b', b'new', b'a']
    shape = ctx.choice('shape', [iter, list, tuple])
    if len(name) > 5:
        getattr(c, name)(shape(msg))
    else:
        c.learn(shape(msg), spam)

    def counts(w):
        r = c.wordinfo.get(w)
        return None if r is None else [r.spamcount, r.hamcount]
    ctx.check([c.nspam, c.nham] == [total[0] + one[0], total[1] + one[1]], 'totals')
    ctx.check(counts(b'a') == [a[0] + one[0], a[1] + one[1]], 'records')
    ctx.check(counts(b'b') == [b[0] + one[0], b[1] + one[1]], 'records')
    ctx.check(counts(b'new') == one, 'records')
    if bigrams:
        # each pair of neighbours once, under some name
        ctx.check(len(c.wordinfo) == 6, 'records')
        ctx.check(ctx.all([r.spamcount == one[0] and r.hamcount == one[1] for w, r in c.wordinfo.items() if w not in (b'a', b'b')]), 'records')
    else:
        ctx.check(len(c.wordinfo) == 3, 'records')
    if len(name) > 5:
        getattr(c, 'un' + name)(shape(msg))
    else:
        c.unlearn(shape(msg), spam)
    ctx.check([c.nspam, c.nham] == total, 'totals')
    ctx.check(counts(b'a') == a, 'records')
    ctx.check(counts(b'b') == b, 'records')
    ctx.check(len(c.wordinfo) == 2, 'no empty records')


@scenario()
def many_tokens(ctx):
    """Every token counts, also in a message of thousands."""
    n = ctx.choice('n', [200, 3000])
    odd = ctx.bytes('odd', 1, b'ab')
    msg = [b't%d' % i for i in range(n)] + [odd]
    c = Classifier()
    spam = ctx.boolean('spam')
    c.learn(iter(msg), spam)
    ctx.check(len(c.wordinfo) == n + 1, 'records')
    ctx.check(all([(r.spamcount, r.hamcount) == ((1, 0) if spam else (0, 1)) for r in c.wordinfo.values()]), 'records')
    c.unlearn(msg, spam)
    ctx.check(len(c.wordinfo) == 0, 'no empty records')
