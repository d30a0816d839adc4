"""C03: the token probability formula."""
from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier, WordInfo

META = dict(
    labels=['formula', 'in range', 'too much ham', 'too much spam', 'cached formula'],
    bounds='totals and counts 0..10**6 (solver integers), not both counts 0; arithmetic exact',
    outside='counts above 10**6; rounding of floating point (replayed inputs agree to 1e-9)',
    assumptions=['float arithmetic in probability() is treated as exact arithmetic on rationals'],
)
MAXN = 10 ** 6


def formula(h, s, nham, nspam):
    n = h + s
    p = (s / nspam) / (h / nham + s / nspam)
    return (0.45 * 0.5 + n * p) / (0.45 + n)


def counts(ctx):
    nham = ctx.int('nham', 0, MAXN)
    nspam = ctx.int('nspam', 0, MAXN)
    h = ctx.int('h', 0, MAXN)
    s = ctx.int('s', 0, MAXN)
    ctx.assume(h + s > 0)
    return nham, nspam, h, s


def outcome(c, record):
    try:
        return c.probability(record), None
    except ZeroDivisionError:
        raise
    except Exception as e:
        return None, e


@scenario(quick=[{}])
def one(ctx):
    nham, nspam, h, s = counts(ctx)
    c = Classifier()
    c.nham, c.nspam = nham, nspam
    eh = nham if nham > 0 else 1
    es = nspam if nspam > 0 else 1
    got, err = outcome(c, WordInfo(s, h))
    if h > eh:
        ctx.check(err is not None, 'too much ham')
    elif s > es:
        ctx.check(err is not None, 'too much spam')
    else:
        if err is not None:
            raise err
        ctx.observe('p', got)
        ctx.check(ctx.close(got, formula(h, s, eh, es)), 'formula')
        ctx.check(0 < got, 'in range')
        ctx.check(got < 1, 'in range')


@scenario(quick=[{}])
def two(ctx):
    """A second record is not confused with the first one (cache)."""
    nham = ctx.int('nham', 1, MAXN)
    nspam = ctx.int('nspam', 1, MAXN)
    c = Classifier()
    c.nham, c.nspam = nham, nspam
    recs = []
    for i in '12':
        h = ctx.small('h' + i, 0, 3)
        s = ctx.small('s' + i, 0, 3)
        ctx.assume(h + s > 0)
        ctx.assume(ctx.all([h <= nham, s <= nspam]))
        recs.append((h, s))
    for h, s in recs + recs[:1]:
        got = c.probability(WordInfo(s, h))
        ctx.observe('p', got)
        ctx.check(ctx.close(got, formula(h, s, nham, nspam)), 'cached formula')
