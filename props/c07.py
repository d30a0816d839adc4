"""C07: chi2Q."""
import math
from sx.harness import scenario
from sbclassifier.classifiers import basic
from sbclassifier.classifiers.basic import chi2Q

META = dict(
    labels=['formula', 'in range', 'odd', 'clamped', 'rounding'],
    bounds='x2 = n/1000 for every integer n in 0..2*10**6 and every even v from 2 to 40, 100 and 300 (thorough: also 50, 60, 80, 150, 200, 250, 400), with '
           'exact arithmetic; an exp() that errs by any relative error up to 1e-9 for the clamp; '
           'odd v from -99 to 99; plain doubles for listed (x2, v) with rounding above 1',
    outside='other values of v; rounding other than that of exp()',
    assumptions=['exp is a positive function with exp(-m) * (partial exponential sum of m) <= 1 '
                 '(true for the real exponential); float arithmetic is exact'],
)


def partial(x2, v):
    m = x2 / 2
    t = 1
    total = 1
    for i in range(1, v // 2):
        t = t * m / i
        total = total + t
    return total


@scenario(quick=[dict(v=v) for v in [*range(2, 42, 2), 100, 300]], thorough=[dict(v=v) for v in (50, 60, 80, 150, 200, 250, 400)])
def even(ctx, v):
    n = ctx.int('n', 0, 2000000)
    x2 = n / 1000
    want = math.exp(-(x2 / 2)) * partial(x2, v)
    if ctx.symbolic:
        ctx.assume(want <= 1)
    got = chi2Q(x2, v)
    ctx.observe('q', got)
    ctx.check(ctx.ge(got, 0), 'in range')
    ctx.check(got <= 1, 'in range')
    ctx.check(ctx.close(got, want), 'formula')


@scenario(quick=[dict(v=v) for v in (2, 4, 8)], thorough=[dict(v=v) for v in (12, 20)])
def clamp(ctx, v):
    """exp() errs: the result must still be a probability."""
    n = ctx.int('n', 0, 20000) if ctx.boolean('positive') else 0
    eps = ctx.int('eps', -1000, 1000) / 10 ** 12
    real = math.exp

    def rough(x):
        return real(x) * (1 + eps)
    math.exp = rough
    own = getattr(basic, 'exp', None)
    if own is not None:
        basic.exp = rough
    try:
        got = chi2Q(n / 1000, v)
    finally:
        math.exp = real
        if own is not None:
            basic.exp = own
    ctx.check(got >= 0, 'clamped')
    ctx.check(got <= 1, 'clamped')


@scenario(quick=[{}])
def rounding(ctx):
    x2, v = ctx.choice('case', [(100, 300), (10, 100), (50, 200), (1, 60), (0, 2), (0, 300), (5000, 300)])
    got = chi2Q(x2, v)
    ctx.check(0 <= got <= 1, 'rounding')
    got = chi2Q(float(x2), v)
    ctx.check(0 <= got <= 1, 'rounding')


@scenario(quick=[{}])
def odd(ctx):
    k = ctx.int('k', -50, 49)
    n = ctx.int('n', 0, 10000)
    err, r = ctx.raises(lambda: chi2Q(n / 10, 2 * k + 1), ValueError)
    ctx.check(err, 'odd')
