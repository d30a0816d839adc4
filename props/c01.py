"""C01: chi-squared combination of the clues."""
import math
from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier, WordInfo

META = dict(
    labels=['score', 'range', 'evidence', 'evidence score', 'no clues', 'many clues', 'from counts'],
    bounds='up to 3 (thorough 4) tokens seen in 1000 messages, s of them spam, s a solver variable in 0..1000, arithmetic exact, log and '
           'exp uninterpreted (inverse of each other, right sign); one clue with symbolic counts 0..1000; 4 clues with probabilities 1e-6 apart; '
           '0, 1, 2, 60, 149, 150, 151 or 400 clues of 8 strengths and products down to 10**-1100 with doubles',
    outside='other mixtures of more than 4 clues; rounding',
    assumptions=['exp(log x) = x, log and exp have the right sign; exp(-m)*sum(m^i/i!) is in [0, 1]'],
)


T = 1000


def survival(logprod, n):
    """chi2 survival function at -2*logprod with 2n degrees of freedom."""
    m = -logprod
    t = 1
    total = 1
    for i in range(1, n):
        t = t * m / i
        total = total + t
    return math.exp(-m) * total


def measures(ctx, probs):
    P = 1
    Q = 1
    for p in probs:
        P = P * p
        Q = Q * (1 - p)
    n = len(probs)
    H = 1 - survival(math.log(P), n)
    S = 1 - survival(math.log(Q), n)
    if ctx.symbolic:
        # exp(-m) times a partial sum of the series of exp(m)
        ctx.assume(ctx.all([H >= 0, H <= 1, S >= 0, S <= 1]))
    return H, S


@scenario(quick=[{}])
def fine(ctx):
    """Clues whose probabilities differ by about 1e-6 only."""
    n = 10 ** 6
    c = Classifier()
    c.nham = c.nspam = n
    toks, want = [], []
    for i, base in enumerate((200000, 200000, 840000, 840000)):
        s = base + ctx.pick('d%d' % i, 4)
        t = b'tok%d' % i
        c.wordinfo[t] = WordInfo(s, n - s)
        toks.append(t)
        want.append((c.probability(c.wordinfo[t]), t))
    score, ev = c.spamprob(toks, True)
    ctx.check(sorted((p, t) for t, p in ev[2:]) == sorted(want), 'evidence')
    ps = [p for t, p in ev[2:]]
    ctx.check(ps == sorted(ps), 'evidence')


def verify(ctx, c, toks, want):
    """want: the clues [(probability, token)]."""
    if want:
        H, S = measures(ctx, [p for p, t in want])
    got = c.spamprob(toks)
    got2, ev = c.spamprob(iter(toks), True)
    ctx.observe('score', got)
    ctx.check(got2 == got, 'evidence score')
    ctx.check(len(ev) == 2 + len(want), 'evidence')
    ctx.check([w for w, p in ev[:2]] == [b'*H*', b'*S*'], 'evidence')
    if not want:
        ctx.check(got == 0.5, 'no clues')
        return
    ctx.check(ctx.close(got, (S - H + 1) / 2), 'score')
    ctx.check(got >= 0, 'range')
    ctx.check(got <= 1, 'range')
    ctx.check(ctx.close(ev[0][1], H), 'evidence')
    ctx.check(ctx.close(ev[1][1], S), 'evidence')
    last = 0
    table = {}
    for p, t in want:
        table[t] = p
    for w, p in ev[2:]:
        ctx.check(ctx.ge(p, last), 'evidence')
        last = p
        ctx.check(w in table, 'evidence')
        ctx.check(p == table.pop(w), 'evidence')


@scenario(quick=[dict(k=1), dict(k=2), dict(k=3)], thorough=[dict(k=4)], weight=3)
def formula(ctx, k):
    c = Classifier()
    c.nham = c.nspam = T
    toks = []
    want = []
    for i in range(k):
        s = ctx.int('s%d' % i, 0, T)
        t = b'tok%d' % i
        toks.append(t)
        c.wordinfo[t] = WordInfo(s, T - s)
        p = c.probability(c.wordinfo[t])
        if p - 0.5 >= 0.1 or 0.5 - p >= 0.1:
            want.append((p, t))
    toks.append(b'unknown')
    verify(ctx, c, toks, want)


@scenario(quick=[{}])
def from_counts(ctx):
    c = Classifier()
    c.nham = ctx.int('nham', 1, 1000)
    c.nspam = ctx.int('nspam', 1, 1000)
    h = ctx.int('h', 0, 1000)
    s = ctx.int('s', 0, 1000)
    ctx.assume(ctx.all([h <= c.nham, s <= c.nspam, h + s >= 1]))
    c.wordinfo[b'x'] = WordInfo(s, h)
    p = c.probability(c.wordinfo[b'x'])
    if p - 0.5 >= 0.1 or 0.5 - p >= 0.1:
        verify(ctx, c, [b'x', b'y'], [(p, b'x')])
        ctx.reach('from counts')
    else:
        verify(ctx, c, [b'x', b'y'], [])


@scenario(quick=[dict(kind='bytes'), dict(kind='str')])
def names(ctx, kind):
    """Whatever the tokens are called."""
    c = Classifier()
    c.nham = c.nspam = T
    toks = [b'*H*', b'*S*', b'', b'bi:a b', b'\x00\xff', b'prob'] if kind == 'bytes' else ['*H*', '*S*', '', 'bi:a b', '\u20ac', 'prob']
    i = ctx.pick('i', len(toks))
    toks = [toks[i], toks[i - 1]]
    plain = [b'tok0', b'tok1']
    d = Classifier()
    d.nham = d.nspam = T
    for t, u in zip(toks, plain):
        n = ctx.choice('s' + u.decode(), [0, 30, 500, 930, T])
        c.wordinfo[t] = WordInfo(n, T - n)
        d.wordinfo[u] = WordInfo(n, T - n)
    score, ev = c.spamprob(toks, True)
    score2, ev2 = d.spamprob(plain, True)
    ctx.check(ctx.close(score, score2), 'score')
    ctx.check(ctx.close(c.spamprob(toks), score2), 'score')
    ctx.check(len(ev) == len(ev2), 'evidence')
    ctx.check([w for w, p in ev[:2]] == [b'*H*', b'*S*'], 'evidence')
    for (w, p), (w2, p2) in zip(ev, ev2):
        ctx.check(ctx.close(p, p2), 'evidence')
    ctx.check(sorted(w for w, p in ev[2:]) == sorted(toks[plain.index(w)] for w, p in ev2[2:]), 'evidence')


KINDS = [(1, 0), (0, 1), (1000, 0), (0, 1000), (100000000, 0), (0, 100000000), (5, 1), (1, 7)]


@scenario(quick=[{}])
def many(ctx):
    """Many clues of few strengths (underflow of the products), in doubles."""
    n = ctx.choice('n', [0, 1, 2, 60, 149, 150, 151, 400])
    a = ctx.choice('a', KINDS)
    b = ctx.choice('b', KINDS)
    half = ctx.choice('share', [0, 1, 7, 75])
    c = Classifier()
    c.nham = c.nspam = 100000000
    toks = []
    for i in range(n):
        t = b'%d' % i
        h, s = b if i < half else a
        toks.append(t)
        c.wordinfo[t] = WordInfo(s, h)
    score, ev = c.spamprob(toks, True)
    ctx.check(c.spamprob(toks) == score, 'many clues')
    ctx.check(0 <= score <= 1, 'many clues')
    ctx.check(len(ev) == min(n, 150) + 2, 'many clues')
    if n == 0:
        ctx.check(score == 0.5, 'many clues')
        return
    probs = [p for w, p in ev[2:]]
    ctx.check(all(p == c.probability(c.wordinfo[w]) for w, p in ev[2:]), 'many clues')
    ctx.check(len(set(w for w, p in ev[2:])) == len(probs), 'many clues')
    m = len(probs)
    H = 1 - tail(-sum(math.log(p) for p in probs), m)
    S = 1 - tail(-sum(math.log(1 - p) for p in probs), m)
    ctx.check(abs(ev[0][1] - H) < 1e-6 and abs(ev[1][1] - S) < 1e-6, 'many clues')
    ctx.check(abs(score - (S - H + 1) / 2) < 1e-6, 'many clues')
    ctx.check(ev[0][0] == b'*H*' and ev[1][0] == b'*S*', 'many clues')
    ctx.check(all(x[1] <= y[1] for x, y in zip(ev[2:], ev[3:])), 'many clues')


def tail(m, n):
    if m > 700:
        # in the logarithm domain
        logs = [i * math.log(m) - math.lgamma(i + 1) - m for i in range(n)]
        return sum(math.exp(x) for x in logs if x > -700)
    t = math.exp(-m)
    r = t
    for i in range(1, n):
        t = t * m / i
        r = r + t
    return min(r, 1.0)
