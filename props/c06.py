"""C06: bigrams."""
from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier, WordInfo

META = dict(
    labels=['learned', 'unlearned', 'no overlap', 'greedy', 'score runs'],
    bounds='streams of up to 4 (thorough 5) symbolic tokens (bytes or str, alphabet of 2-3); scoring 9 streams of up to 5 tokens with bigram '
           'and token strengths from solver variables',
    outside='longer streams',
    assumptions=[],
)


def bi(a, b):
    return 'bi:{} {}'.format(a, b)


def stream(ctx, n, kind, alphabet):
    if kind == 'bytes':
        return [ctx.bytes('t%d' % i, 1, alphabet.encode()) for i in range(n)]
    return [ctx.str('t%d' % i, 1, alphabet) for i in range(n)]


def elements(ts):
    out = []
    for i, t in enumerate(ts):
        out.append(t)
        if i:
            out.append(bi(ts[i - 1], t))
    return out


@scenario(quick=[dict(n=n, kind=k, alphabet='ab') for n in (0, 1, 2, 3, 4) for k in ('bytes', 'str')],
          thorough=[dict(n=4, kind='str', alphabet='abc'), dict(n=5, kind='str', alphabet='abc')])
def learning(ctx, n, kind, alphabet):
    ts = stream(ctx, n, kind, alphabet)
    c = Classifier(use_bigrams=True)
    # something else is known already
    pre = [b'a', b'z'] if kind == 'bytes' else ['a', 'z']
    c.learn(pre, True)
    before = {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}
    ctx.check(len(before) == 3, 'learned')
    spam = ctx.boolean('spam')
    c.learn(iter(ts) if ctx.boolean('iter') else list(ts), spam)
    want = dict(before)
    new = set(elements(ts))
    for w in new:
        s, h = want.get(w, (0, 0))
        want[w] = (s + 1, h) if spam else (s, h + 1)
    got = {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}
    ctx.check(got == want, 'learned')
    ctx.check((c.nspam, c.nham) == ((2, 0) if spam else (1, 1)), 'learned')
    c.unlearn(iter(ts) if ctx.boolean('iter2') else list(ts), spam)
    got = {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}
    ctx.check(got == before, 'unlearned')
    ctx.check((c.nspam, c.nham) == (1, 0), 'unlearned')


T = 100


def dist(p):
    return p - 0.5 if p >= 0.5 else 0.5 - p


@scenario(quick=[dict(words='abc', k=2), dict(words='aba', k=2), dict(words='aab', k=2), dict(words='abcd', k=1), dict(words='a', k=1),
                 dict(words='ab', k=3), dict(words='abab', k=2), dict(words='abcab', k=1), dict(words='aaa', k=2)],
          thorough=[dict(words='abc', k=3), dict(words='abcd', k=2)], weight=2)
def scoring(ctx, words, k):
    """words: the stream; k of the elements have symbolic strengths."""
    as_str = ctx.boolean('str')
    ts = list(words) if as_str else [w.encode() for w in words]
    c = Classifier(use_bigrams=True)
    c.nham = c.nspam = T
    els = []
    for e in elements(ts):
        if e not in els:
            els.append(e)
    first = ctx.pick('first', len(els))
    conc = [90, 20, 75, 50, 5, 88, 10]
    for i, e in enumerate(els):
        j = (i - first) % len(els)
        s = ctx.int('s%d' % j, 0, T) if j < k else conc[j % len(conc)]
        c.wordinfo[e] = WordInfo(s, T - s)
    score, ev = c.spamprob(iter(ts), True)
    ctx.check(c.spamprob(list(ts)) == score, 'score runs')
    probs = {e: c.probability(c.wordinfo[e]) for e in els}
    used = []
    for w, p in ev[2:]:
        ctx.check(w in probs, 'no overlap')
        ctx.check(p == probs[w], 'no overlap')
        ctx.check(dist(p) >= 0.1, 'no overlap')
        ctx.check(w not in used, 'no overlap')
        used.append(w)
    # where the elements first occur
    pos = {}
    for i, t in enumerate(ts):
        for e, ix in ((t, (i,)),) + (((bi(ts[i - 1], t), (i - 1, i)),) if i else ()):
            pos.setdefault(e, []).append(ix)
    # every position contributes to at most one clue: some choice of
    # occurrences of the used clues is disjoint
    first_pos = {e: pos[e][0] for e in pos}
    taken = [i for e in used for i in first_pos[e]]
    ctx.check(len(taken) == len(set(taken)), 'no overlap')
    # greedy: what is left out is too weak or overlaps with a clue that is at least as strong
    for e in els:
        if e in used or dist(probs[e]) < 0.1:
            continue
        ctx.check(ctx.any([set(first_pos[e]) & set(first_pos[u]) and ctx.ge(dist(probs[u]), dist(probs[e]))
                           for u in used]), 'greedy')
