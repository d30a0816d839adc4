"""C32: the URL-following classifier."""
from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.constants import HAM_CUTOFF, SPAM_CUTOFF
import sbclassifier.classifiers.slurping as slurping

META = dict(
    labels=['counts', 'records', 'score', 'evidence', 'plain score', 'replaced', 'kept', 'page learned', 'totals'],
    bounds='every plain and every enlarged score from 0 to 1, 0 to 152 clues, with or without a pending URL; histories of 3 (thorough: 4) operations on up to 2 '
           'symbolic tokens each, with and without bigrams; scoring by classifiers trained with 6 messages and pages of up to 2 tokens, or with 20 messages, words of 7 strengths and pages of up to 2,502 tokens',
    outside='fetching and caching pages: slurp() is a stand-in that returns the tokens of the page; 148 or 149 clues, which may count as 150 with the two '
            'totals in the evidence',
    assumptions=['for the symbolic scores, Classifier.spamprob is a stand-in'],
)


class Slurper(slurping.SlurpingClassifier):

    page = ()
    fetched = 0

    def setup(self):
        pass

    def _save_caches(self):
        pass

    def slurp(self, proto, url):
        self.fetched += 1
        return list(self.page)


def pending(value):
    slurping.slurp_wordstream = value


def stream(ctx, i, n):
    return [ctx.bytes('w%d%d' % (i, j), 1, b'ab') for j in range(ctx.pick('n%d' % i, n + 1))]


def records(c, words):
    out = []
    for w in words:
        r = c.wordinfo.get(w)
        out.append((r.spamcount, r.hamcount) if r is not None else (0, 0))
    return out


@scenario(quick=[dict(n=3, bigrams=False), dict(n=2, bigrams=True)], thorough=[dict(n=4, bigrams=False), dict(n=3, bigrams=True)])
def no_url(ctx, n, bigrams):
    a = Classifier(bigrams)
    b = slurping.SlurpingClassifier(bigrams)
    was = slurping.X_CACHE_DIRECTORY
    slurping.X_CACHE_DIRECTORY = ctx.scratch() + '/cache'
    pending(ctx.choice('none', [None, ()]))
    try:
        for i in range(n):
            ws = stream(ctx, i, 2)
            spam = ctx.boolean('spam%d' % i)
            if i and ctx.boolean('unlearn%d' % i):
                ra = rb = None
                try:
                    a.unlearn(list(ws), spam)
                except ValueError as e:
                    ra = str(e)
                try:
                    b.unlearn(iter(ws), spam)
                except ValueError as e:
                    rb = str(e)
                ctx.check(ra == rb, 'counts')
                if ra is not None:
                    # (a mistake of the caller)
                    return
            else:
                a.learn(list(ws), spam)
                b.learn(iter(ws), spam)
        ctx.check(ctx.all([a.nham == b.nham, a.nspam == b.nspam]), 'counts')
        words = [b'a', b'b', 'bi:a b', 'bi:b a', 'bi:a a', 'bi:b b', b'bi:a b', b'bi:b a', b'bi:a a', b'bi:b b']
        ctx.check(records(a, words) == records(b, words), 'records')
        ctx.check(len(a.wordinfo) == len(b.wordinfo), 'records')
        for ws in ([b'a', b'b'], [b'b'], []) + (([b'a', b'a'], [b'b', b'a', b'b', b'a']) if bigrams else ()):
            bad, ra = ctx.raises(lambda: a.spamprob(ws, True), Exception)
            bad2, rb = ctx.raises(lambda: b.spamprob(iter(ws), True), Exception)
            ctx.check(bad == bad2, 'score')
            if bad:
                # (inconsistent counts)
                continue
            ctx.check(ra[0] == rb[0], 'score')
            ctx.check(ra[1] == rb[1], 'evidence')
            ctx.check(b.spamprob(ws) == ra[0], 'score')
    finally:
        slurping.X_CACHE_DIRECTORY = was
        pending(None)


def unsure(p):
    return (HAM_CUTOFF < p) & (p < SPAM_CUTOFF)


@scenario()
def any_score(ctx):
    p1 = ctx.real('plain', 0, 1)
    p2 = ctx.real('enlarged', 0, 1)
    n = ctx.choice('clues', [2, 3, 5, 100, 149, 152, 153, 154])
    clues1 = [(b'c%d' % i, 0.1) for i in range(n)]
    clues2 = [(b'd', 0.2)]
    calls = []

    def spamprob(self, wordstream, evidence=False):
        calls.append(list(wordstream))
        p, c = (p1, clues1) if len(calls) == 1 else (p2, clues2)
        return (p, list(c)) if evidence else p
    url = ctx.choice('url', [None, (), ('http', 'a.b/c')])
    c = Slurper()
    c.page = [b'x', b'y'][:ctx.pick('page', 3)]
    real = Classifier.spamprob
    Classifier.spamprob = spamprob
    pending(url)
    try:
        with_evidence = ctx.boolean('evidence')
        r = c.spamprob([b'w'], with_evidence)
    finally:
        Classifier.spamprob = real
        pending(None)
    if with_evidence:
        p, ev = r
    else:
        p, ev = r, None
    cond = bool(unsure(p1)) and not bool(unsure(p2)) and bool(url)
    if cond and n < 150:
        ctx.check(p == p2, 'replaced')
        ctx.check(ev is None or ev == clues2, 'replaced')
        # the words of the page and those that the message alone has
        ctx.check(all(w in calls[-1] for w in c.page), 'replaced')
        ctx.check(all(w in calls[-1] for w, x in clues1 if w not in (b'*H*', b'*S*')), 'replaced')
    else:
        ctx.check(p == p1, 'kept')
        ctx.check(ev is None or ev == clues1, 'kept')


# (trained with 3 ham and 3 spam messages)
HAM = [[b'h', b'h', b'e'], [b'h', b'k'], [b'h', b'm', b'e']]
SPAM = [[b's', b'e'], [b's', b't'], [b's', b'm', b'u']]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def trained(ctx, n):
    bigrams = ctx.boolean('bigrams')
    plain = Classifier(bigrams)
    c = Slurper(bigrams)
    for ws in HAM:
        plain.learn(ws, False)
        c.learn(ws, False)
    for ws in SPAM:
        plain.learn(ws, True)
        c.learn(ws, True)
    words = [ctx.bytes('w%d' % i, 1, b'hsmt') for i in range(ctx.pick('n', n + 1))]
    c.page = [ctx.bytes('p%d' % i, 1, b'hskm') for i in range(ctx.pick('m', 3))]
    pending(('http', 'a.b'))
    try:
        got = c.spamprob(iter(words), True)
        url = ctx.boolean('again')
        pending(('http', 'a.b') if url else None)
        p2 = c.spamprob(words)
    finally:
        pending(None)
    p, ev = plain.spamprob(words, True)
    alone = p
    if unsure(p):
        q, qe = plain.spamprob(list(c.page) + [w for w, x in ev], True)
        if not unsure(q):
            p, ev = q, qe
    ctx.check(got[0] == p, 'plain score')
    ctx.check(got[1] == ev, 'evidence')
    ctx.check(p2 == (p if url else alone), 'plain score')


@scenario()
def weak(ctx):
    """Clues of every strength, and long pages, take part in the enlarged
    score."""
    plain = Classifier(False)
    c = Slurper(False)
    for i in range(10):
        # (wN is in N spam messages and 10 - N ham messages)
        for spam in (False, True):
            ws = [b'w%d' % j for j in range(11) if (i < j if spam else i < 10 - j)]
            plain.learn(ws, spam)
            c.learn(ws, spam)
    words = [b'w%d' % ctx.choice('w%d' % i, [0, 3, 4, 5, 6, 7, 10]) for i in range(3)]
    page = [b'w' + ctx.bytes('p', 1, b'02378')] + [b'w8'] * ctx.pick('more', 2)
    if ctx.boolean('long'):
        page = [b'f%d' % i for i in range(2500)] + page
    c.page = page
    pending(('http', 'a.b'))
    try:
        got = c.spamprob(iter(words), True)
    finally:
        pending(None)
    p, ev = plain.spamprob(words, True)
    if unsure(p):
        q, qe = plain.spamprob(page + [w for w, x in ev], True)
        if not unsure(q):
            p, ev = q, qe
    ctx.check(got[0] == p, 'plain score')
    ctx.check(got[1] == ev, 'evidence')


@scenario(quick=[dict(n=2, bigrams=False), dict(n=2, bigrams=True)], thorough=[dict(n=3, bigrams=False), dict(n=2, bigrams=True)])
def learned(ctx, n, bigrams):
    """The tokens of the pages are trained with those of the message, and
    forgotten with them."""
    c = Slurper(bigrams)
    done = []
    for i in range(n):
        ws = stream(ctx, i, 2 if bigrams else 1)
        page = [ctx.bytes('p%d' % i, 1, b'ax')] + ([b'y'] if bigrams else [])
        url = ctx.boolean('url%d' % i)
        c.page = page
        pending(('http', 'a.b') if url else None)
        try:
            if done and ctx.boolean('unlearn%d' % i):
                ws, page, url, spam = done.pop()
                c.page = page
                pending(('http', 'a.b') if url else None)
                c.unlearn(iter(ws), spam)
            else:
                spam = ctx.boolean('spam%d' % i)
                c.learn(iter(ws), spam)
                done.append((ws, page, url, spam))
        finally:
            pending(None)
    ctx.check(c.nspam == len([d for d in done if d[3]]) and c.nham == len([d for d in done if not d[3]]), 'totals')
    words = [b'a', b'b', b'x', b'y']
    for w in words:
        want = [0, 0]
        for ws, page, url, spam in done:
            if any([bool(x == w) for x in ws + (page if url else [])]):
                want[0 if spam else 1] += 1
        ctx.check(records(c, [w]) == [tuple(want)], 'page learned')
    if bigrams:
        for w in words[:2]:
            for v in words[:2]:
                want = [0, 0]
                for ws, page, url, spam in done:
                    if len(ws) == 2 and bool(ws[0] == w) and bool(ws[1] == v):
                        want[0 if spam else 1] += 1
                got = records(c, [b'bi:' + w + b' ' + v, 'bi:%s %s' % (w.decode(), v.decode()), 'bi:%s %s' % (w, v)])
                ctx.check((sum([g[0] for g in got]), sum([g[1] for g in got])) == tuple(want), 'page learned')
    if not done:
        ctx.check(len(c.wordinfo) == 0, 'page learned')


@scenario()
def forget_one(ctx):
    """Forgetting one message leaves what the other taught."""
    c = Slurper(True)
    other = Slurper(True)
    kept = [ctx.bytes('k%d' % i, 1, b'ab') for i in range(2)]
    gone = [ctx.bytes('g%d' % i, 1, b'ab') for i in range(ctx.pick('n', 3))]
    c.page = [ctx.bytes('p%d' % i, 1, b'ab') for i in range(2)]
    spam = ctx.boolean('spam')
    same = ctx.boolean('same')
    try:
        pending(None)
        c.learn(kept, spam if same else not spam)
        other.learn(kept, spam if same else not spam)
        pending(('http', 'a.b'))
        c.learn(gone, spam)
        c.unlearn(gone, spam)
    finally:
        pending(None)
    ctx.check(c.nspam == other.nspam and c.nham == other.nham, 'totals')
    ctx.check(len(c.wordinfo) == len(other.wordinfo), 'page learned')
    words = [b'a', b'b'] + [f % (x, y) for f in ('bi:%s %s',) for x in 'ab' for y in 'ab'] + ["bi:%s %s" % (x, y) for x in (b'a', b'b') for y in (b'a', b'b')]
    words += [x.encode() for x in words[2:6]]
    ctx.check(records(c, words) == records(other, words), 'page learned')
