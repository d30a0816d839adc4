"""C41: objects share nothing."""
import os

from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.slurping import SlurpingClassifier
from sbclassifier.classifiers.storage import CDBClassifier, PickleClassifier, ShelveClassifier
from sbclassifier.corpora import Corpus, FileCorpus
from sbclassifier.corpora.caches import NaiveCache
from sbclassifier.message import Classification, from_bytes
from sbclassifier.trainers import HamTrainer, SpamTrainer

META = dict(
    labels=['classifiers', 'scores', 'arguments', 'results', 'caches', 'corpora', 'trained', 'messages'],
    bounds='every interleaving of 3 (thorough: 4) operations (learn, unlearn, score, store) on two classifiers of any two of 6 kinds, with the same or other '
           'tokens, of 3 (thorough: 4) on two caches, of 4 (thorough: 5) on two in-memory or file corpora with the same keys, of 3 (thorough: 4) on watched corpora '
           'with their own classifiers and on two messages; arguments given as list, tuple, set and dict; evidence of 0 to 4 tokens changed in 4 ways',
    outside='more than two objects; two objects on the same file or directory; threads',
    assumptions=['files, dbm and pickle as modelled in sx (replayed with the real ones)'],
)

KINDS = ['plain', 'bigrams', 'slurping', 'pickle', 'shelve', 'cdb']


def make(ctx, kind):
    if kind == 'plain':
        return Classifier()
    if kind == 'bigrams':
        return Classifier(use_bigrams=True)
    if kind == 'slurping':
        return SlurpingClassifier()
    return dict(pickle=PickleClassifier, shelve=ShelveClassifier, cdb=CDBClassifier)[kind](os.path.join(ctx.scratch(), 'db'))


def state(c, toks):
    out = [c.nspam, c.nham]
    for t in toks:
        r = c._wordinfoget(t)
        out.append(None if r is None else (r.spamcount, r.hamcount))
    return out


def pairs(ctx):
    """Two kinds: the same, or different ones."""
    k = ctx.pick('kind', len(KINDS))
    return KINDS[k], KINDS[(k + ctx.choice('other', [0, 2])) % len(KINDS)]


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], weight=3)
def classifiers(ctx, n):
    kinds = pairs(ctx)
    x = ctx.bytes('x', 1, b'ab')
    streams = [[b'a', b'b'], [b'a', x]]
    toks = [b'a', b'b', b'bi:a b', b'bi:a a']
    ops = []
    for i in range(n):
        what = ctx.choice('what%d' % i, ['spam', 'ham', 'undo', 'score', 'store'])
        ops.append((who(ctx, i), what, ctx.pick('k%d' % i, 2) if what in ('spam', 'ham') else 0))
    both = [make(ctx, k) for k in kinds]
    done = [[], []]
    results = [[], []]
    for w, what, k in ops:
        do(both[w], what, k, streams, done[w], results[w])
    states = [state(c, toks) for c in both]
    scores = [c.spamprob(list(streams[0]), True) for c in both]
    for one in range(2):
        ctx.restart()
        c = make(ctx, kinds[one])
        done, alone = [], []
        for w, what, k in ops:
            if w == one:
                do(c, what, k, streams, done, alone)
        ctx.check(state(c, toks) == states[one], 'classifiers')
        ctx.check(c.spamprob(list(streams[0]), True) == scores[one], 'scores')
        ctx.check(alone == results[one], 'scores')


def do(c, what, k, streams, done, results):
    if what in ('spam', 'ham'):
        c.learn(list(streams[k]), what == 'spam')
        done.append((k, what == 'spam'))
    elif what == 'undo':
        if done:
            k, spam = done.pop()
            c.unlearn(list(streams[k]), spam)
    elif what == 'score':
        results.append(c.spamprob(list(streams[0]), True))
    elif hasattr(c, 'store'):
        c.store()


@scenario(quick=[{}])
def arguments(ctx):
    """What is given is not changed, what is returned can be."""
    kind = ctx.choice('kind', KINDS)
    c = make(ctx, kind)
    x = ctx.bytes('x', 1, b'ab')
    words = [b'a', x, b'c', x]
    form = ctx.choice('form', [list, tuple, set, dict.fromkeys])
    given = form(words)
    before = list(given)
    for i in range(3):
        c.learn(given, i > 0)
        ctx.check(list(given) == before, 'arguments')
    clues = c.spamprob(given, True)
    ctx.check(list(given) == before, 'arguments')
    again = c.spamprob(given, True)
    ctx.check(again == clues, 'results')
    for t in again[1:]:
        if isinstance(t, list):
            del t[:]
    ctx.check(c.spamprob(given, True) == clues, 'results')
    if form is list:
        # the classifier keeps nothing of the list
        st = state(c, [b'a', b'b', b'c'])
        given[:] = [b'zz']
        ctx.check(state(c, [b'a', b'b', b'c']) == st, 'arguments')
        ctx.check(c.spamprob(list(before), True) == clues, 'results')
    c.unlearn(before, True)
    c.unlearn(before, False)
    ctx.check((c.nspam, c.nham) == (1, 0), 'arguments')


@scenario(quick=[{}])
def returned(ctx):
    """Evidence of any length is the caller's own."""
    kinds = pairs(ctx)
    both = [make(ctx, k) for k in kinds]
    for c in both:
        for i in range(3):
            c.learn([b'a', b'b', b'c'], False)
            c.learn([b'a', b'd', b'e'], True)
        c.learn([b'f'], True)
    words = ctx.choice('words', [[], [b'new'], [b'a'], [b'f'], [b'b', b'a', b'c'], [b'd', b'b', b'new', b'e']])
    first = ctx.pick('first', 2)
    before = [c.spamprob(list(words), True) for c in both]
    before = [(p, list(clues)) for p, clues in before]
    for c in (both[first], both[1 - first]):
        clues = c.spamprob(list(words), True)[1]
        how = ctx.pick('how', 4)
        if how == 0:
            clues.clear()
        elif how == 1:
            clues.append((b'mine', 0.5))
        elif how == 2:
            clues.reverse()
        else:
            clues[0] = clues[1] = None
        for one in range(2):
            ctx.check(both[one].spamprob(list(words), True) == before[one], 'results')
            ctx.check(both[one].spamprob(list(words)) == before[one][0], 'results')


def contents(c):
    return sorted((k, v.as_bytes() if hasattr(v, 'as_bytes') else v) for k, v in c.items())


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def caches(ctx, n):
    """In-memory caches of values."""
    size = ctx.choice('size', [2, None])
    both = [NaiveCache() if size is None else NaiveCache(max_size=size) for _ in range(2)]
    ops = []
    keys = ['k', ctx.str('k', 1, 'kl'), 'm']
    for i in range(n):
        what = ctx.pick('what%d' % i, 2)
        ops.append((who(ctx, i), what, ctx.pick('k%d' % i, 3)))
    for i, (w, what, k) in enumerate(ops):
        if what == 0:
            both[w].put(keys[k], i)
        else:
            both[w].pop(keys[k])
    got = [list(c.items()) for c in both]
    for one in range(2):
        ctx.restart()
        c = NaiveCache() if size is None else NaiveCache(max_size=size)
        for i, (w, what, k) in enumerate(ops):
            if w == one:
                if what == 0:
                    c.put(keys[k], i)
                else:
                    c.pop(keys[k])
        ctx.check(list(c.items()) == got[one], 'caches')


def who(ctx, i):
    return ctx.pick('who%d' % i, 2) if i else 0     # the first is the first


def new_corpus(ctx, kind):
    return Corpus() if kind == 'memory' else FileCorpus(ctx.scratch(), cache_size=1)


def message(ctx, j):
    return from_bytes(b'Subject: s%d\n\nword' % j + ctx.bytes('w%d' % j, 1, b'ab') + b' same\n', 'm%d' % j)


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def corpora(ctx, n):
    kinds = ctx.choice('kinds', [('memory', 'memory'), ('file', 'file'), ('memory', 'file')])
    ops = []
    for i in range(n):
        ops.append((who(ctx, i), ctx.pick('m%d' % i, 2)))
    both = [new_corpus(ctx, k) for k in kinds]
    for w, j in ops:
        toggle(ctx, both[w], j)
    got = [contents(c) for c in both]
    for one in range(2):
        ctx.restart()
        c = new_corpus(ctx, kinds[one])
        for w, j in ops:
            if w == one:
                toggle(ctx, c, j)
        ctx.check(contents(c) == got[one], 'corpora')


def toggle(ctx, c, j):
    m = message(ctx, j)
    if m.id() in c:
        c.remove_message(m)
    else:
        c.add_message(m)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def trained(ctx, n):
    """Two corpora, each followed by a classifier of its own."""
    ops = []
    for i in range(n):
        ops.append((who(ctx, i), ctx.pick('m%d' % i, 2)))
    both = [world(ctx, i) for i in range(2)]
    for w, j in ops:
        toggle(ctx, both[w][0], j)
    toks = [b'worda', b'wordb', b'same', b'subject:s0', b'subject:s1']
    got = [state(w[1], toks) for w in both]
    for one in range(2):
        ctx.restart()
        alone = world(ctx, one)
        for x, j in ops:
            if x == one:
                toggle(ctx, alone[0], j)
        ctx.check(state(alone[1], toks) == got[one], 'trained')


def world(ctx, i):
    corpus, c = Corpus(), Classifier()
    return corpus, c, (SpamTrainer if i else HamTrainer)(c, [corpus])


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def messages(ctx, n):
    both = [new_message(ctx, i) for i in range(2)]
    ops = []
    for i in range(n):
        ops.append((who(ctx, i), ctx.pick('what%d' % i, 6)))
    for w, what in ops:
        change(both[w], what)
    got = [look(m) for m in both]
    for one in range(2):
        ctx.restart()
        m = new_message(ctx, one)
        for w, what in ops:
            if w == one:
                change(m, what)
        ctx.check(look(m) == got[one], 'messages')


def new_message(ctx, i):
    return from_bytes(b'Subject: s\nTo: ' + ctx.bytes('t', 1, b'ab') + b'\n\nbody%d\n' % i)


def change(m, what):
    if what == 0:
        m.add_sb_headers(0.95, [(b'a', 0.9)], include_evidence=True, notate_subject=(Classification.spam,))
    elif what == 1:
        m.remove_sb_headers()
    elif what == 2 and m.id() is None:
        m.set_id('one')
    elif what == 3:
        m.set_classification(Classification.ham)
        m.add_notations((Classification.ham,), (Classification.ham,))
    elif what == 4:
        m.remember_trained(True)
    elif what == 5:
        m['X-New'] = 'v'


def look(m):
    return [(k, str(v)) for k, v in m.items()], m.get_payload(), m.id(), m.classification(), m.is_trained()
