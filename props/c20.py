"""C20: classifiers that follow the corpora they watch."""
from sx.harness import scenario
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora import Corpus, FileCorpus
from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import tokenize
from sbclassifier.trainers import HamTrainer, SpamTrainer, Trainer

META = dict(
    labels=['counts', 'remembered', 'unwatched', 'silent', 'failed'],
    bounds='histories of 4 (thorough: 5) additions, removals and moves of 3 messages over two ham, one spam and one unwatched corpus, '
           'messages with 2 words of which one is symbolic; watched file corpora with a memory cache of one message; '
           'two classifiers watching overlapping corpora; removal when the classifier has no such message',
    outside='adding a message whose id is in the corpus already; corpora that evict messages; trainers that are no longer referenced; '
            'longer histories',
    assumptions=[],
)


def message(ctx, i, key=None):
    w = ctx.bytes('w%d' % i, 1, b'abAB!')
    return from_bytes(b'Subject: s\n\nword' + w + b' same\n', 'm%d' % i if key is None else key)


def counts(c):
    # the tokens' counts by the records, which score and persist the state
    return {t: (r.spamcount, r.hamcount) for t, r in c.wordinfo.items()}


def same(ctx, c, trained, label='counts'):
    """c against one trained from scratch on [(message, is_spam)]."""
    fresh = Classifier()
    for m, spam in trained:
        if m.id() not in ctx.data:
            ctx.data[m.id()] = list(tokenize(m))
        fresh.learn(ctx.data[m.id()], spam)
    ctx.check((c.nspam, c.nham) == (fresh.nspam, fresh.nham), label)
    ctx.check(len(c.wordinfo) == len(fresh.wordinfo), label)
    for t, n in counts(fresh).items():
        r = c.wordinfo.get(t)
        ctx.check(r is not None, label)
        ctx.check((r.spamcount, r.hamcount) == n, label)


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)], weight=3)
def history(ctx, n):
    c = Classifier()
    names = ['spam', 'ham', 'ham2', 'other']
    corpora = {x: Corpus() for x in names}
    how = ctx.pick('how', 2)
    if how:
        trainers = [SpamTrainer(c, [corpora['spam']]), HamTrainer(c, [corpora['ham'], corpora['ham2']])]
    else:
        trainers = [Trainer(c, True, (corpora['spam'],)),
                    Trainer(c, False, iter([corpora['ham'], corpora['ham2']]))]
    msgs = [message(ctx, i) for i in range(3)]
    where = [None, None, None]
    for i in range(n):
        j = ctx.pick('m%d' % i, min(3, i + 1))
        m = msgs[j]
        if where[j] is None:
            # an addition
            where[j] = ctx.choice('to%d' % i, names)
            corpora[where[j]].add_message(m)
            want = {'spam': True, 'ham': False, 'ham2': False, 'other': None}[where[j]]
            ctx.check(m.is_trained() is want, 'remembered' if where[j] != 'other' else 'unwatched')
        else:
            x = where[j]
            corpora[x].remove_message(m)
            where[j] = None
            ctx.check(m.is_trained() is None, 'remembered' if x != 'other' else 'unwatched')
        same(ctx, c, [(m, w == 'spam') for m, w in zip(msgs, where) if w not in (None, 'other')])
    for m, w in zip(msgs, where):
        if w is not None:
            corpora[w].remove_message(m)
    ctx.check((c.nspam, c.nham, len(c.wordinfo)) == (0, 0, 0), 'counts')
    del trainers


@scenario(quick=[{}])
def order(ctx):
    """Messages removed in another order than added, also to another corpus
    first."""
    c = Classifier()
    a, b = Corpus(), Corpus()
    t1, t2 = SpamTrainer(c, [a]), HamTrainer(c, [b])
    msgs = [message(ctx, i) for i in range(3)]
    for m in msgs:
        a.add_message(m)
    i = ctx.pick('i', 3)
    first = ctx.boolean('first')
    if first:
        b.add_message(msgs[i])
        ctx.check(msgs[i].is_trained() is False, 'remembered')
        same(ctx, c, [(m, True) for m in msgs] + [(msgs[i], False)])
        a.remove_message(msgs[i])
    else:
        a.remove_message(msgs[i])
        b.add_message(msgs[i])
    same(ctx, c, [(m, True) for m in msgs if m is not msgs[i]] + [(msgs[i], False)])
    j = ctx.pick('j', 3)
    (b if i == j else a).remove_message(msgs[j])
    ctx.check(msgs[j].is_trained() is None, 'remembered')
    same(ctx, c, [(m, m is not msgs[i]) for m in msgs if m is not msgs[j]])


@scenario(quick=[{}])
def shared(ctx):
    """Several trainers, classifiers and corpora; corpora with equal contents
    are different corpora."""
    c1, c2 = Classifier(), Classifier()
    a, b, d = Corpus(), Corpus(), Corpus()
    trainers = [Trainer(c1, True, [a, b]), Trainer(c2, False, [b]), Trainer(c2, True, [])]
    m = [message(ctx, i) for i in range(3)]
    in1, in2 = [], []
    for i in range(3):
        x = ctx.choice('x%d' % i, [a, b, d])
        x.add_message(m[i])
        if x is not d:
            in1.append((m[i], True))
        if x is b:
            in2.append((m[i], False))
        same(ctx, c1, in1)
        same(ctx, c2, in2)
        if ctx.boolean('gone%d' % i):
            x.remove_message(m[i])
            in1 = [p for p in in1 if p[0] is not m[i]]
            in2 = [p for p in in2 if p[0] is not m[i]]
        same(ctx, c1, in1)
        same(ctx, c2, in2)
    del trainers


@scenario(quick=[{}])
def silent(ctx):
    """Without signals nothing is trained."""
    c = Classifier()
    a = Corpus()
    t = Trainer(c, ctx.boolean('spam'), [a])
    m = message(ctx, 0)
    a.add_message(m, emit_signal=False)
    ctx.check(m.is_trained() is None, 'silent')
    same(ctx, c, [], 'silent')
    a.remove_message(m, emit_signal=False)
    a.add_message(m)
    a.remove_message(m, emit_signal=False)
    ctx.check(m.is_trained() is ctx.boolean('spam'), 'silent')
    same(ctx, c, [(m, ctx.boolean('spam'))], 'silent')


@scenario(quick=[{}])
def files(ctx):
    """File corpora: messages are read back from their files."""
    d = ctx.scratch()
    spam = ctx.boolean('spam')
    c = Classifier()
    a = FileCorpus(d, cache_size=1)
    t = Trainer(c, spam, [a])
    msgs = [message(ctx, i) for i in range(3)]
    for m in msgs:
        a.add_message(m)
        ctx.check(m.is_trained() is spam, 'remembered')
    same(ctx, c, [(m, spam) for m in msgs])
    i = ctx.pick('i', 3)
    m = a['m%d' % i]
    a.remove_message(m)
    ctx.check(m.is_trained() is None, 'remembered')
    same(ctx, c, [(x, spam) for x in msgs if x is not msgs[i]])
    for k in list(a.keys()):
        a.remove_message(a[k])
    same(ctx, c, [])


@scenario(quick=[{}])
def failed(ctx):
    """Untraining a message that was never trained fails and the message keeps
    its training."""
    c = Classifier()
    a = Corpus()
    m = message(ctx, 0)
    a.add_message(m)
    m.remember_trained(ctx.choice('t', [True, None]))
    t = Trainer(c, ctx.boolean('spam'), [a])
    bad, _ = ctx.raises(lambda: a.remove_message(m), ValueError)
    ctx.check(bad, 'failed')
    ctx.check(m.is_trained() is ctx.choice('t', [True, None]), 'failed')
    same(ctx, c, [])


@scenario(quick=[{}])
def both(ctx):
    """A message in several watched corpora, or trained elsewhere before,
    counts all the same."""
    c = Classifier()
    corpora = [Corpus() for i in range(4)]
    spam = ctx.boolean('spam')
    t = Trainer(c, spam, corpora)
    m = message(ctx, 0)
    m.remember_trained(ctx.choice('before', [None, True, False]))
    other = message(ctx, 1)
    i, j = ctx.pick('i', 4), ctx.pick('j', 4)
    ctx.assume(i != j)
    corpora[i].add_message(m)
    same(ctx, c, [(m, spam)])
    ctx.check(m.is_trained() is spam, 'remembered')
    corpora[j].add_message(m)
    same(ctx, c, [(m, spam), (m, spam)])
    corpora[j].add_message(other)
    m.remember_trained(ctx.choice('then', [None, True, False]))
    corpora[i].remove_message(m)
    same(ctx, c, [(m, spam), (other, spam)])
    ctx.check(m.is_trained() is None, 'remembered')
    corpora[j].remove_message(m)
    same(ctx, c, [(other, spam)])
