"""C16: classification by the cutoffs and the write-once message id."""
from sx.harness import scenario
from sbclassifier.message import Classification, Message, from_bytes, from_string

META = dict(
    labels=['cutoffs', 'classification kept', 'classification rejected', 'id accepted', 'id rejected', 'id kept', 'id from header'],
    bounds='every double except NaN as score; the classifications; 9 values of other types; ids: symbolic text '
           'of up to 2 characters (thorough: 3), the two reserved keys with any one character replaced, values of other types, after no id, '
           'an equal id or another id of up to 2 symbolic characters; by set_id, the constructor, from_bytes, from_string and '
           'set_id_from_payload; up to 2 calls in a row',
    outside='ids longer than that; subclasses of str and float with their own comparison',
    assumptions=[],
)

RESERVED = ['Statistics start date', 'Persistent statistics']
BAD = [None, 0, 1, True, '0.5', 'ham', b'ham', (0.5,), 1j]


def expect(p):
    return Classification.ham if p < 0.2 else Classification.spam if p > 0.9 else Classification.unsure


@scenario(quick=[{}])
def scores(ctx):
    m = Message()
    start = ctx.choice('start', [None] + list(Classification))
    if start is not None:
        m.set_classification(start)
    ctx.check(m.classification() is start, 'classification kept')
    p = ctx.float('p')
    ctx.assume(p == p)
    m.set_classification(p)
    ctx.check(m.classification() is expect(p), 'cutoffs')
    ctx.check(m.id() is None, 'id kept')
    ctx.check(m.is_trained() is None, 'id kept')
    q = ctx.choice('q', BAD)
    bad, _ = ctx.raises(lambda: m.set_classification(q), ValueError)
    ctx.check(bad, 'classification rejected')
    ctx.check(m.classification() is expect(p), 'classification rejected')


@scenario(quick=[{}])
def classes(ctx):
    m = Message()
    for i in range(2):
        c = ctx.choice('c%d' % i, list(Classification))
        m.set_classification(c)
        ctx.check(m.classification() is c, 'classification kept')
    c2 = ctx.choice('bad', BAD)
    bad, _ = ctx.raises(lambda: m.set_classification(c2), ValueError)
    ctx.check(bad, 'classification rejected')
    ctx.check(m.classification() is c, 'classification rejected')
    ctx.check(len(m.keys()) == 0, 'classification rejected')


def new_id(ctx, name, n):
    """(an id, may it be accepted)"""
    kind = ctx.pick(name + 'kind', 5)
    if kind == 0:
        s = ctx.str(name, ctx.pick(name + 'len', n + 1))
        return s, True
    if kind == 1:
        r = ctx.choice(name + 'res', RESERVED)
        i = ctx.choice(name + 'at', range(len(r)))
        s = r[:i] + ctx.str(name + 'c', 1) + r[i + 1:]
        return s, s != r
    if kind == 2:
        r = ctx.choice(name + 'res', RESERVED)
        s = ctx.choice(name + 'form', [r + ' ', r[:-1], r.upper(), ' ' + r])
        return s, True
    if kind == 3:
        return ctx.bytes(name, ctx.pick(name + 'len', n + 1)), False
    return ctx.choice(name + 'type', [None, 1, 0, True, 1.5, ('a',), ['a'], bytearray(b'a')]), False


def call(ctx, fn):
    """Accepted?"""
    bad, e = ctx.raises(fn, TypeError, ValueError)
    return not bad


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def ids(ctx, n):
    m = Message()
    m.set_classification(Classification.ham)
    old = None
    if ctx.boolean('had'):
        old = ctx.str('old', 1 + ctx.pick('oldlen', 2))
        m.set_id(old)
        ctx.check(m.id() == old, 'id accepted')
    s, ok = new_id(ctx, 'a', n)
    if old is not None and ok:
        ok = s == old
    if ok:
        m.set_id(s)
        ctx.check(m.id() == s, 'id accepted')
        ctx.check(isinstance(m.id(), str), 'id accepted')
        # and now it stays
        t = ctx.str('t', 1)
        good = call(ctx, lambda: m.set_id(t))
        if s:
            ctx.check(good == (s == t), 'id kept')
            ctx.check(m.id() == s, 'id kept')
    else:
        ctx.check(not call(ctx, lambda: m.set_id(s)), 'id rejected')
        if old is None:
            ctx.check(m.id() is None, 'id rejected')
        else:
            ctx.check(m.id() == old, 'id rejected')
    ctx.check(m.classification() is Classification.ham, 'classification kept')


@scenario(quick=[{}])
def made(ctx):
    """The id given when the message is made."""
    s, ok = new_id(ctx, 'a', 2)
    how = ctx.pick('how', 3)
    if s is None:
        ok = True
    make = [lambda: Message(s), lambda: from_bytes(b'Subject: x\n\ny', s), lambda: from_string('Subject: x\n\ny', s)][how]
    bad, r = ctx.raises(make, TypeError, ValueError)
    ctx.check((not bad) == ok, 'id accepted' if ok else 'id rejected')
    if not bad:
        if s is None:
            ctx.check(r.id() is None, 'id accepted')
        else:
            ctx.check(r.id() == s, 'id accepted')


@scenario(quick=[{}])
def from_header(ctx):
    """The id header of a message."""
    m = Message()
    old = None
    if ctx.boolean('had'):
        old = 'o'
        m.set_id(old)
    s = None
    if ctx.boolean('header'):
        kind = ctx.pick('kind', 3)
        s = ctx.str('s', 1) if kind == 0 else 'x' + ctx.str('s', 1) if kind == 1 else ctx.choice('res', RESERVED)
        m['X-Spambayes-MailId'] = s
    got = m.set_id_from_payload()
    ok = s is not None and s not in RESERVED and (old is None or old == s)
    if ok:
        ctx.check(m.id() == s, 'id from header')
        ctx.check(got == s, 'id from header')
    else:
        ctx.check(m.id() == old if old is not None else m.id() is None, 'id from header')
        ctx.check(got is None, 'id from header')
