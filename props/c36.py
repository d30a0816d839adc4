"""C36: the optional clues of the headers."""
import contextlib

from sx.harness import scenario
from props import ref
import sbclassifier.tokenizer as tokenizer
from sbclassifier.message import from_string

META = dict(
    labels=['header words', 'only header words', 'all headers counted', 'absent headers', 'habeas', 'reduced habeas', 'common prefix', 'common suffix', 'nothing else'],
    bounds='header words: values with 3 symbolic characters (thorough: 4), or with any character below U+0100 at any of 36 places; 2 headers of 12 names (1 symbolic letter); up to 3 headers (thorough: 4) of 10 names with symbolic letters; '
           'the nine Habeas headers, each absent, right, or wrong in one symbolic character; 2 or 3 addresses with 2 symbolic characters (thorough: 3) each around fixed stems',
    outside='header values above U+00FF; splitting of addresses, which is that of the email package',
)


@contextlib.contextmanager
def option(**kw):
    saved = {k: getattr(tokenizer, k) for k in kw}
    for k in kw:
        setattr(tokenizer, k, kw[k])
    try:
        yield
    finally:
        for k in kw:
            setattr(tokenizer, k, saved[k])


def tokens(msg, **kw):
    with option(**kw):
        return list(tokenizer.tokenize(msg))


def enc(s):
    return s.encode('utf-8', 'surrogatepass')


def clues(ctx, text, prefix, want, label, **kw):
    """The option adds just these tokens."""
    plain = tokens(from_string(text))
    got = tokens(from_string(text), **kw)
    ctx.check(ref.same(ctx, [t for t in got if t.startswith(prefix)], want), label)
    ctx.check(ref.same(ctx, [t for t in got if not t.startswith(prefix)], [t for t in plain if not t.startswith(prefix)]), 'nothing else')


NAMES = ['Subject', 'From', 'X-Mailer', 'x', 'Received', 'Received-SPF', 'DATE', 'Dates', 'List-Id', 'To', 'Content-Type', None]


def check_basic(ctx, headers):
    text = ''.join(k + ': ' + v + '\n' for k, v in headers) + '\nbody words\n'
    want = []
    for k, v in headers:
        k = k.lower()
        if k.startswith('received') or k.startswith('date') or k.startswith('x-'):
            continue
        for w in ref.runs(v.lstrip(' \t'), ref.is_subject_word):
            want += [enc(k + ':') + t for t in ref.header_word_tokens(w)]
    plain = list(tokenizer.tokenize(from_string(text)))
    both = list(tokenizer.tokenize(from_string(text), True))
    ctx.check(ref.same(ctx, both, plain + want), 'header words')
    # (what the MIME headers say is not a matter of these options)
    mime = [t for t in plain if t.startswith((b'content-', b'charset:', b'filename:'))]
    only = list(tokenizer.tokenize(from_string(text), True, True))
    ctx.check(ref.same(ctx, only, mime + want + [b'body', b'words']), 'only header words')


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def basic(ctx, n):
    v = ctx.choice('v', ['', 'Buy', 'abcdefghijkl', 'me@some.where']) + ctx.str('s', n, 'aB1 $-,\xe9\xb7') + ctx.choice('post', ['z', '\n folded'])
    check_basic(ctx, [(ctx.choice('name', ['Subject', 'List-Id', 'To', 'Received']), v)])


@scenario()
def basic_char(ctx):
    t = 'Some 3 V-iagra$$ n_w, or %10.5 off!!'
    i = ctx.pick('i', len(t))
    c = ctx.str('c', 1)
    ctx.assume(ctx.all([c != '\r', c != '\n']))
    check_basic(ctx, [('Organization', 'Of ' + t[:i] + c + t[i:]), ('A', 'second header')])


@scenario()
def no_headers(ctx):
    s = ctx.str('s', 2, 'ab \n')
    msg = from_string('\nbody words' + s)
    want = [t for t in tokens(msg) if t.startswith((b'content-', b'charset:', b'body', b'words')) or t in (b'aa', b'ab', b'ba', b'bb')]
    ctx.check(ref.same(ctx, list(tokenizer.tokenize(msg, True, True)), want), 'only header words')


@scenario()
def basic_names(ctx):
    headers = []
    for i in range(2):
        name = ctx.choice('name%d' % i, NAMES)
        if name is None:
            name = ctx.str('c', 1, 'xXrRdDy') + ctx.choice('rest', ['-received', 'ate', 'eceive'])
        headers.append((name, 'one two' + ctx.str('t%d' % i, 1, 'aB-. ') + 'x'))
    check_basic(ctx, headers)


COUNTED = ['From', 'FROM', 'X-Foo', 'x-foo', 'Received', 'List-Id', None]
SAFE = ("abuse-reports-to", "date", "errors-to", "from", "importance", "in-reply-to", "message-id", "mime-version", "organization", "received",
        "reply-to", "return-path", "subject", "to", "user-agent", "x-abuse-info", "x-complaints-to", "x-face")


@scenario(quick=[dict(k=3)], thorough=[dict(k=4)])
def counted(ctx, k):
    names = []
    for j in range(k):
        x = ctx.choice('h%d' % j, COUNTED)
        names.append('Dat' + ctx.str('c%d' % j, 1, 'eEaT') if x is None else x)
    text = ''.join(x + ':' + v + '\n' for x, v in zip(names, [' v', '', ' \t', ' w'])) + '\n'
    every = [enc('header:' + x + ':' + str(len([y for y in names if y == x]))) for x in names]
    clues(ctx, text, b'header:', every, 'all headers counted', COUNT_ALL_HEADER_LINES=True)
    present = [x.lower() for x in names]
    absent = [enc('noheader:' + h) for h in SAFE if h not in present]
    clues(ctx, text, b'noheader:', absent, 'absent headers', RECORD_HEADER_ABSENCE=True)
    got = tokens(from_string(text), RECORD_HEADER_ABSENCE=True, COUNT_ALL_HEADER_LINES=True)
    ctx.check(ref.same(ctx, [t for t in got if t.startswith(b'noheader:')], absent), 'absent headers')


HABEAS = ["winter into spring", "brightly anticipated", "like Habeas SWE (tm)", "Copyright 2002 Habeas (tm)", "Sender Warranted Email (SWE) (tm). The sender of this",
          "email in exchange for a license for this Habeas", "warrant mark warrants that this is a Habeas Compliant", "Message (HCM) and not spam. Please report use of this",
          "mark in spam to <http://www.habeas.com/report/>."]


@scenario()
def habeas(ctx):
    text = 'Subject: Hi\n'
    state = []
    odd = ctx.pick('odd', 9)
    for i in range(9):
        # all right or all absent but for two
        kind = ctx.pick('kind', 2) if i not in (odd, (odd + 4) % 9) else ctx.pick('kind%d' % (i == odd), 4)
        v = HABEAS[i]
        if kind == 0:
            state.append(None)
            continue
        if kind == 2:
            j = [0, len(v) // 2, len(v) - 1][ctx.pick('at', 3)]
            c = ctx.str('c', 1)
            ctx.assume(ctx.all([c != '\n', c != '\r']))
            v = v[:j] + c + v[j + 1:]
        elif kind == 3:
            v = v + ctx.str('tail', 1, 'x. ')
        text += ctx.choice('case', ['X-Habeas-SWE-', 'x-habeas-swe-']) + str(i + 1) + ': ' + v + '\n'
        state.append(v.lstrip(' \t') == HABEAS[i])
    text += '\nbody\n'
    want = [enc('x-habeas-swe-%d:' % (i + 1) + ('valid' if state[i] else 'invalid')) for i in range(9) if state[i] is not None]
    clues(ctx, text, b'x-habeas', want, 'habeas', X_SEARCH_FOR_HABEAS_HEADERS=True)
    want = []
    if False in state:
        want = [b'x-habeas-swe:invalid']
    elif None not in state:
        want = [b'x-habeas-swe:valid']
    clues(ctx, text, b'x-habeas', want, 'reduced habeas', X_SEARCH_FOR_HABEAS_HEADERS=True, X_REDUCE_HABEAS_HEADERS=True)
    clues(ctx, text, b'x-habeas', [], 'reduced habeas', X_REDUCE_HABEAS_HEADERS=True)


def common(addrs, i=0):
    n = 0
    while all(len(a) > n for a in addrs) and all(a[n] == addrs[0][n] for a in addrs):
        n += 1
    return n


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def similar(ctx, n):
    """Similar addresses."""
    k = ctx.pick('k', 4)
    stem = ctx.choice('stem', ['', 'someone.else', 'a.stem.of.20.letters'])
    addrs = []
    for i in range(k):
        a = stem + ctx.str('a%d' % i, n, 'aAb') + '@' + ctx.choice('host%d' % (i % 2), ['x.org', 'Y.org', 'x.a.longer.host.EXAMPLE.org'])
        addrs.append(a)
    how = ctx.pick('how', 3)
    split = [k, 1, 0][how]
    text = 'From: a@b.c\nBcc: q@r\nReply-To: s@t\n'
    if addrs[:split]:
        text += 'To: ' + ', '.join(['"A Name" <' + a + '>' for a in addrs[:split]]) + '\n'
    for a in addrs[split:]:
        text += 'CC: ' + a + '\n'
    text += '\nbody\n'
    low = [a.lower() for a in addrs]
    want = []
    if k > 1:
        m = common(low)
        if m:
            want = [b'pfxlen:big' if m * k // 10 > 3 else enc('pfxlen:%d' % (m * k // 10))]
    clues(ctx, text, b'pfxlen:', want, 'common prefix', SUMMARIZE_EMAIL_PREFIXES=True)
    want = []
    if k > 1:
        m = common([a[::-1] for a in low])
        if m:
            want = [b'sfxlen:big' if m * k // 10 > 5 else enc('sfxlen:%d' % (m * k // 10))]
    clues(ctx, text, b'sfxlen:', want, 'common suffix', SUMMARIZE_EMAIL_SUFFIXES=True)
