"""C28: header tokens."""
import email.header
import email.utils
import math

from sx.harness import scenario
from props import ref
from props.ref import header_word_tokens as word_tokens, is_subject_word, is_w, runs
import sbclassifier.tokenizer as tokenizer
from sbclassifier.message import from_bytes, from_string

META = dict(
    labels=['subject', 'address', 'counted names', 'message id', 'mailer', 'received', 'other headers', 'bytes'],
    bounds='subjects with up to 4 symbolic characters (thorough: 5; 2 and 3 in encoded words), plain, folded, 8-bit or inside an encoded word; address fields with 2 symbolic characters (thorough: 3) in '
           '8 shapes; up to 3 headers (thorough: 4) from 10 names in different case with one symbolic letter; message ids with 4 symbolic characters (thorough: 5) in 4 shapes; '
           'X-Mailer texts of 4 symbolic characters; Received lines with 3 symbolic characters (thorough: 4) in the host, address or surroundings; '
           'one other header with 3 symbolic characters (thorough: 5); up to 400 words, addresses or headers',
    outside='the option BASIC_HEADER_TOKENIZE and the summary options (off by default); characters above U+00FF',
    assumptions=['splitting addresses and decoding encoded words is that of the email package'],
)


def tokens(ctx, msg, prefixes):
    toks = list(tokenizer.tokenize(msg))
    for t in toks:
        ctx.check(isinstance(t, bytes), 'bytes')
    return [t for t in toks if t.startswith(prefixes)]


def enc(s):
    return s.encode('utf-8', 'surrogatepass')


def lg(n):
    return round(math.log(n) / math.log(2))


def decoded(value):
    return [(x.decode('latin-1') if isinstance(x, bytes) else x, cs) for x, cs in email.header.decode_header(value)]


def subject_tokens(parts):
    want = []
    for x, charset in parts:
        if charset is not None:
            want.append(enc('subjectcharset:' + charset))
        x = x.replace('\r', ' ')
        for w in runs(x, is_subject_word):
            want += [b'subject:' + t for t in word_tokens(w)]
        for p in runs(x, lambda c: not is_w(c)):
            want.append(enc('subject:' + p))
    return want


SUBJECT = 'aB1 $.,-_:\xe9\t'


@scenario(quick=[dict(n=5)], thorough=[dict(n=6)])
def subject(ctx, n):
    """Plain text."""
    s = ctx.choice('pre', ['', 'Re: Some', 'abcdefghijkl ', 'x, ']) + ctx.str('s', ctx.pick('n', n), SUBJECT) + ctx.choice('post', ['yz', '!!', '\n Folded', '\r\n\tFolded', ''])
    again = 'subject: One more\n' if s.endswith('yz') else ''
    msg = from_string('Subject: ' + s + '\nA: b\n' + again + '\n')
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'subject'), subject_tokens([(s.lstrip(' \t'), None)])), 'subject')


@scenario()
def subject_char(ctx):
    t = 'Subject: Buy 3 V-iagra$$ now, or %10.5 off!!'
    i = ctx.pick('i', len(t) - 8) + 9
    c = ctx.str('c', 1)
    ctx.assume(ctx.all([c != '\r', c != '\n']))
    t = t[:i] + c + t[i:]
    msg = from_string(t + '\nA: b\n\n')
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'subject'), subject_tokens([(t[9:].lstrip(' \t'), None)])), 'subject')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def subject_encoded(ctx, n):
    """Encoded words and 8-bit text."""
    s = ctx.bytes('s', n, b'aB_=3?D \xe9.')
    s = ctx.choice('pre', [b'=?utf-8?q?hello', b'=?iso-8859-1?B?aGVsbG', b'hi =?x?q?', b'\xc3\xa9']) + s + ctx.choice('post', [b'!?=', b'8==?=', b''])
    msg = from_bytes(b'Subject: ' + s + b'\nA: b\n\n')
    try:
        parts = decoded(msg['subject'])
    except Exception:
        return
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'subject'), subject_tokens(parts)), 'subject')


SHAPES = ['%s', 'Jo %s Hn <Jo@Example.com>', '"%s" <a@b>', 'a%sb@c', 'x@y, %s', '<%s@H>', '=?utf-8?q?A%sb?= <q@r>', 'a@b\nF: %s <c@d>']
FIELDS = ['from', 'to', 'cc', 'sender', 'reply-to']


def address_tokens(msg):
    want = []
    for f in FIELDS:
        vals = msg.get_all(f)
        if not vals:
            want.append(f + ':none')
            continue
        noname = 0
        for name, addr in email.utils.getaddresses(vals):
            if name:
                for x, charset in decoded(name):
                    want.append(f + ':name:' + x.lower())
                    if charset is not None:
                        want.append(f + ':charset:' + charset)
            else:
                noname += 1
            if addr:
                want += [f + ':addr:' + w for w in addr.lower().split('@')]
            else:
                want.append(f + ':addr:none')
        if noname:
            want.append('%s:no real name:2**%d' % (f, lg(noname)))
        if f in ('to', 'cc'):
            want.append('%s:2**%d' % (f, lg(sum(len(str(v).split(',')) for v in vals))))
    return [enc(w) for w in want]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def address(ctx, n):
    s = ctx.str('s', ctx.pick('n', n + 1), 'aB@, <>".\xe9')
    f = ctx.choice('f', ['From', 'tO', 'Reply-To'])
    shape = ctx.choice('shape', SHAPES)
    i = shape.index('%s')
    t = f + ': ' + shape[:i].replace('F:', f + ':') + s + shape[i + 2:] + '\nSender: <a@b.c>\n\n'
    msg = from_string(t)
    try:
        want = address_tokens(msg)
    except Exception:
        return
    ctx.check(ref.same(ctx, tokens(ctx, msg, tuple(enc(x + ':') for x in FIELDS)), want), 'address')


SAFE = ("abuse-reports-to", "date", "errors-to", "from", "importance", "in-reply-to", "message-id", "mime-version", "organization", "received",
        "reply-to", "return-path", "subject", "to", "user-agent", "x-abuse-info", "x-complaints-to", "x-face")
NAMES = ['Subject', 'SUBJECT', 'From', 'Date', 'X-Foo', 'received', 'MIME-Version', 'Cc', 'X-Face', None]


@scenario(quick=[dict(k=3)], thorough=[dict(k=4)])
def counted(ctx, k):
    names = []
    for j in range(k):
        x = ctx.choice('h%d' % j, NAMES)
        names.append('Dat' + ctx.str('c%d' % j, 1, 'eEaT') if x is None else x)
    msg = from_string(''.join(x + ': v\n' for x in names) + '\n')
    want = []
    for x in names:
        if x.lower() in SAFE:
            want.append(enc('header:' + x + ':' + str(len([y for y in names if y == x]))))
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'header:'), want), 'counted names')


@scenario()
def every_safe_header(ctx):
    x = ctx.choice('h', SAFE + ('x-mailer', 'sender', 'content-type', 'list-id'))
    i = ctx.pick('up', 5)
    x = [x, x.upper(), x.title(), x.replace('-', '_', 1), 'X-' + x][i]
    msg = from_string(x + ': v\n' + 'A: b\n' + x + ': w\n\n')
    want = [enc('header:' + x + ':2')] if x.lower() in SAFE else []
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'header:'), want), 'counted names')


def msgid_token(v):
    i = 0
    while i < len(v) and v[i] in ' \t\n\r':
        i += 1
    if v[i:i + 1] == '<':
        j = v.find('@', i + 1)
        if j > i + 1:
            k = v.find('>', j + 1)
            if k > j + 1:
                return 'message-id:@' + v[j + 1:k]
    return 'message-id:invalid'


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def message_id(ctx, n):
    pre, post = ctx.choice('shape', [('', ''), ('<a@h', '>'), ('<', '@Host.example>'), (' <a', 'b>  \t'), ('\n <a', '@b.c>'), ('<a@b\r\n ', '.c>\n x')])
    v = pre + ctx.str('s', ctx.pick('n', n + 1), '<>@aB \t-') + post
    msg = from_string('Message-Id: ' + v + '\n\n')
    want = [enc(msgid_token(v.lstrip(' \t')))]
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'message-id:'), want), 'message id')


@scenario()
def no_message_id(ctx):
    msg = from_string('A: b\n\n')
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'message-id:'), [b'message-id:invalid']), 'message id')
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'x-mailer:'), [b'x-mailer:none']), 'mailer')
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'subject'), []), 'subject')


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def mailer(ctx, n):
    v = ctx.choice('pre', ['', 'Mail  X']) + ctx.str('s', ctx.pick('n', n + 1), 'aB1. \t\xe9\xa0:') + ctx.choice('post', ['', ' 1.0', '\n \tZ'])
    msg = from_string('X-Mailer: ' + v + '\n' + ctx.choice('again', ['', 'x-mailer: Y\n']) + '\n')
    want = [enc('x-mailer:' + ' '.join(v.split()).lower())]
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'x-mailer:'), want), 'mailer')


LOW = 'abcdefghijklmnopqrstuvwxyz'
DIGITS = '0123456789'


def received_host(h):
    for i in range(len(h)):
        if h[i:i + 5] == 'from ':
            j = i + 5
            while j < len(h) and h[j] in LOW + DIGITS + '._-':
                j += 1
            if j > i + 6 and h[j - 1] in LOW and j < len(h) and h[j] in ') \t\n':
                return h[i + 5:j]
    return None


def four_numbers(h, i, k):
    """The possible ends of k numbers (with an optional dot after each)."""
    if k == 0:
        return [i]
    out = []
    for n in (3, 2, 1):
        if len(h) >= i + n and all(c in DIGITS for c in h[i:i + n]):
            for m in ((1, 0) if h[i + n:i + n + 1] == '.' else (0,)):
                out += four_numbers(h, i + n + m, k - 1)
    return out


def received_ip(h):
    for i in range(len(h)):
        if h[i] in '[(':
            for e in four_numbers(h, i + 1, 4):
                if e < len(h) and h[e] in '])':
                    return h[i + 1:e]
    return None


def complaints(h):
    """"(word word ...)" of lower-case letters"""
    out = []
    i = 0
    while i < len(h):
        if h[i] == '(':
            j = i + 1
            while j < len(h) and (h[j] in LOW or h[j] == ' '):
                j += 1
            inner = h[i + 1:j]
            if h[j:j + 1] == ')' and ' ' in inner and inner[0] in LOW and inner[-1] in LOW:
                out.append(h[i:j + 1])
                i = j + 1
                continue
        i += 1
    return out


def received_tokens(values):
    want = []
    for v in values:
        h = ' '.join(v.split()).lower()
        want += complaints(h)
        host = received_host(h)
        if host is not None:
            parts = host.split('.')
            want += ['.'.join(parts[-i:]) for i in range(1, len(parts) + 1)]
        ip = received_ip(h)
        if ip is not None:
            parts = ip.split('.')
            want += ['.'.join(parts[:i]) for i in range(1, 5)]
    return [enc('received:' + w) for w in want]


RECEIVED = [('from ', ' (a.example.COM [1.2.3.4]) by x'), ('from mail.', 'b.c ([10.20.30.40])\n by x'), ('from a.b.c ([10.', '1.2.3]) by x'),
            ('from a.b.c (10.1.2.', ') by x'), ('by x (may ', 'forged) from a (not real)'), ('x', 'from q.r)'),
            ('from l1.l2.l3.l4.l5.l6.l7.l8.l9.l10.l11.l12.l13.l14.l15.l16.', '.example.org (may be forged by the very long hand of a host) [010.020.0.255]')]


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def received(ctx, n):
    pre, post = ctx.choice('shape', RECEIVED)
    v = pre + ctx.str('s', ctx.pick('n', n + 1), 'aB1.-() \t[]') + post
    vs = [v] + (['from z.y (5.6.7.8)'] if ctx.boolean('two') else [])
    msg = from_string(''.join('Received: ' + x + '\n' for x in vs) + '\n')
    save = tokenizer.MINE_RECEIVED_HEADERS
    tokenizer.MINE_RECEIVED_HEADERS = True
    try:
        got = tokens(ctx, msg, b'received:')
    finally:
        tokenizer.MINE_RECEIVED_HEADERS = save
    ctx.check(ref.same(ctx, got, received_tokens(vs)), 'received')


@scenario(quick=[dict(n=3)], thorough=[dict(n=5)])
def others(ctx, n):
    """The values of other headers do not matter."""
    name = ctx.choice('name', ['X-Foo', 'Date', 'Received', 'Organization', 'Bcc', 'Return-Path', 'X-Spambayes-Classification', 'List-Id', 'User-Agent'])
    head = 'Subject: Hi there\nFrom: a@b\n'
    v = ctx.str('v', n, 'aB@<.: ,\xe9')
    base = list(tokenizer.tokenize(from_string(head + name + ': v\n\nbody text\n')))
    got = list(tokenizer.tokenize(from_string(head + name + ': ' + v + '\n\nbody text\n')))
    ctx.check(ref.same(ctx, got, base), 'other headers')
    if name.lower() not in SAFE:
        none = list(tokenizer.tokenize(from_string(head + '\nbody text\n')))
        ctx.check(ref.same(ctx, none, got), 'other headers')


@scenario()
def many(ctx):
    """Long subjects, many addresses and repeated headers."""
    n = ctx.choice('n', [30, 400])
    s = ctx.str('s', 1, 'aB1 $.,')
    t = ' '.join(['Word%d,' % i for i in range(n)]) + s + 'End'
    msg = from_string('Subject: ' + t + '\n\n')
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'subject'), subject_tokens([(t, None)])), 'subject')
    f = ctx.choice('f', ['To', 'cc', 'Sender'])
    addrs = ['N%d <u%d@h.org>' % (i, i) for i in range(n)]
    msg = from_string(f + ': ' + ',\n '.join(addrs[:n // 2]) + '\n' + ''.join(f + ': ' + a + '\n' for a in addrs[n // 2:]) + '\n')
    ctx.check(ref.same(ctx, tokens(ctx, msg, tuple(enc(x + ':') for x in FIELDS)), address_tokens(msg)), 'address')
    name = 'Dat' + ctx.choice('e', ['e', 'E', 'a'])
    msg = from_string((name + ': v\nA: b\n') * n + '\n')
    ctx.check(ref.same(ctx, tokens(ctx, msg, b'header:'), [enc('header:%s:%d' % (name, n))] if name.lower() in SAFE else []), 'counted names')
