"""C13: CRLF line endings."""
import email.generator
import io

from sx.harness import scenario
from sbclassifier.message import Message, force_crlf, from_bytes, from_string

META = dict(
    labels=['normalised', 'idempotent', 'only CRLF', 'as_string'],
    bounds='force_crlf: every text of up to 6 (thorough 8) characters below U+0100, and 3 such characters between '
           'fixed lines with other separators (VT, FF, NEL, U+2028); as_string: messages of a symbolic header value and body '
           '(3 to 4 symbolic characters, thorough 5), parsed from text or bytes or built, also multipart',
    outside='longer texts (the function is a single left-to-right pass); messages that Generator refuses (the fallback of '
            'as_string on TypeError)',
    assumptions=['the text of a message is what email.generator.Generator writes (run symbolically, too)'],
)


def ref(s):
    out = ''
    i = 0
    while i < len(s):
        c = s[i]
        i += 1
        if c == '\r':
            out += '\r\n'
            if i < len(s) and s[i] == '\n':
                i += 1
        elif c == '\n':
            out += '\r\n'
        else:
            out += c
    return out


@scenario(quick=[dict(n=n) for n in range(7)], thorough=[dict(n=8)])
def crlf(ctx, n):
    s = ctx.str('s', n)
    t = force_crlf(s)
    ctx.observe('t', t)
    want = ref(s)
    ctx.check(len(t) == len(want), 'normalised')
    ctx.check(t == want, 'normalised')
    ctx.check(force_crlf(t) == t, 'idempotent')
    for i in range(len(t)):
        if t[i] == '\r':
            ctx.check(i + 1 < len(t) and t[i + 1] == '\n', 'only CRLF')
        elif t[i] == '\n':
            ctx.check(i > 0 and t[i - 1] == '\r', 'only CRLF')


@scenario(quick=[{}])
def separators(ctx):
    a, b, c = (ctx.str(n, 1) for n in 'abc')
    s = a + 'x\r\ny\x0b' + b + '\x0c\x85\u2028z\n\r' + c
    t = force_crlf(s)
    ctx.check(t == ref(s), 'normalised')
    ctx.check(force_crlf(t) == t, 'idempotent')


def generated(m, **k):
    unixfrom = k.pop('unixfrom', False)
    fp = io.StringIO()
    email.generator.Generator(fp, mangle_from_=k.pop('mangle_from_', True)).flatten(m, unixfrom)
    return fp.getvalue()


def check_message(ctx, m):
    m.set_unixfrom('From me Thu Nov 12 05:41:54 2026')
    if ctx.boolean('options'):
        u, f = ctx.boolean('unixfrom'), ctx.boolean('mangle')
        t, g = m.as_string(u, f), generated(m, unixfrom=u, mangle_from_=f)
    else:
        t, g = m.as_string(), generated(m)
    ctx.observe('text', t)
    want = ref(g)
    ctx.check(len(t) == len(want), 'as_string')
    ctx.check(t == want, 'as_string')
    return t


@scenario(quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)])
def built(ctx, n):
    m = Message('id')
    m['From'] = 'me'
    m['Subject'] = 'a ' + ctx.str('h', 1, 'a \xe9')
    m.set_payload('From me\n' + ctx.str('p', n, '\r\na\t '))
    check_message(ctx, m)


@scenario(quick=[dict(kind='str', n=2), dict(kind='bytes', n=2)], thorough=[dict(kind='str', n=3), dict(kind='bytes', n=3)])
def parsed(ctx, kind, n):
    alphabet = 'a\r\n \xe9'
    if kind == 'str':
        m = from_string('Subject: x' + ctx.str('h', 1, alphabet) + '\nTo: y\r\n\nbody' + ctx.str('p', n, alphabet))
    else:
        m = from_bytes(b'Subject: x' + ctx.bytes('h', 1, alphabet) + b'\nTo: y\r\n\nbody' + ctx.bytes('p', n, alphabet))
    check_message(ctx, m)


@scenario(quick=[{}])
def multipart(ctx):
    m = from_string('Content-Type: multipart/mixed; boundary="b"\n\npre\n--b\n\none' + ctx.str('p', 1) +
                    '\n--b\nX: y\r\n\ntwo' + ctx.str('q', 1) + '\n--b--\n')
    check_message(ctx, m)
