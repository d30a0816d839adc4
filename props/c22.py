"""C22: tokenizing never fails and yields bytes."""
from sx.harness import scenario
from props import ref
import email
import sbclassifier.tokenizer as tokenizer
from sbclassifier.message import from_bytes, from_string

META = dict(
    labels=['bytes', 'same set'],
    bounds='any byte (thorough: two) put in, or in place of what is there, at any place of 6 complete messages with encoded, 8-bit, parameterised and multipart headers and '
           'base64, quoted-printable, uuencoded and HTML bodies, one of 12 other characters at any place of the same messages as strings; 3 symbolic bytes (thorough: 4) of the bytes that matter at the delicate places of each message; '
           'header fields of 3 (thorough: 4) and whole messages of 4 (thorough: 5) symbolic bytes; 23 charsets with 12 values in 10 header fields',
    outside='strings with surrogates; larger windows; the options that are off by default other than MINE_RECEIVED_HEADERS and '
            'X_MINE_NNTP_HEADERS (the resolver is a stand-in that finds nothing)',
    assumptions=['the codecs and the base64 decoder of the standard library are modelled or run on concrete values'],
)

MESSAGES = {
    'plain': b'From: Jo <a@b.c>\nTo: d@e, "F, g" <h@i>\nSubject: Hi =?utf-8?q?=C3=A9a?= \xe9!\nReceived: from a.b ([1.2.3.4]) by c\nMessage-Id: <x@y.z>\n'
             b'X-Mailer: M 1\n\nSome text http://a.b/c?d\n',
    'type': b'Content-Type: text/html; charset="utf-8"; type="x/y"\nContent-Disposition: attachment; filename="a.b/c"\nContent-Transfer-Encoding: 7bit\n\n'
            b'<b>x</b>&#65;&nbsp;',
    'rfc2231': b"Content-Type: text/plain; charset*=us-ascii'en'utf-8; name*0*=utf-8''a%20b; name*1=c\nContent-Disposition: inline; filename*=x'y'%E9z\n\nab cde\n",
    'base64': b'Content-Type: text/plain\nContent-Transfer-Encoding: base64\n\nSGVsbG8gd29y\nbGQ=\n--\nmore\n',
    'uu': b'Subject: =?iso-8859-1?b?SGk=?= =?x?q?y?=\nContent-Transfer-Encoding: x-uuencode\n\nbegin 644 f.c\n#0V%T\n`\nend\n',
    'multipart': b'Content-Type: multipart/mixed; boundary="bb"\n\npre\n--bb\nContent-Transfer-Encoding: quoted-printable\n\na=20b=\nc=3D\n--bb\n'
                 b'Content-Type: message/rfc822\n\nSubject: in\n\ninner\n--bb--\n',
}


def setup(ctx):
    tokenizer.MINE_RECEIVED_HEADERS = True
    tokenizer.X_MINE_NNTP_HEADERS = True
    tokenizer.dns_lookup = tokenizer.reverse_dns_lookup = lambda x: ()


SAVED = {n: getattr(tokenizer, n) for n in ('MINE_RECEIVED_HEADERS', 'X_MINE_NNTP_HEADERS', 'dns_lookup', 'reverse_dns_lookup')}


def parsed(ctx, data):
    try:
        return from_bytes(data)
    except (TypeError, ValueError, LookupError):
        try:
            email.message_from_bytes(data)
        except (TypeError, ValueError, LookupError):
            # the email package itself fails: not a message
            ctx.assume(False)
        raise


def oracle(ctx, data, twice=True):
    setup(ctx)
    try:
        first = list(tokenizer.tokenize(parsed(ctx, data)))
        for t in first:
            ctx.check(isinstance(t, bytes), 'bytes')
        if twice:
            second = list(tokenizer.tokenize(parsed(ctx, data)))
            ctx.check(ref.same(ctx, first, second), 'same set')
    finally:
        for n in SAVED:
            setattr(tokenizer, n, SAVED[n])


@scenario(quick=[dict(m=m, n=1) for m in MESSAGES], thorough=[dict(m=m, n=2) for m in MESSAGES])
def any_byte(ctx, m, n):
    t = MESSAGES[m]
    i = ctx.pick('i', len(t) + 1)
    j = i + ctx.pick('replace', 2) * n
    oracle(ctx, t[:i] + ctx.bytes('b', n) + t[j:], twice=n == 1)


PLACES = {
    'plain': (b'=?<>@," \n\xe9(', ['Jo', 'd@e', 'utf-8', 'q?', '=C3', '?= ', '1.2', '<x@', 'http']),
    'type': (b'"; =/*\n<&\xe9', ['text', '/html', '"utf', 'utf-8', 'type=', 'a.b', 'file', '7bit', 'x</', '65;']),
    'rfc2231': (b"'*%=;\" 0\n\xe9", ['charset*', "'en", 'utf-8; ', '*0*', "utf-8''", '%20', "x'y", '%E9']),
    'base64': (b'=A\n\r -\xe9', ['base64', 'SGV', 'd29y', 'bGQ', '=\n--', '--']),
    'uu': (b'=?` \nMz\xe9', ['iso', 'b?', 'SGk', '?= =', 'x-uu', 'begin', '644', '#0V', '`', 'end']),
    'multipart': (b'-b"\n=;\xe9', ['multi', 'boundary', '"bb', '\n--bb\nC', 'quoted', '=20', '=\nc', '=3D', 'message', 'Subject', '--bb--']),
}


@scenario(quick=[dict(m=m, n=3) for m in MESSAGES], thorough=[dict(m=m, n=4) for m in MESSAGES])
def places(ctx, m, n):
    t = MESSAGES[m]
    alpha, where = PLACES[m]
    i = t.index(ctx.choice('at', where).encode())
    j = i + ctx.pick('replace', 2) * n
    oracle(ctx, t[:i] + ctx.bytes('b', n, alpha) + t[j:], twice=False)


FIELDS = ['Subject', 'From', 'Content-Type', 'Content-Disposition', 'Content-Transfer-Encoding', 'Message-Id', 'Received', 'NNTP-Posting-Host', 'Reply-To']


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def field(ctx, n):
    """A whole header field."""
    f = ctx.choice('f', FIELDS)
    v = ctx.bytes('v', ctx.pick('n', n + 1), b'a=?;"/@<., 1:\n\xe9')
    oracle(ctx, f.encode() + b': ' + v + b'\nTo: x\n\nbody\n', twice=False)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def string(ctx, n):
    """Messages given as a string."""
    setup(ctx)
    v = ctx.str('v', n, 'aA:\n \xe9\u20ac=?<')
    i = ctx.pick('place', 3)
    t = ['', 'Subject: ', 'A: b\n\n'][i] + v
    try:
        for x in tokenizer.tokenize(t if ctx.boolean('direct') else from_string(t)):
            ctx.check(isinstance(x, bytes), 'bytes')
    finally:
        for k in SAVED:
            setattr(tokenizer, k, SAVED[k])


WIDE = '\xe9\u20ac\U0001f600\x00\r\n=?_ \x85\u2028\u0130'


@scenario(quick=[dict(m=m) for m in MESSAGES])
def any_char(ctx, m):
    """A character beyond ASCII at any place of a message given as a string."""
    setup(ctx)
    t = MESSAGES[m].decode('latin-1')
    i = ctx.pick('i', len(t) + 1)
    j = i + ctx.pick('replace', 2)
    t = t[:i] + ctx.str('b', 1, WIDE) + t[j:]
    try:
        try:
            email.message_from_string(t)
        except (TypeError, ValueError, LookupError):
            ctx.assume(False)
        for x in tokenizer.tokenize(t if ctx.boolean('direct') else from_string(t)):
            ctx.check(isinstance(x, bytes), 'bytes')
    finally:
        for k in SAVED:
            setattr(tokenizer, k, SAVED[k])


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def whole(ctx, n):
    """A message of nothing but symbolic bytes."""
    oracle(ctx, ctx.bytes('v', n, b'aA:\n\r \xe9<&-'))


CHARSETS = ['utf-7', 'utf-16', 'utf-16-le', 'utf-32', 'punycode', 'idna', 'unicode_escape', 'raw_unicode_escape', 'hex', 'rot13', 'undefined', 'unknown-8bit',
            'mbcs', 'shift_jis', 'iso-2022-jp', 'us-ascii', 'ansi_x3_4_1968', '8bit', '', ' ', '\xe9', 'x\x00', '*']
VALUES = ['%2B2AA-', '+2AA-.x', '%D8%00%00%D8', '%FF%FE', '\\ud800', 'xn--a', '%', '%E', '%\xe9%ff', '=D8=00', 'KzJBQS0=', '\xed\xa0\x80']
CODED = ["Content-Type: text/plain; charset*=%s''%s", "Content-Type: text/plain; name*=%s''%s", "Content-Type: text/plain; type*=%s'en'%s", "Content-Type: text/plain; name*0*=%s''%s; name*1=y",
         "Content-Disposition: attachment; filename*=%s''%s", 'Content-Type: text/plain; charset="%s%s"', 'Subject: =?%s?q?%s?=', 'From: =?%s?b?%s?= <a@b>', 'To: a =?%s*en?q?%s?=', 'X-Mailer: =?%s?q?%s?=']


@scenario()
def charsets(ctx):
    """Charsets that exist, do not exist, or are none, with text they can and cannot decode."""
    v = ctx.choice('field', CODED) % (ctx.choice('charset', CHARSETS), ctx.choice('value', VALUES))
    oracle(ctx, v.encode('latin-1') + ctx.choice('b', [b'', b';', b'?=', b'\xe9']) + b'\nSubject: x\n\nbody\n', twice=False)
