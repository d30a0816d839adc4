"""C33: transfer encodings and MIME structure."""
import binascii

from sx.harness import scenario
from props import ref
import sbclassifier.tokenizer as tokenizer
from sbclassifier.message import from_bytes, from_string

META = dict(
    labels=['encoding', 'parts', 'all tokens'],
    bounds='texts with 2 arbitrary bytes (thorough: 3) in base64 and uuencode, with every length of the last group, a line break at any of 4 places and either kind of line end; '
           'base64 of a fixed text of 56 bytes with two line ends (2 symbolic characters each) at any places; 4 (thorough: 5) symbolic quoted-printable characters; '
           'multiparts of 2 parts (thorough: 3) of 10 kinds in 5 structures (nested, attached, digest) with 1 symbolic byte each (1 part: 3; thorough also 2 parts with 2); '
           'two parts with the same text and different encodings or types; major types with symbolic letters; 12 more types of other parts; up to 121 parts, or 25 levels',
    outside='damaged encodings (C27); the parsing of multiparts itself, which is that of the email package; the options for octets and images',
    assumptions=['the base64 and uuencode decoders of the standard library undo its encoders (models of both in sx; replays use the real ones)'],
)


def body(ctx, data):
    return [ref.as_bytes(t) for t in tokenizer.Tokenizer().tokenize_body(from_bytes(data))]


def everything(ctx, data):
    return list(tokenizer.tokenize(from_bytes(data)))


def compare(ctx, cte, encoded, plain, head=b'Content-Type: text/plain\nSubject: Hello\n'):
    want = body(ctx, head + b'\n' + plain)
    got = body(ctx, head + b'Content-Transfer-Encoding: ' + cte + b'\n\n' + encoded)
    ctx.check(ref.same(ctx, got, want), 'encoding')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def base64(ctx, n):
    text = b'some w' + ctx.bytes('s', n) + ctx.choice('end', [b'', b'o', b'or'])
    s = binascii.b2a_base64(text)
    i = ctx.choice('break', [0, 8, 12, len(s) - 3])
    compare(ctx, b'base64', s[:i] + ctx.choice('nl', [b'\n', b'\r\n']) + s[i:], text)


@scenario()
def wrapped(ctx):
    """Line breaks and white space in base64 text."""
    text = b'Some <b>longer</b> text, with w=F6rds\nof m\xe9ny http://a.b/c kinds'
    s = binascii.b2a_base64(text, newline=False)
    i = ctx.pick('i', len(s) + 1)
    j = ctx.pick('j', 3) * 9
    nl = ctx.bytes('nl', 2, b'\r\n')
    s = s[:i] + nl + s[i:i + j] + nl + s[i + j:]
    compare(ctx, ctx.choice('cte', [b'base64', b'BASE64', b'Base64']), s + b'\n', text)


HEX = b'0123456789abcdefABCDEF'


def qp(ctx, s):
    """The bytes that a quoted-printable text stands for."""
    out = b''
    i = 0
    while i < len(s):
        if s[i] != 61:
            out = out + s[i:i + 1]
            i += 1
        elif s[i + 1:i + 2] == b'\n':
            i += 2
        elif s[i + 1:i + 3] == b'\r\n':
            i += 3
        else:
            ctx.assume(i + 2 < len(s))
            ctx.assume(s[i + 1] in HEX and s[i + 2] in HEX)
            out = out + bytes([int(s[i + 1:i + 3], 16)])
            i += 3
    return out


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def quoted(ctx, n):
    s = b'Some w' + ctx.bytes('s', n, b'=234CDa0 \n_\r') + ctx.choice('post', [b'rd=\n s=20t', b'ord=3Db', b''])
    compare(ctx, ctx.choice('cte', [b'quoted-printable', b'Quoted-Printable']), s + b'\n', qp(ctx, s) + b'\n')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def uuencoded(ctx, n):
    text = b'w' + ctx.bytes('s', n) + ctx.choice('end', [b'', b'o', b'or'])
    k = ctx.choice('line', [1, 3])
    s = binascii.b2a_uu(text[:k], backtick=True) + binascii.b2a_uu(text[k:], backtick=ctx.boolean('backtick'))
    # (each name with one kind of end)
    cte = [b'x-uuencode', b'UUE', b'uuencode', b'x-uue'][len(text) % 3 + (k == 3)]
    compare(ctx, cte, b"begin 644 a.txt\n#86%A\n" + s + b'`\nend\n', b'aaa' + text)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def identity(ctx, n):
    """Other encodings mean none."""
    text = b'some w' + ctx.bytes('s', n, b'a=<& \n\xe9') + b'rd\n'
    compare(ctx, ctx.choice('cte', [b'7bit', b'8bit', b'binary', b'none', b'base-64', b'']), text, text)
    # and a message may also be a string
    if ctx.boolean('string'):
        ctx.assume(b'\xe9' not in text)
        a = body(ctx, b'Subject: Hello\n\n' + text)
        b = [ref.as_bytes(t) for t in tokenizer.Tokenizer().tokenize_body(from_string('Subject: Hello\n\n' + text.decode('ascii')))]
        ctx.check(ref.same(ctx, a, b), 'encoding')


# (headers of the part, is it text, is it a message)
KINDS = [
    (b'Content-Type: text/plain\n', True), (b'Content-Type: TEXT/HTML; charset=x\n', True), (b'', True), (b'Content-Type: text/calendar\nA: b\n', True),
    (b'Content-Type: rubbish\n', True), (b'Content-Type: image/png\n', False), (b'Content-Type: application/octet-stream; name=x.txt\n', False),
    (b'Content-Type: message/rfc822\n\nSubject: inner\n', True), (b'Content-Type: application/text\n', False),
    (b'Content-Type: text/x-log; name=a.exe\nContent-Disposition: attachment; filename="a.gif"\nContent-ID: <x>\n', True),
]

# more kinds of parts without text (used below)
OTHERS = [b'message/delivery-status', b'application/xml', b'application/xhtml+xml', b'application/rtf', b'application/json', b'image/svg+xml', b'audio/basic',
          b'video/mpeg', b'model/text', b'x-text/plain', b'font/html', b'chemical/x-text']


def join(boundary, parts):
    out = b'preamble text\n'
    for p in parts:
        out = out + b'--' + boundary + b'\n' + p + b'\n'
    return out + b'--' + boundary + b'--\nepilogue\n'


@scenario()
def others(ctx):
    """Parts of other types, whole messages too."""
    kind = ctx.choice('kind', OTHERS)
    if ctx.boolean('case'):
        kind = kind.upper()
    head = b'Content-Type: ' + kind + ctx.choice('more', [b'', b'; charset=us-ascii', b'; name="a.txt"']) + b'\n'
    t = b'Some: wo' + ctx.bytes('t', 2, b'ab ;:') + b'rd\n\nMore: words\n'
    if ctx.boolean('whole'):
        want = []
        got = body(ctx, b'Subject: Hello\n' + head + b'\n' + t)
    else:
        want = body(ctx, b'A: b\n\nshort part')
        got = body(ctx, b'Subject: Hello\nContent-Type: multipart/report; boundary="bb"\n\n' + join(b'bb', [b'\nshort part', head + b'\n' + t]))
    ctx.check(ref.same(ctx, got, want), 'parts')


@scenario(quick=[dict(k=2, n=1), dict(k=1, n=3)], thorough=[dict(k=3, n=1), dict(k=2, n=2)])
def parts(ctx, k, n):
    want = []
    sections = []
    for i in range(k):
        head, text = ctx.choice('kind%d' % i, KINDS)
        t = b'par' + ctx.bytes('t%d' % i, n, b'ab \n<&>') + (b'x%d' % i)
        if text:
            want += body(ctx, b'A: b\n\n' + t)
        sections.append(head + b'\n' + t)
    structure = ctx.pick('structure', 5)
    mixed = b'Content-Type: multipart/mixed; boundary="bb"\n\n'
    if structure == 0:
        msg = mixed + join(b'bb', sections)
    elif structure == 1:
        msg = mixed.replace(b'mixed', b'alternative') + join(b'bb', sections)
    elif structure == 2:
        # the first part in a multipart of its own
        inner = b'Content-Type: multipart/related; boundary=cc\n\n' + join(b'cc', sections[:1])
        msg = mixed + join(b'bb', [inner] + sections[1:])
    elif structure == 3:
        # all in an attached message
        msg = mixed + join(b'bb', [b'Content-Type: message/rfc822\n\nFrom: x\n' + mixed.replace(b'bb', b'cc') + join(b'cc', sections)])
    else:
        # (parts of a digest are messages)
        msg = mixed.replace(b'mixed', b'digest') + join(b'bb', [b'\nSubject: one\n' + s for s in sections])
    got = body(ctx, b'Subject: Hello\n' + msg)
    ctx.check(ref.same(ctx, got, want), 'parts')


HEADS = [b'', b'Content-Transfer-Encoding: base64\n', b'Content-Transfer-Encoding: quoted-printable\n', b'Content-Type: text/html\n', b'Content-Type: image/gif\n',
         b'Content-Transfer-Encoding: x-uuencode\n']


@scenario()
def same_text(ctx):
    """Parts with the same text, encoded in different ways, are different."""
    text = ctx.choice('text', [b'd29yZHM' + ctx.bytes('t', 1, b'gaA=') + b'\n', b'a=62c word=' + ctx.bytes('t', 1, b'\n =') + b'x\n'])
    want = []
    sections = []
    for i in range(2):
        head = ctx.choice('head%d' % i, HEADS)
        want += body(ctx, head + b'\n' + text)
        sections.append(head + b'\n' + text)
    got = body(ctx, b'Content-Type: multipart/mixed; boundary="bb"\n\n' + join(b'bb', sections))
    ctx.check(ref.same(ctx, got, want), 'parts')


@scenario()
def major(ctx):
    """Parts of other types give no words."""
    t = ctx.bytes('t', 1, b'tTeEaxX/ ;') + ctx.bytes('u', 1, b'eExt/') + b'xt/plain'
    v = t.lower().strip()
    text = v == b'text/plain' or v.split(b';')[0].strip().count(b'/') != 1 or (v.split(b';')[0].strip() == b'')
    got = body(ctx, b'Content-Type: ' + t + b'\n\nsome words\n')
    ctx.check(ref.same(ctx, got, [b'some', b'words'] if text else []), 'parts')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def same_everything(ctx, n):
    """No other token tells the encoding either."""
    text = b'w' + ctx.bytes('t', n, b'ab <\n') + b'rd'
    head = b'From: a@b\nSubject: Hi\nContent-Type: text/plain; charset=utf-8\n'
    a = everything(ctx, head + b'\n' + text)
    b = everything(ctx, head + b'Content-Transfer-Encoding: base64\n\n' + binascii.b2a_base64(text))
    ctx.check(ref.same(ctx, a, b), 'all tokens')


@scenario()
def many(ctx):
    """Many parts, and parts deep inside others."""
    n = ctx.choice('n', [25, 120])
    s = ctx.bytes('s', 1, b'a \n')
    want = [b'part%d' % i for i in range(n)]
    last = b'lastword' + s + b'endword'
    want += body(ctx, b'A: b\n\n' + last)
    if ctx.boolean('nested'):
        n = 25
        want = want[:n] + want[-len(body(ctx, b'A: b\n\n' + last)):]
        msg = b'Content-Type: text/plain\n\n' + last
        for i in range(n):
            msg = b'Content-Type: multipart/mixed; boundary=b%d.\n\n' % i + join(b'b%d.' % i, [b'\npart%d' % i, msg])
    else:
        msg = b'Content-Type: multipart/mixed; boundary=bb\n\n' + join(b'bb', [b'\npart%d' % i for i in range(n)] + [b'Content-Type: text/html\n\n' + last])
    ctx.check(ref.same(ctx, body(ctx, msg), want), 'parts')
