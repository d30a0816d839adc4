"""C35: the optional clues of the body."""
import binascii
import contextlib
import math

from sx.harness import scenario
from props import ref
import sbclassifier.tokenizer as tokenizer
from sbclassifier.message import from_bytes

META = dict(
    labels=['octets', 'image size', 'replaced', 'short runs', 'long skips', 'nothing else'],
    bounds='octet-stream parts with 3 arbitrary bytes (thorough: 4), prefix sizes up to 6, plain, base64 or quoted-printable, of several sizes, 2 parts of 7 kinds; '
           'up to 3 images of 11 sizes, with white space around; texts with 3 arbitrary bytes (thorough: 4) and character references with 3 symbolic digits; '
           'runs of short words in texts of 7 symbolic characters (thorough: 9); long words with 2 symbolic characters (thorough: 3)',
    outside='reading the text in images, which needs programs that are not part of the package',
)


@contextlib.contextmanager
def option(**kw):
    saved = {k: getattr(tokenizer, k) for k in kw}
    for k in kw:
        setattr(tokenizer, k, kw[k])
    try:
        yield
    finally:
        for k in kw:
            setattr(tokenizer, k, saved[k])


def tokens(data, **kw):
    with option(**kw):
        return list(tokenizer.tokenize(from_bytes(data)))


def clues(ctx, data, prefix, want, label, **kw):
    """The option adds just these tokens."""
    plain = tokens(data)
    got = tokens(data, **kw)
    added = [t for t in got if t.startswith(prefix)]
    ctx.check(ref.same(ctx, added, want), label)
    ctx.check(ref.same(ctx, [t for t in got if not t.startswith(prefix)], [t for t in plain if not t.startswith(prefix)]), 'nothing else')


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def octets(ctx, n):
    size = ctx.pick('size', 7)
    enc = ctx.pick('enc', 2)
    s = ctx.choice('pre', [b'', b'MZ', b'longer text']) + ctx.bytes('s', n)
    if enc == 0:
        # (line ends are those of the message)
        ctx.assume(ctx.all([c != 13 for c in s]))
        part = b'Content-Type: application/octet-stream\n\n' + s
    else:
        part = b'Content-Transfer-Encoding: base64\nContent-Type: Application/OCTET-stream; name=x.exe\n\n' + binascii.b2a_base64(s)
    msg = b'Subject: Hi\n' + part
    clues(ctx, msg, b'octet:', [b'octet:' + s[:size]], 'octets', CHECK_OCTETS=True, OCTET_PREFIX_SIZE=size)


PARTS = [
    (b'Content-Type: application/octet-stream\n\nplain text\n', b'plain'), (b'Content-Type: application/octet-stream; name="a.b"\nContent-Transfer-Encoding: quoted-printable\n\n=4D=\nZabc\n', b'MZabc'),
    (b'Content-Type: APPLICATION/octet-stream\n\n', b''), (b'Content-Type: application/octet\n\nother\n', None), (b'Content-Type: text/plain\n\nsome words\n', None),
    (b'Content-Type: message/rfc822\n\nSubject: x\nContent-Type: application/octet-stream\n\n1\n2\n', b'1\n2'), (b'Content-Type: image/png\n\nxyz\n', None),
]


@scenario(quick=[dict(k=2)], thorough=[dict(k=3)])
def octet_parts(ctx, k):
    body = b''
    want = []
    for i in range(k):
        part, clue = ctx.choice('part%d' % i, PARTS)
        if part.endswith(b'words\n'):
            part = part + ctx.bytes('s%d' % i, 2, b'a <') + b'\n'
        body += b'--bb\n' + part
        if clue is not None:
            want.append(b'octet:' + clue)
    msg = b'Content-Type: multipart/mixed; boundary=bb\n\n' + body + b'--bb--\n'
    clues(ctx, msg, b'octet:', want, 'octets', CHECK_OCTETS=True)


@scenario(quick=[dict(k=2)], thorough=[dict(k=3)])
def images(ctx, k):
    """All images count, by their real size."""
    total = 0
    body = b''
    for i in range(k):
        size = ctx.choice('size%d' % i, [0, 1, 2, 3, 5, 6, 11, 12, 90, 91, 70001] if i < 2 else [0, 5, 12, 91])
        # (white space is part of an image)
        data = (b' ' + b'x' * (size - 3) + b'\n ') if size > 4 else b'x' * size
        kind = ctx.pick('kind%d' % i, 5)
        if kind == 0:
            body += b'--bb\nContent-Type: image/png\n\n' + data + b'\n'
            total += size
        elif kind == 1:
            body += b'--bb\nContent-Type: IMAGE/' + ctx.bytes('sub%d' % i, 1, b'agX') + b'\nContent-Transfer-Encoding: base64\n\n' + binascii.b2a_base64(data)
            total += size
        elif kind == 2:
            body += b'--bb\nContent-Type: application/image\n\n' + data + b'\n'
        elif kind == 3:
            body += b'--bb\nContent-Type: message/rfc822\n\nContent-Type: image/jpeg\nContent-Transfer-Encoding: quoted-printable\n\n' + b'=3D' * size + b'\n'
            total += size
        else:
            body += b'--bb\nContent-Type: text/image\n\n' + data + b'\n'
    msg = b'Content-Type: multipart/mixed; boundary=bb\n\n' + body + b'--bb--\n'
    want = []
    if total:
        # the nearest power of two
        e = 0
        while 2 * 4 ** e < total * total:
            e += 1
        want = [b'image-size:2**%d' % e]
    clues(ctx, msg, b'image-size:', want, 'image size', IMAGE_SIZE=True)


def replace(ctx, text):
    out = b''
    for i in range(len(text)):
        c = text[i]
        ok = (c >= 32) & (c < 127) | (c == 9) | (c == 10) | (c == 13)
        out = out + (text[i:i + 1] if ok else b'?')
    return out


def body(data, **kw):
    with option(**kw):
        return [ref.as_bytes(t) for t in tokenizer.Tokenizer().tokenize_body(from_bytes(b'Content-Type: text/plain\n\n' + data))]


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def nonascii(ctx, n):
    text = ctx.choice('pre', [b'', b'some', b'more th\xe9 ', b'abcdefghijk']) + ctx.bytes('s', n) + ctx.choice('post', [b'', b'w\x80rd'])
    ctx.assume(ctx.all([c != 38 for c in text]))
    ctx.check(ref.same(ctx, body(text, REPLACE_NONASCII_CHARS=True), body(replace(ctx, text))), 'replaced')


@scenario()
def nonascii_entity(ctx):
    d = ctx.bytes('d', 3, b'0123456789')
    v = int(d)
    ctx.assume(ctx.all([v != 38, v != 59]))
    # (no other character is in the way)
    byte = bytes([v]) if v < 256 else b'?'
    got = body(b'some&#' + d + b';\xe9word', REPLACE_NONASCII_CHARS=True)
    ctx.check(ref.same(ctx, got, body(replace(ctx, b'some' + byte + b'\xe9word'))), 'replaced')


@scenario(quick=[dict(n=7)], thorough=[dict(n=9)])
def short(ctx, n):
    text = ctx.choice('pre', [b'', b'V I A G R A ', b'some words a b', b'a b verylongwordforatoken c ']) + ctx.bytes('s', n, b'a \n') + ctx.choice('post', [b'', b' b c', b' longer'])
    longest = run = 0
    for w in text.split():
        run = run + 1 if len(w) < 3 else 0
        longest = max(longest, run)
    want = [b'short:%d' % (longest.bit_length() - 1)] if longest else []
    clues(ctx, b'Content-Type: text/plain\n\n' + text, b'short:', want, 'short runs', X_SHORT_RUNS=True)


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def skips(ctx, n):
    """Without long skips the other tokens stay."""
    w = ctx.bytes('s', n, b'a@. \xe9')
    text = ctx.choice('pre', [b'abcdefghijk', b'\xe9\xe8cdefghijklmnopq', b'me@somewhere.']) + w + ctx.choice('post', [b'', b'bcdefghijklmn', b' and more'])
    data = b'Subject: ' + ctx.choice('subj', [b'abcdefghijklmnopq', b'Short']) + b'\nContent-Type: text/plain\n\n' + text
    plain = tokens(data)
    got = tokens(data, GENERATE_LONG_SKIPS=False)
    # (no word of these texts looks like a skip)
    ctx.check(ref.same(ctx, got, [t for t in plain if not t.startswith(b'skip:') and not t.startswith(b'subject:skip:')]), 'long skips')
