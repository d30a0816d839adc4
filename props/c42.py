"""C42: virus clues, and clues in what is removed from a text."""
from sx.harness import scenario
from props import ref
import sbclassifier.tokenizer as tokenizer
from sbclassifier.message import from_bytes

META = dict(
    labels=['virus', 'all clues'],
    bounds='24 complete or nearly complete marks with up to 2 arbitrary bytes (thorough: 3) before, after or at any place inside them; character references with 2 symbolic digits '
           'inside marks; marks in 12 surroundings (comment, style, noframes, tag, URL, uuencoded section, nested and encoded parts); whole texts of 3 pieces (thorough: 4) of 18, and '
           'two of 7 sections next to, inside or across each other, with a symbolic byte',
    outside='other characters than those of the pieces in whole texts (C23 to C26 vary them)',
)

NAMES = (b'script', b'iframe')


def in_word(t, i):
    return i >= 0 and i < len(t) and t[i] in ref.WORD


def mark_at(t, i):
    """The end of the dangerous mark at i, or None."""
    if t[i] == 60:
        j = i + 1
        if ref.at(t, j, b'/'):
            j += 1
        j = ref.skip_space(t, j)
        for name in NAMES:
            if ref.at(t, j, name):
                return None if in_word(t, j + 6) else j + 6
        return None
    if in_word(t, i - 1):
        return None
    for name, value in ((b'src=', b'cid:'), (b'height=', b'0'), (b'width=', b'0')):
        if ref.at(t, i, name):
            j = i + len(name)
            if j < len(t) and t[j] in b'\'"':
                j += 1
            return j + len(value) if ref.at(t, j, value) else None
    return None


def virus(t):
    out = []
    for i in range(len(t)):
        e = mark_at(t, i)
        if e is not None:
            out.append(b'virus:' + t[i:e])
    return out


def check(ctx, body, text=None):
    """`text` is what the body is decoded to."""
    got = [x for x in (ref.as_bytes(t) for t in tokenizer.Tokenizer().tokenize_body(from_bytes(body))) if x.startswith(b'virus:')]
    ctx.check(ref.same(ctx, got, virus(ref.entities(text).lower())), 'virus')


MARKS = [b'<script', b'</Script', b'< iframe', b'</\n iFRAME', b'<scriptx', b'<\x0b/script', b'<iframes>', b'script>', b'<ascript', b' src=cid:', b'SRC="cid:', b"src='CID:", b'src=""cid:',
         b' src= cid:', b'asrc=cid:', b'src=http:', b' height=0', b'Width="0"', b"width='00", b'height= 0', b'heigh=0', b'height=10', b'-width=0', b'<src=cid:']
PLAIN = b'Content-Type: text/plain\n\n'


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def around(ctx, n):
    m = ctx.choice('m', MARKS)
    where = ctx.pick('where', 2)
    s = ctx.bytes('s', n)
    ctx.assume(ctx.all([c != 38 for c in s]))
    t = [s + m + b'>', b'ab ' + m + s][where]
    check(ctx, PLAIN + t, t)


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)])
def within(ctx, n):
    """Some bytes at any place of a mark."""
    m = ctx.choice('m', MARKS)
    i = ctx.pick('i', len(m) + 1)
    drop = ctx.pick('drop', 2)
    s = ctx.bytes('s', n)
    ctx.assume(ctx.all([c != 38 for c in s]))
    t = b'a ' + m[:i] + s + m[i + drop:] + b' b' + m
    check(ctx, b'Content-Type: text/html\n\n' + t, t)


@scenario()
def entity(ctx):
    """A character reference in place of one of the characters."""
    m = ctx.choice('m', [b'<script>', b'</iframe ', b' src="cid:', b'height=0'])
    i = ctx.pick('i', len(m))
    d = ctx.choice('d', [b'', b'1', b'000']) + ctx.bytes('s', 2, b'0123456789')
    t = b'some' + m[:i] + b'&#' + d + b';' + m[i + 1:]
    check(ctx, b'Content-Type: text/html\n\n' + t, t)


PLACES = [b'<!-- %s -->', b'<style> %s </style>', b'<noframes>%s</noframes>', b'<a b="%s">', b'http://a.b/?%s', b'begin 644 a.b\n%s\nend\n', b'word%s', b'%s' * 3, b'x' * 300 + b'%s', b'many words ' * 800 + b'%s', b'<!-- <style>%s']
PART = b'Content-Type: multipart/mixed; boundary=bb\n\n--bb\nContent-Type: application/x-y\n\n<iframe\n--bb\nContent-Type: %s\n\n%s\n--bb--\n'


@scenario()
def places(ctx):
    m = ctx.choice('m', MARKS)
    p = ctx.pick('p', len(PLACES) + 3)
    s = ctx.bytes('s', 1, b' =<"a0/')
    if p < len(PLACES):
        t = PLACES[p].replace(b'%s', m + s)
        check(ctx, PLAIN + t, t)
    elif p == len(PLACES):
        # (the other part is no text)
        check(ctx, PART.replace(b'%s', b'text/html', 1).replace(b'%s', m + s), m + s)
    elif p == len(PLACES) + 1:
        t = m + s
        check(ctx, PART.replace(b'%s', b'message/rfc822', 1).replace(b'%s', b'Content-Type: text/plain\n\n' + t), t)
    else:
        b = m + s
        check(ctx, b'Content-Type: text/x-any\nContent-Transfer-Encoding: quoted-printable\n\n' + b.replace(b'=', b'=3D').replace(b'<', b'=3C'), b)


# (in the order in which they are removed)
SECTIONS = ((ref.style_start, ref.lit(b'</style>')), (ref.comment_start, ref.lit(b'-->', b'</comment>')), (ref.noframes_start, ref.noframes_end))


def all_tokens(body):
    t = ref.entities(body).lower()
    out = virus(t)
    rest, marks = ref.strip(t, ref.uu_start, ref.uu_end)
    for i, e in marks:
        _, mode, name = ref.uu_parts(t, i)
        out.append(b'uuencode mode:' + mode)
        out += [b'uuencode:' + x for x in ref.filename_tokens(name)]
    t, toks = ref.urls(rest)
    out += toks
    for start, end in SECTIONS:
        t = ref.strip(t, start, end)[0]
    for w in ref.words(ref.tags(ref.breaks(t))):
        out += ref.word_tokens(w)
    return out


PIECES = [b'<!--', b'-->', b'<style>', b'</style>', b'<noframes>', b'</noframes>', b'http://a.b/c', b'\nbegin 644 f.c\n', b'\nend\n', b'<iframe src=cid:1', b'<script>', b' longer words ',
          b'wo', b'>', b'<br>', b'&#60;', b'ftp://<!--x', b'<b href="https://x.y/">']


@scenario(quick=[dict(k=3)], thorough=[dict(k=4)])
def together(ctx, k):
    """The clues of a text with several of these."""
    t = b'some'
    for j in range(k):
        t = t + ctx.choice('p%d' % j, PIECES)
        if j == 1:
            t = t + ctx.bytes('s', 1, b'a /">\n')
    t = t + b'rds'
    got = [ref.as_bytes(x) for x in tokenizer.Tokenizer().tokenize_body(from_bytes(b'Content-Type: text/html\n\n' + t))]
    ctx.check(ref.same(ctx, got, all_tokens(t)), 'all clues')


OPEN = [b'<style>', b'<!-- ', b'<noframes>', b'http://', b'\nbegin 644 f.c\n', b'<b ', b'<comment>']
CLOSE = [b'</style>', b'-->', b'</noframes>', b' ', b'\nend\n', b'>', b'</comment>']


@scenario()
def crossed(ctx):
    """Two sections one after the other, nested or crossed."""
    i = ctx.pick('i', len(OPEN))
    j = ctx.pick('j', len(OPEN))
    a, b, c, d = OPEN[i], OPEN[j], CLOSE[i], CLOSE[j]
    o = ctx.choice('o', [(a, b, c, d), (a, b, d, c), (a, c, b, d)])
    k = ctx.pick('k', 5)
    texts = [b'one', b'two', b'three', b'four', b'five']
    texts[k] = texts[k][:1] + ctx.bytes('s', 1, b'a /">\n') + texts[k][1:]
    t = texts[0]
    for x, y in zip(o, texts[1:]):
        t = t + x + y
    got = [ref.as_bytes(x) for x in tokenizer.Tokenizer().tokenize_body(from_bytes(b'Content-Type: text/html\n\n' + t))]
    ctx.check(ref.same(ctx, got, all_tokens(t)), 'all clues')
