"""C26: HTML markup in body text."""
from sx.harness import scenario
from props import ref
from props.ref import body_tokens

META = dict(
    labels=['tokens', 'plain words'],
    bounds='HTML bodies of up to 3 pieces (thorough: 4): tags and parts of tags, breaking tags, entities, text and symbolic bytes; 5 symbolic bytes (thorough: 6) of '
           'the characters that matter between two word halves; entities with 3 symbolic bytes (thorough: 4); tags of 250 to 260 characters; up to 1100 tags, breaks or entities; any byte at any place of a short '
           'HTML text',
    outside='the special sections of C24, URLs (C25); the virus clues (compared only as extra tokens)',
    assumptions=['&nbsp;, <p> and <br> are recognised exactly as written (after lower-casing); <br/> and <p class=x> count as other tags'],
)

HTML = b'Content-Type: text/html\n'


def clean(body):
    t = ref.entities(body).lower()
    for start, end in ((ref.style_start, ref.lit(b'</style>')), (ref.comment_start, ref.lit(b'-->', b'</comment>')),
                       (ref.noframes_start, ref.noframes_end)):
        t = ref.strip(t, start, end)[0]
    return ref.tags(ref.breaks(t))


def oracle(ctx, body):
    got = [t for t in body_tokens(body, HTML) if not t.startswith(b'virus:')]
    want = []
    for w in ref.words(clean(body)):
        want += ref.word_tokens(w)
    ctx.check(ref.same(ctx, got, want), 'tokens')
    if not ctx.data.get('tags') and b'<' not in body and b'&' not in body:
        plain = []
        for w in ref.words(body.lower()):
            plain += ref.word_tokens(w)
        ctx.check(ref.same(ctx, got, plain), 'plain words')


PIECES = [b'hel', b'lo', b' ', b'<', b'>', b'<b>', b'</B>', b'<p>', b'<Br>', b'<br/>', b'<p class="x">', b'&nbsp;', b'&#', b'108', b';', b'<<', b'<>']


@scenario(quick=[dict(k=3)], thorough=[dict(k=4)])
def pieces(ctx, k):
    t = b'ab'
    for j in range(k):
        p = ctx.pick('p%d' % j, len(PIECES) + 1)
        t = t + (PIECES[p] if p < len(PIECES) else ctx.bytes('s%d' % j, 1, b'<>& p;1\xe9'))
    oracle(ctx, t + b'cde')


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def inside(ctx, n):
    oracle(ctx, b'abc' + ctx.bytes('t', ctx.pick('n', n + 1), b'<>& p\n"') + b'def>ghi')


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def entity(ctx, n):
    oracle(ctx, b'ab&#' + ctx.bytes('t', n, b'01235679;x&#') + b';cd')


@scenario()
def digits(ctx):
    """Entities with symbolic digits."""
    d = ctx.choice('p', [b'', b'0', b'1', b'2', b'25', b'00', b'12', b'111']) + ctx.bytes('d', ctx.choice('n', [1, 2]), b'012345678')
    oracle(ctx, b'ab&#' + d + b';cd')


@scenario()
def long_tag(ctx):
    n = ctx.choice('n', [1, 2, 250, 254, 255, 256, 257, 258, 260])
    c = ctx.bytes('c', 1)
    i = ctx.choice('i', [0, n // 2, n - 1])
    oracle(ctx, b'abc<' + b'x' * i + c + b'y' * (n - i - 1) + b'>def')


W = b'a<b>&#65;bc<p>d&nbsp;e</b>\nfgh < ij >'


@scenario()
def any_byte(ctx):
    i = ctx.pick('i', len(W) + 1)
    j = i + ctx.pick('replace', 2)
    oracle(ctx, W[:i] + ctx.bytes('b', 1) + W[j:])


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def plain(ctx, n):
    """Neither < nor &."""
    t = b'Some ' + ctx.bytes('t', n, b'aB> ;#"\n\xe9') + b'word'
    oracle(ctx, t)


@scenario()
def many(ctx):
    """Long texts with many tags, breaks and entities."""
    piece = ctx.choice('p', [b'a<b>b', b'c<p>d', b'e&nbsp;f', b'g&#65;h', b' i < j '])
    t = piece * ctx.choice('n', [30, 1100]) + ctx.bytes('s', 1, b'<> x') + b'<b>end&#65;ed<br>'
    oracle(ctx, t)
