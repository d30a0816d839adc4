"""C25: URLs."""
from sx.harness import scenario
from props import ref
from sbclassifier.strippers import URLStripper

META = dict(
    labels=['text', 'tokens'],
    bounds='a URL whose rest is up to 4 symbolic bytes of any separator class (thorough: 5) with different text after it (2 symbolic bytes with different text on both sides; thorough: 3); 3 arbitrary bytes after a protocol; texts of up to 3 pieces '
           '(thorough: 4) of URLs, parts of URLs and symbolic bytes; a URL of 60 to 5000 bytes; any byte at any place of a text with two URLs; up to 1100 URLs',
    outside='the options FANCY_URL_RECOGNITION and X_PICK_APART_URLS (off by default); upper-case protocols (the tokenizer lower-cases the text first)',
)

ALPHA = b'a/.:?!;@%> "\x7f\xff'


def oracle(ctx, t):
    text, tokens = URLStripper().analyze(t)
    want, toks = ref.urls(t)
    ctx.check(text == want, 'text')
    ctx.check(len(tokens) == len(toks), 'tokens')
    ctx.check(ctx.all([a == b for a, b in zip(tokens, toks)]), 'tokens')


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def rest(ctx, n):
    oracle(ctx, b'see http://' + ctx.bytes('t', ctx.pick('n', n + 1), ALPHA) + ctx.choice('after', [b'', b'.', b' http://z']))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def around(ctx, n):
    oracle(ctx, ctx.choice('before', [b'', b'see ', b'http', b'<a href="']) + ctx.choice('p', [b'http', b'https', b'ftp'])
           + b'://' + ctx.bytes('t', ctx.pick('n', n + 1), ALPHA) + ctx.choice('after', [b'', b'x y', b'.', b'">http://z']))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def any_bytes(ctx, n):
    oracle(ctx, b'ahttp://' + ctx.bytes('t', n) + b'e.f b')


@scenario(quick=[dict(tops=[60, 255, 256, 1000, 5000])])
def long_url(ctx, tops):
    """URLs of any length are taken whole."""
    n = ctx.choice('n', tops) + ctx.pick('k', 3) - 2
    t = b'http://a.b/' + b'cd' * (n // 2) + b'c' * (n % 2) + ctx.choice('sep', [b'/', b'.', b'?']) * ctx.pick('m', 2)
    oracle(ctx, t + ctx.bytes('t', 2, ALPHA) + b' x')


PIECES = [b'http://', b'https:/', b'/', b's://a.b/c', b'ftp://x', b'.', b' ', b'ht', b'tp']


@scenario(quick=[dict(k=3)], thorough=[dict(k=4)])
def pieces(ctx, k):
    t = b''
    for j in range(k):
        p = ctx.pick('p%d' % j, len(PIECES) + 1)
        t = t + (PIECES[p] if p < len(PIECES) else ctx.bytes('s%d' % j, 1))
    oracle(ctx, t)


W = b'a http://b.c/d?e=f, ftp://g/.\n'


@scenario()
def any_byte(ctx):
    i = ctx.pick('i', len(W) + 1)
    j = i + ctx.pick('replace', 2)
    oracle(ctx, W[:i] + ctx.bytes('b', 1) + W[j:])


@scenario()
def many(ctx):
    """Long texts with many URLs."""
    t = b'see http://a.b/c and ' * ctx.choice('n', [30, 1100]) + ctx.choice('sep', [b'', b'ftp://']) + ctx.bytes('s', 1) + b'.x.y? https://z'
    oracle(ctx, t)
