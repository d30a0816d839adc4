"""C23: body words."""
from sx.harness import scenario
from props import ref

META = dict(
    labels=['tokens', 'number'],
    bounds='one word of every length from 0 to 45 (and 99 to 101, 250, 1012, 5009, 20000) with 2 symbolic bytes (thorough: 3) at its start, in the middle and at its end, in a plain text body; '
           'texts of up to 5 symbolic bytes (thorough: 6) of all white-space and word classes, also with long words around; any byte between words; texts of up to 15000 words',
    outside='HTML, URLs and other special sections in the text (C24 to C26)',
)

WORD = b'@.aB\xe9\x7f'
TEXT = b'ab@. \n\t\x0b\x0c\x1c\x85\xa0\xff'


def oracle(ctx, body):
    got = ref.body_tokens(body)
    want = []
    for w in ref.words(body.lower()):
        want += ref.word_tokens(w)
    ctx.check(len(got) == len(want), 'number')
    ctx.check(ref.same(ctx, got, want), 'tokens')


LENGTHS = list(range(46)) + [99, 100, 101, 250, 1012, 5009, 20000]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def one_word(ctx, n):
    k = ctx.choice('len', LENGTHS)
    s = ctx.bytes('w', min(k, n), WORD)
    if k <= n:
        return oracle(ctx, s)
    i = ctx.choice('at', sorted({0, (k - n) // 2, k - n}))
    fill = b'x' * (k - n)
    if ctx.boolean('mail'):
        if k < n + 4:
            return
        fill = b'm@n.' + fill[4:]
    oracle(ctx, fill[:i] + s + fill[i:])


@scenario(quick=[dict(n=5)], thorough=[dict(n=6)])
def text(ctx, n):
    oracle(ctx, ctx.bytes('t', ctx.pick('n', n + 1), TEXT))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def between(ctx, n):
    a = ctx.choice('a', [b'', b'ab', b'abcdefghijkl', b'me@example.com', b'Loooooooooooooong'])
    b = ctx.choice('b', [b'', b'c', b'some', b'@x.y1234567890\xe9', b'much.longer@than-forty-characters.example.org'])
    oracle(ctx, a + ctx.bytes('t', n, TEXT) + b)


@scenario()
def any_byte(ctx):
    t = b'ab some verylongword12 a.b@example.com \xe9\xe9\xe9abcdefghijkl'
    i = ctx.pick('i', len(t) + 1)
    j = i + ctx.pick('replace', 2)
    c = ctx.bytes('b', 1)
    ctx.assume(ctx.all([c != b'<', c != b'&']))
    oracle(ctx, t[:i] + c + t[j:])


@scenario()
def many(ctx):
    """Long texts."""
    t = b'some words of me@example.com w%d-%d ' * ctx.choice('n', [30, 3000])
    ctx.check(ref.same(ctx, ref.body_tokens(t + ctx.bytes('s', 1, b'a \n') + b'lastword'), ref.body_tokens(b'some words of me@example.com w%d-%d ' + ctx.bytes('s', 1, b'a \n') + b'lastword')), 'tokens')
    oracle(ctx, b' '.join(b'w%d' % i for i in range(ctx.choice('m', [50, 400]))) + ctx.bytes('s', 1, b'a \n') + b'lastword')
