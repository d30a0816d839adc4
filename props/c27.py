"""C27: repairing damaged base64 text."""
import binascii

from sx.harness import scenario
from sbclassifier.tokenizer import try_to_repair_damaged_base64

META = dict(
    labels=['bytes', 'decoded part and rest', 'unchanged'],
    bounds='texts of up to 6 symbolic characters over the alphabet (letters, +, /, =, blank, tab, CR, LF, -, an 8-bit and an escaped 8-bit character); '
           '4 arbitrary characters below 256; base64 lines with up to 4 symbolic characters at their start, middle, end, and after the padding '
           '(thorough: 8, 5 and 5 characters); lines of up to 5000 characters and up to 1500 lines',
    outside='characters that cannot come from an e-mail payload (lone surrogates other than escaped bytes)',
    assumptions=['binascii.a2b_base64 itself is modelled (validated against the real one by replay)'],
)

ALPHA = 'Qg/+= \t\r\n-\xe9\udce9'
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def line_end(text, i):
    """The end of the base64 line that starts at i (None if there is none),
    and whether the line has padding."""
    n = len(text)
    while i < n and text[i] in ' \t':
        i += 1
    while i < n and text[i] in B64:
        i += 1
    pad = False
    while i < n and text[i] == '=':
        pad = True
        i += 1
    while i < n and text[i] in ' \t':
        i += 1
    if i < n and text[i] == '\r':
        i += 1
    if i < n and text[i] == '\n':
        return i + 1, pad
    return None, pad


def oracle(ctx, text):
    got = try_to_repair_damaged_base64(text)
    ctx.check(isinstance(got, bytes), 'bytes')
    i = 0
    while True:
        j, pad = line_end(text, i)
        if j is None:
            break
        i = j
        if pad:
            break
    rest = text[i:].encode('utf-8', 'surrogateescape')
    if not i:
        ctx.check(got == rest, 'unchanged')
        return
    try:
        first = binascii.a2b_base64(text[:i])
    except binascii.Error:
        first = b''
    ctx.check(got == first + rest, 'decoded part and rest')


@scenario(quick=[dict(n=6)], thorough=[dict(n=8)])
def short(ctx, n):
    oracle(ctx, ctx.str('t', ctx.pick('n', n + 1), ALPHA))


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def any_chars(ctx, n):
    oracle(ctx, ctx.str('t', n))


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def lines(ctx, n):
    t = ['VGhpcyBpcyBh', ' \n', '  bG9uZyB0ZXh0', '==', '\r\n', 'bW9yZQ==\n', 'plain\xe9 text\n']
    t.insert(ctx.pick('i', len(t) + 1), ctx.str('t', n, ALPHA))
    oracle(ctx, ''.join(t))


@scenario()
def long_lines(ctx):
    """Lines of any length, and many of them."""
    n = ctx.choice('n', [60, 64, 72, 76, 80, 88, 1000, 5000, None])
    if n is None:
        k = ctx.choice('k', [100, 1500])
        return oracle(ctx, 'VGhpcyBpcyBh\n' * k + ctx.str('u', 1, ALPHA) + '\nbW9yZQ==\nplain\n')
    line = ('VGhpcyBpcyBh' * (n // 12 + 1))[:n]
    oracle(ctx, line + ctx.str('t', 1, ALPHA) + ctx.choice('end', ['\n', '\r\n', '']) + 'bW9yZQ==\n and more')
