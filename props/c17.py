"""C17: inserting the exception header."""
import traceback

from sx.harness import scenario
from sbclassifier.message import insert_exception_header

META = dict(
    labels=['header block', 'blank line', 'body', 'one header', 'continuation', 'id header', 'details', 'exception text'],
    bounds='message texts: a header followed by up to 6 symbolic characters (thorough: 8), also with a fixed body after them, LF and CRLF; '
           'exception texts: up to 5 symbolic characters (thorough: 6) between fixed text, and 2 symbolic characters in texts of 90 characters; '
           'with and without an id',
    outside='texts whose first line is empty (no header block); ids with line breaks',
    assumptions=['the exception text is what traceback.print_exc / format_exc deliver (replaced by stand-ins)'],
)

MSG = 'a:\r\n \xe9'
EXC = 'ab:\r\n \t\x0b\x0c\x85\u2028\xe9\x00'
NAME = 'X-Spambayes-Exception: '


def run(ctx, text, details, mid):
    def print_exc(limit=None, file=None, chain=True):
        file.write(details)

    def format_exc(limit=None, chain=True):
        return details
    save = traceback.print_exc, traceback.format_exc
    traceback.print_exc, traceback.format_exc = print_exc, format_exc
    try:
        try:
            raise ValueError('x')
        except ValueError:
            return insert_exception_header(text, mid)
    finally:
        traceback.print_exc, traceback.format_exc = save


def split(text):
    """(header block, body) of a text with a non-empty header block"""
    for i in range(len(text)):
        if text[i] == '\n':
            if text[i + 1:i + 2] == '\n':
                return text[:i], text[i + 2:]
            if text[i + 1:i + 3] == '\r\n':
                return text[:i], text[i + 3:]
    if text[-1:] == '\n':
        text = text[:-1]
    return text, ''


def oracle(ctx, text, details, mid):
    out, d = run(ctx, text, details, mid)
    ctx.check(d == details, 'details')
    head, body = split(text)
    ctx.check(out[:len(head)] == head, 'header block')
    ctx.check(out[len(out) - len(body):] == body, 'body')
    t = out[len(head):len(out) - len(body)]
    if t[:2] == '\r\n':
        t = t[2:]
    else:
        ctx.check(t[:1] == '\n', 'header block')
        t = t[1:]
    ctx.check(t[len(t) - 4:] == '\r\n\r\n', 'blank line')
    lines = t[:len(t) - 4].split('\r\n')
    for x in lines:
        ctx.check('\r' not in x, 'continuation')
        ctx.check('\n' not in x, 'continuation')
    if mid:
        ctx.check(lines[-1] == 'X-Spambayes-MailId: ' + mid, 'id header')
        lines.pop()
    ctx.check(lines[0][:len(NAME)] == NAME, 'one header')
    for x in lines[1:]:
        ctx.check(x[:1] in (' ', '\t'), 'continuation')
    return lines


def squeeze(ctx, s):
    return [c for c in s if not c.isspace()]


@scenario(quick=[dict(n=6)], thorough=[dict(n=8)])
def message(ctx, n):
    text = 'A' + ctx.str('t', ctx.pick('n', n + 1), MSG)
    if ctx.boolean('more'):
        text += '\n\nB\r\n\r\nC\n'
    oracle(ctx, text, 'T\nE: x\n', ctx.choice('id', [None, '', 'i 1']))


@scenario(quick=[{}])
def any_char(ctx):
    """Any character at interesting places."""
    t = ['A: b\n', 'C: d\n', '\n', 'body\n', '\nmore']
    i = ctx.pick('i', 6)
    t.insert(i, ctx.str('c', 1))
    text = ''.join(t)
    if ctx.boolean('crlf'):
        text = text.replace('\n', '\r\n')
    ctx.assume(text[:1] != '\n')
    if text[:1] == '\r':
        ctx.assume(text[1:2] != '\n')
    oracle(ctx, text, 'T\nE: x\n', None)


@scenario(quick=[dict(n=5)], thorough=[dict(n=6)])
def exception(ctx, n):
    details = 'T\n  E' + ctx.str('d', ctx.pick('n', n + 1), EXC) + ctx.choice('end', ['', 'x', 'y\n'])
    lines = oracle(ctx, 'A: b\n\nC', details, None if n % 2 else 'id')
    text = ''.join([lines[0][len(NAME):]] + lines[1:])
    ctx.check(squeeze(ctx, text) == squeeze(ctx, details), 'exception text')


@scenario(quick=[{}])
def bare(ctx):
    """Only symbolic exception text."""
    details = ctx.str('d', ctx.pick('n', 4), EXC)
    lines = oracle(ctx, 'A: b\r\n\r\nC', details, 'id')
    text = ''.join([lines[0][len(NAME):]] + lines[1:])
    ctx.check(squeeze(ctx, text) == squeeze(ctx, details), 'exception text')


@scenario(quick=[{}])
def long_lines(ctx):
    i = ctx.choice('i', [0, 40, 74, 75, 76, 77, 78, 89])
    w = 'Some words in an exception text that is longer than one line of seventy-eight chars. '
    w = (w + w)[:90]
    details = w[:i] + ctx.str('c', 2, EXC + ',;') + w[i:] + '\n' + w
    lines = oracle(ctx, 'A: b\n\nC', details, None)
    text = ''.join([lines[0][len(NAME):]] + lines[1:])
    ctx.check(squeeze(ctx, text) == squeeze(ctx, details), 'exception text')
