"""C24: stripping special sections."""
import re

from sx.harness import scenario
from props import ref
from sbclassifier.strippers import (CommentStripper, NoframesStripper, Stripper,
                                    StyleStripper, UUencodeStripper)

META = dict(
    labels=['text', 'tokens'],
    bounds='Stripper with marks of one or two characters and an arbitrary separator: 7 symbolic bytes (thorough: 9); style, comment, noframes and '
           'uuencode strippers: texts of up to 3 pieces (thorough: 4), each an opening mark, closing mark, part of one, plain text, or 1 to 2 symbolic bytes; up to 1100 sections, or sections of 3000 bytes',
    outside='texts with more pieces; HTML tags and entities (C26)',
)


class Both(Stripper):
    """Reports where the opening marks were."""

    def tokenize(self, m):
        return [b'%d' % m.start()]


@scenario(quick=[dict(n=7)], thorough=[dict(n=9)])
def generic(ctx, n):
    t = ctx.bytes('t', ctx.pick('n', n + 1), b'<>-x\n')
    end, start_re, end_re, start = ctx.choice('marks', [
        (ref.lit(b'>'), rb'<', rb'>', ref.lit(b'<')),
        (ref.lit(b'->', b'\n'), rb'<-', rb'->|\n', ref.lit(b'<-')),
    ])
    sep = ctx.choice('sep', [b'', b'|'])
    s = Both(re.compile(start_re).search, re.compile(end_re).search)
    s.separator = sep
    text, tokens = s.analyze(t)
    want, marks = ref.strip(t, start, end, sep)
    ctx.check(text == want, 'text')
    ctx.check([int(x) for x in tokens] == [m[0] for m in marks], 'tokens')


PIECES = {
    'style': [b'<style>', b'< \nstyle', b'<style x="y"', b'>', b'</style>', b'</style', b'</style >', b'<styles>', b'ab'],
    'comment': [b'<!--', b'-->', b'<!-', b'--', b'>', b'< comment a>', b'<comment', b'</comment>', b'</comment >', b'ab'],
    'noframes': [b'<noframes>', b'< noframes ', b'>', b'</noframes', b'</noframes>', b'<noframes x>', b'ab'],
    'uu': [b'begin 644 a.b/c', b'begin 6', b'begin ', b'\n', b'end\n', b'end', b' \n', b'M7V%', b'\r\n'],
}
REAL = {
    'style': (StyleStripper.analyze, ref.style_start, ref.lit(b'</style>'), b'<> s_\n'),
    'comment': (CommentStripper.analyze, ref.comment_start, ref.lit(b'-->', b'</comment>'), b'<>-! c\n'),
    'noframes': (NoframesStripper.analyze, ref.noframes_start, ref.noframes_end, b'<> /s\n'),
    'uu': (UUencodeStripper().analyze, ref.uu_start, ref.uu_end, b'bd \n\r.6'),
}


def oracle(ctx, kind, t):
    analyze, start, end, _ = REAL[kind]
    text, tokens = analyze(t)
    want, marks = ref.strip(t, start, end)
    ctx.check(text == want, 'text')
    toks = []
    if kind == 'uu':
        for i, _e in marks:
            _e, mode, name = ref.uu_parts(t, i)
            toks.append(b'uuencode mode:' + mode)
            toks += [b'uuencode:' + x for x in ref.filename_tokens(name)]
    ctx.check(len(tokens) == len(toks), 'tokens')
    ctx.check(ctx.all([a == b for a, b in zip(tokens, toks)]), 'tokens')


def pieces(ctx, kind, k, sym):
    out = b''
    for j in range(k):
        p = ctx.pick('p%d' % j, len(PIECES[kind]) + 2)
        if p < len(PIECES[kind]):
            out = out + PIECES[kind][p]
        elif p == len(PIECES[kind]) and sym:
            out = out + ctx.bytes('s%d' % j, 2, REAL[kind][3])
    return out


KINDS = ('style', 'comment', 'noframes', 'uu')


@scenario(quick=[dict(kind=x, k=3) for x in KINDS], thorough=[dict(kind=x, k=4) for x in KINDS])
def sections(ctx, kind, k):
    oracle(ctx, kind, pieces(ctx, kind, k, True))


WINDOW = {
    'style': b'ab<style>cd</style>ef</style>',
    'comment': b'ab<!--cd-->ef-->',
    'noframes': b'a<noframes>c</noframes>d</noframes >',
    'comment2': b'ab< comment x>cd</comment>ef</comment>',
    'uu': b'a\nbegin 644 f.c\nM7V\nend\nb\n',
}
REAL['comment2'] = REAL['comment']


@scenario(quick=[dict(kind=x) for x in WINDOW])
def any_byte(ctx, kind):
    """Any byte at any place of a text with one section (put in, or in place
    of the byte there)."""
    w = WINDOW[kind]
    i = ctx.pick('i', len(w) + 1)
    j = i + ctx.pick('replace', 2)
    oracle(ctx, kind, w[:i] + ctx.bytes('b', 1) + w[j:])


@scenario(quick=[dict(kind=x) for x in KINDS])
def many(ctx, kind):
    """Long texts with many sections."""
    i = ctx.pick('i', 2)
    n = ctx.choice('n', [30, 1100])
    body, tail = {'style': (b'ab<style>cd</style>', b'x<style>y'), 'comment': (b'ab<!--cd-->', b'x<!--y'),
                  'noframes': (b'a<noframes>c</noframes>', b'x<noframes>y'), 'uu': (b'a\nbegin 644 f.c\nM7V\nend\n', b'x\nbegin 644 f\nM7\n')}[kind]
    if i:
        body = body[:2] + b'z' * 70 + body[2:-1] + b'w' * 3000 + body[-1:]
        n = 3
    oracle(ctx, kind, body * n + ctx.bytes('s', 1) + tail + ctx.choice('end', [b'', body[-11:]]))
