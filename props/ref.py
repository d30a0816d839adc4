"""Independent descriptions of what the strippers and the tokenizer do (used as
oracles; written from the property texts, without regular expressions)."""

from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import Tokenizer

SPACE = b' \t\n\r\x0b\x0c'
WORD = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
SEPS = b';?:@&=+,$.'


def skip_space(t, i):
    while i < len(t) and t[i] in SPACE:
        i += 1
    return i


def skip_nonspace(t, i):
    while i < len(t) and t[i] not in SPACE:
        i += 1
    return i


def at(t, i, lit):
    return t[i:i + len(lit)] == lit


def tag_open(t, i, name, rest, boundary=False):
    """The end of "<" space* name at i, followed by space* and ">" if `rest` is
    false, otherwise by anything up to ">"; None if it is not there."""
    if not at(t, i, b'<'):
        return None
    i = skip_space(t, i + 1)
    if not at(t, i, name):
        return None
    i += len(name)
    if boundary and i < len(t) and t[i] in WORD:
        return None
    if rest:
        while i < len(t) and t[i] != 62:
            i += 1
    else:
        i = skip_space(t, i)
    return i + 1 if at(t, i, b'>') else None


def lit(*lits):
    def match(t, i):
        for x in lits:
            if at(t, i, x):
                return i + len(x)
        return None
    return match


def style_start(t, i):
    return tag_open(t, i, b'style', True, True)


def comment_start(t, i):
    return i + 4 if at(t, i, b'<!--') else tag_open(t, i, b'comment', True)


def noframes_start(t, i):
    return tag_open(t, i, b'noframes', False)


def noframes_end(t, i):
    if not at(t, i, b'</noframes'):
        return None
    i = skip_space(t, i + 10)
    return i + 1 if at(t, i, b'>') else None


def uu_start(t, i):
    """"begin" mode name, alone on a line (white space in it may be line
    ends, too)."""
    r = uu_parts(t, i)
    return r and r[0]


def uu_parts(t, i):
    if i and t[i - 1] != 10:
        return None
    if not at(t, i, b'begin'):
        return None
    j = skip_space(t, i + 5)
    if j == i + 5:
        return None
    m0, m1 = j, skip_nonspace(t, j)
    f0 = skip_space(t, m1)
    f1 = skip_nonspace(t, f0)
    if m1 == m0 or f1 == f0:
        # "begin x" where the white space is split differently needs two
        # words in any case
        return None
    # the longest run of white space after the name that ends at a line end
    e = skip_space(t, f1)
    while e >= f1:
        if e == len(t) or t[e] == 10:
            return e, t[m0:m1], t[f0:f1]
        e -= 1
    return None


def uu_end(t, i):
    if i and t[i - 1] != 10:
        return None
    if not at(t, i, b'end'):
        return None
    j = skip_space(t, i + 3)
    k = j
    while k > i + 3:
        if t[k - 1] == 10:
            return k
        k -= 1
    return None


def find(match, t, i):
    while i <= len(t):
        e = match(t, i)
        if e is not None:
            return i, e
        i += 1
    return None


def strip(t, start, end, separator=b''):
    """The text without complete sections, and the (text, start, end) of the
    opening marks seen."""
    kept = []
    marks = []
    i = 0
    while True:
        s = find(start, t, i)
        if s is None:
            kept.append(t[i:])
            break
        marks.append(s)
        e = find(end, t, s[1])
        if e is None:
            kept.append(t[i:s[0]])
            kept.append(t[s[0]:])
            break
        kept.append(t[i:s[0]])
        i = e[1]
    out = kept[0]
    for k in kept[1:]:
        out = out + separator + k
    return out, marks


def split_any(t, seps):
    parts = []
    i = 0
    for j in range(len(t)):
        if t[j] in seps:
            parts.append(t[i:j])
            i = j + 1
    parts.append(t[i:])
    return parts


def filename_tokens(fname):
    toks = [b'fname:' + fname]
    comps = split_any(fname, b'/\\:')
    for c in comps:
        if len(comps) > 1:
            toks.append(b'fname comp:' + c)
        pieces = split_any(c, SEPS)
        if len(pieces) > 1:
            toks += [b'fname piece:' + p for p in pieces]
    return toks


def url_at(t, i):
    """(protocol, rest) of the URL that starts at i, or None."""
    for proto in (b'https', b'http', b'ftp'):
        if at(t, i, proto + b'://'):
            j = k = i + len(proto) + 3
            while k < len(t) and t[k] not in SPACE + b'<>"\'' and t[k] < 127:
                k += 1
            return (proto, t[j:k], k) if k > j else None
    return None


def urls(t):
    """The text without URLs, and the tokens of the URLs."""
    out = b''
    toks = []
    i = 0
    while i < len(t):
        u = url_at(t, i)
        if u is None:
            out = out + t[i:i + 1]
            i += 1
            continue
        proto, rest, i = u
        toks.append(b'proto:' + proto)
        while len(rest) and rest[-1] in b'.:?!/':
            rest = rest[:-1]
        for piece in split_any(rest, b'/'):
            toks += [b'url:' + c for c in split_any(piece, SEPS)]
    return out, toks


def word_tokens(w):
    """The tokens of one word (bytes)."""
    n = len(w)
    if n < 3:
        return []
    if n <= 12:
        return [w]
    ats = [i for i in range(n) if w[i] == 64]
    if n < 40 and len(ats) == 1 and any(c == 46 for c in w):
        return [b'email name:' + w[:ats[0]], b'email addr:' + w[ats[0] + 1:]]
    toks = [b'skip:' + w[:1] + (' %d' % (n // 10 * 10)).encode()]
    high = len([c for c in w if c > 127])
    if high:
        toks.append(('8bit%%:%d' % round(high * 100.0 / n)).encode())
    return toks


def words(t):
    """White-space separated words."""
    out = []
    i = 0
    while True:
        i = skip_space(t, i)
        if i == len(t):
            return out
        j = skip_nonspace(t, i)
        out.append(t[i:j])
        i = j


def entities(t):
    out = b''
    i = 0
    while i < len(t):
        if at(t, i, b'&#'):
            j = i + 2
            n = 0
            while j < len(t) and t[j] in b'0123456789':
                n = n * 10 + (t[j] - 48)
                j += 1
            if j > i + 2 and at(t, j, b';'):
                out = out + (bytes([n]) if n < 256 else b'?')
                i = j + 1
                continue
        out = out + t[i:i + 1]
        i += 1
    return out


def breaks(t):
    out = b''
    i = 0
    while i < len(t):
        for x in b'&nbsp;', b'<p>', b'<br>':
            if at(t, i, x):
                out = out + b' '
                i += len(x)
                break
        else:
            out = out + t[i:i + 1]
            i += 1
    return out


def tags(t):
    out = b''
    i = 0
    while i < len(t):
        if t[i] == 60 and i + 1 < len(t) and t[i + 1] not in SPACE + b'<>':
            j = i + 1
            while j < len(t) and t[j] != 62 and j - i <= 256:
                j += 1
            if at(t, j, b'>'):
                i = j + 1
                continue
        out = out + t[i:i + 1]
        i += 1
    return out


def same(ctx, a, b):
    """The two lists have the same elements (order and number do not count);
    does not fork."""
    return ctx.all([ctx.any([x == y for y in b]) for x in a]
                   + [ctx.any([x == y for y in a]) for x in b])


def as_bytes(t):
    return t if isinstance(t, bytes) else t.encode('utf-8')


def body_tokens(body, headers=b'Content-Type: text/plain\n'):
    return [as_bytes(t) for t in Tokenizer().tokenize_body(from_bytes(headers + b'\n' + body))]


def is_w(c):
    return c.isalnum() or c == '_'


def runs(text, pred):
    out = []
    i = None
    for j in range(len(text)):
        if pred(text[j]):
            if i is None:
                i = j
        elif i is not None:
            out.append(text[i:j])
            i = None
    if i is not None:
        out.append(text[i:])
    return out


def is_subject_word(c):
    return is_w(c) or '\x80' <= c <= '\xff' or c in '$.%'


def header_word_tokens(w):
    """The rules for body words, applied to characters."""
    return [t.decode('latin-1').encode('utf-8', 'surrogatepass') for t in word_tokens(w.encode('latin-1'))]
