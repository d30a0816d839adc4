"""C37: the optional clues of URLs."""
import contextlib

from sx.harness import scenario
from props import ref
import sbclassifier.strippers as strippers

META = dict(
    labels=['text', 'clues', 'addresses'],
    bounds='fancy recognition: URLs without protocol with 3 symbolic bytes (thorough: 4) before, inside or behind them, any byte at any place of a text; picking apart: URLs with 3 symbolic bytes '
           '(thorough: 4) of 16 delimiters, digits and letters in 9 shapes, escapes of 2 symbolic characters each at 2 places, hosts of 5 (thorough: 7) symbolic digits and dots; up to 600 escapes; 24 (with symbolic digits: 114) port numbers; '
           'any byte at any place of 2 URLs; host lookups with no, one or two symbolic addresses',
    outside='the name server behind the lookups (a stand-in); upper-case protocols (the tokenizer lower-cases the text first); hosts in brackets with a zone',
    assumptions=['which part of a URL is its host is what urllib.parse says, executed symbolically, except in the shapes of the scenario "shapes", where the oracle composes the URL'],
)


@contextlib.contextmanager
def option(**kw):
    saved = {k: getattr(strippers, k) for k in kw}
    for k in kw:
        setattr(strippers, k, kw[k])
    try:
        yield
    finally:
        for k in kw:
            setattr(strippers, k, saved[k])


def analyze(t, **kw):
    with option(**kw):
        return strippers.URLStripper().analyze(t)


def is_word(c):
    return (c >= 97) & (c <= 122) | (c >= 65) & (c <= 90) | (c >= 48) & (c <= 57) | (c == 95)


def in_url(c):
    return c not in ref.SPACE + b'<>"\'' and c < 127


def fancy_url_at(t, i):
    """(protocol, rest, end) of the URL that starts at i."""
    if i and is_word(t[i - 1]):
        return None
    u = ref.url_at(t, i)
    if u is not None:
        return u
    for name, proto in ((b'www.', b'http'), (b'ftp.', b'ftp')):
        if ref.at(t, i, name) and i + 4 < len(t) and t[i + 4] != 46 and in_url(t[i + 4]):
            k = i + 4
            while k < len(t) and in_url(t[k]):
                k += 1
            return proto, t[i:k], k
    return None


def chunks(rest):
    while len(rest) and rest[-1] in b'.:?!/':
        rest = rest[:-1]
    out = []
    for piece in ref.split_any(rest, b'/'):
        out += [b'url:' + c for c in ref.split_any(piece, ref.SEPS)]
    return out


def compare(ctx, got, want):
    ctx.check(len(got) == len(want), 'clues')
    ctx.check(ctx.all([a == b for a, b in zip(got, want)]), 'clues')


def fancy(ctx, t):
    out = b''
    toks = []
    i = 0
    while i < len(t):
        u = fancy_url_at(t, i)
        if u is None:
            out = out + t[i:i + 1]
            i += 1
            continue
        proto, rest, i = u
        toks.append(b'proto:' + proto)
        toks += chunks(rest)
    text, tokens = analyze(t, FANCY_URL_RECOGNITION=True)
    ctx.check(text == out, 'text')
    compare(ctx, tokens, toks)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def without_protocol(ctx, n):
    name = ctx.choice('name', [b'www', b'ftp'])
    where = ctx.pick('where', 3)
    s = ctx.bytes('s', n, b'a./w:-_ <\x7f\xe9')
    if where == 0:
        t = b'see ' + s + name + b'.b.c/d'
    elif where == 1:
        t = b'see ' + name + s + b'x'
    else:
        t = name + b'.b' + s + ctx.choice('post', [b'', b'www.x', b'http://y'])
    fancy(ctx, t)


@scenario()
def any_byte(ctx):
    t = b'see www.a.b/c?d, ftp.x or http://www.z: (www.)'
    i = ctx.pick('i', len(t) + 1)
    j = ctx.pick('replace', 2)
    c = ctx.bytes('c', 1)
    fancy(ctx, t[:i] + c + t[i + j:])


HEX = b'0123456789abcdefABCDEF'


def escapes(rest):
    out = []
    i = 0
    while i < len(rest):
        if rest[i] == 37 and i + 2 < len(rest):
            out.append(rest[i:i + 3])
            i += 3
        else:
            i += 1
    return out


def unquoted(rest):
    out = b''
    i = 0
    while i < len(rest):
        if rest[i] == 37 and i + 2 < len(rest) and rest[i + 1] in HEX and rest[i + 2] in HEX:
            out = out + bytes([int(rest[i + 1:i + 3], 16)])
            i += 3
        else:
            out = out + rest[i:i + 1]
            i += 1
    return out


def looks_like_ip(host):
    """Up to four runs of digits with dots between, at least four digits."""
    runs = 0
    digits = 0
    before = 46
    for c in host:
        if c == 46:
            if before == 46:
                return False
        elif (c >= 48) & (c <= 57):
            digits += 1
            if before == 46:
                runs += 1
        else:
            return False
        before = c
    return digits >= 4 and runs <= 4


def port_clue(proto, port):
    if proto == b'http' and port != b'80' or proto == b'https' and port != b'443':
        return [b'url:non-standard ' + proto + b' port']
    return []


def host_clues(proto, netloc):
    want = []
    at = netloc.rfind(b'@')
    if at >= 0:
        want.append(b'url:has user')
        netloc = netloc[at + 1:]
    k = len(netloc)
    while k and 48 <= netloc[k - 1] <= 57:
        k -= 1
    if k and netloc[k - 1] == 58:
        if k < len(netloc):
            want += port_clue(proto, netloc[k:])
        netloc = netloc[:k - 1]
    if looks_like_ip(netloc):
        want.append(b'url:ip addr')
    return want


def picked(ctx, proto, rest, known=None):
    text, tokens = analyze(b'see ' + proto + b'://' + rest + b' now', X_PICK_APART_URLS=True)
    ctx.check(text == b'see  now', 'text')
    want = [b'proto:' + proto]
    esc = escapes(rest)
    if esc:
        want.append(b'url:%' + str(len(esc).bit_length() - 1).encode('ascii'))
        want += [b'url:' + e for e in esc]
    plain = unquoted(rest)
    if known is None:
        # the host part: up to a slash, question or number mark; no tabs or line ends
        host = b''
        for i in range(len(plain)):
            if plain[i] in b'/?#':
                break
            if plain[i] not in b'\t\r\n':
                host = host + plain[i:i + 1]
        # (a bracketed host has to be an IPv6 address)
        ctx.assume(b'[' not in host and b']' not in host)
        known = host_clues(proto, host)
    want += known
    want += chunks(plain)
    compare(ctx, tokens, want)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def picks(ctx, n):
    shape = ctx.choice('shape', [(b'', b''), (b'a', b'.b/c'), (b'me:x', b'@a.b'), (b'1.2', b'.4.5/x'), (b'a.b:8', b'/?q=1:2@3'), (b'a.b:80', b''), (b'a.b:44', b'3'), (b'a.b/', b'd%41e'), (b'%77ww', b'%2e')])
    s = ctx.bytes('s', n, b'a1:@/?#&%.;3![]')
    rest = shape[0] + s + shape[1]
    ctx.assume(len(rest))
    picked(ctx, ctx.choice('proto', [b'http', b'https', b'ftp']), rest)


@scenario()
def any_picked(ctx):
    """Any character at any place of a URL."""
    t = ctx.choice('t', [b'me@ab.cd:81/x%41?q=1+2,3;4&5$6', b'10.0.2.1:80/a%2fb%3A80#c'])
    i = ctx.pick('i', len(t) + 1)
    j = ctx.pick('replace', 2)
    c = ctx.bytes('c', 1)
    ctx.assume(ctx.all([in_url(c[0]), c != b'[', c != b']']))
    picked(ctx, ctx.choice('proto', [b'http', b'https']), t[:i] + c + t[i + j:])


@scenario()
def escaped(ctx):
    e = b'%' + ctx.bytes('e', 2, b'04279aAFg%')
    f = b'%' + ctx.bytes('f', 2, b'24a0')
    picked(ctx, b'http', ctx.choice('pre', [b'a', b'www.paypal.com']) + e + ctx.choice('mid', [b'', b'@10.0.', b':8', b'/x']) + f + ctx.choice('post', [b'', b'1.1/y']))


@scenario()
def many_escapes(ctx):
    """Their number, up to the next power of two, whatever it is."""
    n = ctx.choice('n', [7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 600])
    picked(ctx, b'http', b'a.b/' + b'%' + ctx.bytes('e', 2, b'24a') + b'%41' * (n - 1), known=[])


@scenario()
def other_ports(ctx):
    proto = ctx.choice('proto', [b'http', b'https', b'ftp'])
    port = ctx.choice('port', [b'80', b'443', b'8080', b'8443', b'8000', b'8008', b'8888', b'591', b'21', b'0', b'65535', b'70000', b'4' + ctx.bytes('p', 2, b'0123456789'), b'080', b'0443'])
    picked(ctx, proto, b'a.b:' + port + ctx.choice('post', [b'', b'/x', b'?q']))


@scenario(quick=[dict(n=5)], thorough=[dict(n=7)])
def numbers(ctx, n):
    d = ctx.bytes('d', n, b'19.')
    picked(ctx, ctx.choice('proto', [b'http', b'ftp']), ctx.choice('user', [b'', b'me@']) + d + ctx.choice('post', [b'', b':80', b'.7/x']))


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)])
def shapes(ctx, n):
    """URLs put together."""
    proto = ctx.choice('proto', [b'http', b'https', b'ftp'])
    w = ctx.bytes('w', n, b'aZ-_~')
    user = ctx.choice('user', [None, b'', b'me', b'www.bank.com%65%43', b'a:b', b'a@b'])
    host = ctx.choice('host', [b'x' + w + b'.org', b'10.1.2.30', b'', b'[::1]', b'[::1'])
    port = ctx.choice('port', [None, b'', b'80', b'443', b'8' + ctx.bytes('p', n, b'0123456789'), b'x'])
    path = ctx.choice('path', [b'', b'/p' + w, b'?q=@:1' + w, b'#@' + w])
    rest = b''
    known = []
    if user is not None:
        rest = user + b'@'
        known.append(b'url:has user')
    rest = rest + host
    if port is not None:
        rest = rest + b':' + port
        if len(port) and port != b'x':
            known += port_clue(proto, port)
    if host == b'10.1.2.30' and port != b'x':
        known.append(b'url:ip addr')
    rest = rest + path
    if host == b'[::1':
        # not a valid host
        known = []
    ctx.assume(len(rest))
    ctx.assume(not (host == b'[::1]' and port == b'x'))
    ctx.assume(not (b'[' in host and user is not None and b'@' in user))
    picked(ctx, proto, rest, known)


@scenario()
def lookups(ctx):
    """Every address of the host gives the clues of its networks."""
    k = ctx.pick('k', 3)
    ips = []
    for i in range(k):
        ips.append('10.%d.2.' % i + str(ctx.int('ip%d' % i, 0, 255)))
    asked = []

    class Cache:
        @staticmethod
        def lookup(host):
            asked.append(host)
            return ips

    host = b'a' + ctx.bytes('h', 1, b'ab-') + b'.org'
    with option(cache=Cache):
        text, tokens = analyze(b'http://' + host + b'/x', X_PICK_APART_URLS=True, X_LOOKUP_IP=True)
    want = [b'proto:http']
    if not k:
        want.append(b'url-ip:lookup error')
    for ip in ips:
        a = ip.split('.')
        want += [b'url-ip:10.0.0.0/8', ('url-ip:10.' + a[1] + '.0.0/16').encode('ascii'), ('url-ip:10.' + a[1] + '.2.0/24').encode('ascii'),
                 ('url-ip:' + ip + '/32').encode('ascii')]
    compare(ctx, tokens, want + chunks(host + b'/x'))
    ctx.check(asked == [host.decode('ascii')], 'addresses')
