"""C39: the URL that is followed."""
import requests
import socket

from props import ref
from sx.harness import scenario
from sbclassifier.strippers import URLStripper
import sbclassifier.classifiers.slurping as slurping

META = dict(
    labels=['text', 'tokens', 'pending', 'no pending', 'base', 'asked'],
    bounds='texts of up to 3 (thorough: 4) pieces of URLs, parts of URLs and symbolic bytes, and URLs of up to 3 (thorough: 4) symbolic bytes of any '
           'separator class, with and without an earlier pending URL; hosts of 1 to 5 labels of 1 to 3 symbolic characters with any '
           'port, path and query; up to 12 labels of up to 64 characters, 2 of them symbolic',
    outside='FANCY_URL_RECOGNITION (off by default); upper-case protocols (the tokenizer lower-cases the text first); user names in URLs',
    assumptions=[],
)

ALPHA = b'a/.:?!;@%> "\x7f\xff)'


def last_http(t):
    """The rest of the last http URL, without the punctuation after it, or None."""
    found = None
    i = 0
    while i < len(t):
        u = ref.url_at(t, i)
        if u is None:
            i += 1
            continue
        proto, rest, i = u
        if proto == b'http':
            while len(rest) and rest[-1] in b'.:;?!/)':
                rest = rest[:-1]
            found = rest
    return found


def oracle(ctx, t):
    was = slurping.slurp_wordstream
    try:
        slurping.slurp_wordstream = ctx.choice('earlier', [None, ('http', 'earlier')])
        got = slurping.SlurpingURLStripper().analyze(t)
        pending = slurping.slurp_wordstream
    finally:
        slurping.slurp_wordstream = was
    want = URLStripper().analyze(t)
    ctx.check(got[0] == want[0], 'text')
    ctx.check(ctx.all([len(got[1]) == len(want[1])] + [a == b for a, b in zip(got[1], want[1])]), 'tokens')
    url = last_http(t)
    if url is None:
        ctx.check(not pending, 'no pending')
    else:
        ctx.check(pending is not None and len(pending) == 2 and pending[0] == 'http', 'pending')
        ctx.check(pending[1] == url.decode('latin-1'), 'pending')


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def rest(ctx, n):
    oracle(ctx, b'see http://' + ctx.bytes('t', ctx.pick('n', n + 1), ALPHA) + ctx.choice('after', [b'', b' http://z', b' https://z', b' ftp://z)']))


PIECES = [b'http://', b'https://', b'a.b/c', b'ftp://x', b'.)', b' ', b'ht', b'tp://y']


@scenario(quick=[dict(k=3)], thorough=[dict(k=4)])
def pieces(ctx, k):
    t = b''
    for j in range(k):
        p = ctx.pick('p%d' % j, len(PIECES) + 1)
        t = t + (PIECES[p] if p < len(PIECES) else ctx.bytes('s%d' % j, 1))
    oracle(ctx, t)


def a_url(ctx, n, m, tails):
    """A URL of up to n labels of up to m characters; its base."""
    labels = [ctx.str('l%d' % i, 1 + ctx.pick('m%d' % i, m), 'ab1-') for i in range(1 + ctx.pick('labels', n))]
    port = ctx.choice('port', ['', ':80', ':8080'])
    tail = ctx.choice('tail', tails)
    number = all([bool(c == '1') for c in labels[-1]])
    keep = len(labels)
    if len(labels) > 2 and not number:
        keep = 3 if len(labels[-1]) < 3 else 2
    return '.'.join(labels) + port + tail, '.'.join(labels[-keep:]) + port


@scenario(quick=[dict(n=4, m=3)], thorough=[dict(n=5, m=4)])
def base(ctx, n, m):
    url, want = a_url(ctx, n, m, ['', '/', '/~t/index.html?you=me', '?x=y.z/w.v', '#a.b.c', '/a:1/b.c.d.e'])
    ctx.check(slurping.base_url(url) == want, 'base')


WORDS = ['', 'www', 'example', 'co', 'xn--bcher-kva8445foa', 'l' * 63]


@scenario()
def long_labels(ctx):
    """Labels of any length, and many of them."""
    many = ctx.choice('many', [0, 1, 9])
    labels = ['d%d' % i for i in range(many)] + [ctx.choice('l0', WORDS[1:]), ctx.choice('l1', WORDS) + ctx.str('c1', 1, 'a1-'),
                                                 ctx.choice('l2', ['', 'd', 'co', 'museum', '12', '123456']) + ctx.str('c2', 1, 'a1')]
    last = labels[-1]
    keep = len(labels)
    if not all([bool(ctx.any([c == x for x in '0123456789'])) for c in last]):
        keep = 3 if len(last) < 3 else 2
    tail = ctx.choice('tail', ['', ':8080/a.b?c'])
    ctx.check(slurping.base_url('.'.join(labels) + tail) == '.'.join(labels[-keep:]) + tail[:5], 'base')


@scenario(quick=[dict(n=3, m=2)], thorough=[dict(n=3, m=3)])
def followed(ctx, n, m):
    """The option X_ONLY_SLURP_BASE."""
    url, want = a_url(ctx, n, m, ['', '/x.jpg'])
    only = ctx.boolean('only base')
    asked = []
    saved = (requests.sessions.Session.request, socket.getaddrinfo, slurping.X_CACHE_DIRECTORY, slurping.X_ONLY_SLURP_BASE,
             slurping.slurp_wordstream)

    def request(session, method, url, **kw):
        asked.append(url)
        raise requests.exceptions.Timeout()
    try:
        requests.sessions.Session.request = request
        socket.getaddrinfo = lambda *a, **k: []
        slurping.X_CACHE_DIRECTORY = ctx.scratch() + '/cache'
        slurping.X_ONLY_SLURP_BASE = only
        slurping.slurp_wordstream = ('http', url)
        list(slurping.SlurpingClassifier()._generate_slurp())
    finally:
        (requests.sessions.Session.request, socket.getaddrinfo, slurping.X_CACHE_DIRECTORY, slurping.X_ONLY_SLURP_BASE,
         slurping.slurp_wordstream) = saved
    if only:
        ctx.check(len(asked) == 1 and asked[0] == 'http://' + want, 'asked')
    elif url[-4:] == '.jpg':
        ctx.check(len(asked) == 0, 'asked')
    else:
        ctx.check(len(asked) == 1 and asked[0] == 'http://' + url, 'asked')
