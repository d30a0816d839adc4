"""C38: following URLs."""
import os
import socket

import requests
from requests.structures import CaseInsensitiveDict

from props.clock import Clock, World
from sx.harness import scenario
import sbclassifier.classifiers.slurping as slurping
from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import tokenize

META = dict(
    labels=['clue', 'page', 'asked', 'not asked', 'again', 'own page', 'damaged', 'goes on', 'expiry', 'score', 'forgotten', 'proxy', 'timeout'],
    bounds='URLs of up to 3 (thorough: 4) symbolic characters and longer ones of up to 300, 10 shapes of names that end like images; every outcome of name lookup (OSError, ValueError) and of '
           'retrieval (requests exceptions, every status from 100 to 599, 9 content types); pages with up to 2 (thorough: 3) symbolic bytes and '
           '4 sets of headers, histories of 3 rounds of 2 (thorough: 3) URLs with any outcome each, asked for twice and again by another classifier on the same cache directory; 150 URLs in one cache; every age of a page in whole seconds',
    outside='failing file operations in the cache directory; exceptions other than those of requests, OSError and ValueError (they may surface); '
            'content types in capital letters',
    assumptions=['requests.Session.request and socket.getaddrinfo are stand-ins', 'MD5 has no collisions among the names of the cache'],
)

HTML = 'text/html'


class Response(requests.models.Response):
    """(requests' own, with symbolic content.)"""

    @property
    def text(self):
        return self._content.decode('latin-1')


def page(body=b'', headers=None, status=200):
    r = Response()
    r._content = body
    r.status_code = status
    r.headers = CaseInsensitiveDict(headers or {'Content-Type': HTML})
    return r


class Net(object):
    """The network: what it does and what it was asked for."""

    def __init__(self, ctx, lookup=None, answer=None):
        self.ctx, self.lookup, self.answer = ctx, lookup, answer
        self.names, self.urls, self.kwargs = [], [], []

    def __enter__(self):
        self.saved = (requests.sessions.Session.request, socket.getaddrinfo, slurping.X_CACHE_DIRECTORY, slurping.slurp_wordstream)

        def request(session, method, url, **kw):
            self.urls.append(url)
            self.kwargs.append(kw)
            a = self.answer(url) if callable(self.answer) else self.answer
            if isinstance(a, BaseException):
                raise a
            return a

        def getaddrinfo(host, port, *a, **k):
            self.names.append((host, port))
            if isinstance(port, int) and port > 2 ** 63:
                raise OverflowError('Python int too large to convert to C long')
            if self.lookup is not None:
                raise self.lookup
            return [(2, 1, 6, '', ('127.0.0.1', 80))]
        requests.sessions.Session.request = request
        socket.getaddrinfo = getaddrinfo
        slurping.X_CACHE_DIRECTORY = os.path.join(self.ctx.scratch(), 'cache')
        return self

    def __exit__(self, *a):
        requests.sessions.Session.request, socket.getaddrinfo, slurping.X_CACHE_DIRECTORY, slurping.slurp_wordstream = self.saved

    def clues(self, c, url):
        slurping.slurp_wordstream = ('http', url)
        try:
            return [t.decode('latin-1') if isinstance(t, bytes) else t for t in c._generate_slurp()]
        finally:
            slurping.slurp_wordstream = None


def clues_of(body, headers):
    data = b''.join([('%s: %s\r\n' % h).encode('latin-1') for h in headers.items()]) + b'\r\n' + body
    return [t.decode('latin-1') for t in tokenize(from_bytes(data), basic_header_tokenize=True, basic_header_tokenize_only=True)]


def same(a, b):
    return len(a) == len(b) and all([bool(x == y) for x, y in zip(a, b)])


def check_again(ctx, net, c, url, want, looked_up=0):
    n, m = len(net.urls), len(net.names)
    ctx.check(same(net.clues(c, url), want), 'again')
    ctx.check(same(net.clues(slurping.SlurpingClassifier(), url), want), 'again')
    ctx.check(len(net.urls) == n, 'not asked')
    if want[:1] and want[0][:4] == 'url:' and len(want) == 1:
        ctx.check(len(net.names) == m, 'not asked')


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)])
def no_host(ctx, n):
    """Hosts that do not resolve."""
    url = ctx.str('u', ctx.pick('n', n + 1), 'a.:/\\8')
    error = ctx.choice('error', [None, socket.gaierror(-2, 'x'), OSError('x'), UnicodeError('label too long'), ValueError('x')])
    with Net(ctx, error, requests.exceptions.ConnectionError('x')) as net:
        c = slurping.SlurpingClassifier()
        got = net.clues(c, url)
        host = len(url) > 0 and bool(url[0] != ':') and bool(url[0] != '/') and bool(url[0] != '\\')
        ok = host and error is None
        ctx.check(same(got, ['url:unknown_error' if ok else 'url:non_resolving']), 'clue')
        ctx.check(len(net.urls) == (1 if ok else 0), 'asked' if ok else 'not asked')
        if ok:
            ctx.check(net.urls[0] == 'http://' + url, 'asked')
        if host:
            i = 0
            while i < len(url) and bool(url[i] != ':') and bool(url[i] != '/') and bool(url[i] != '\\'):
                i += 1
            port = 80
            if bool(url[i:i + 2] == ':8'):
                port = 88 if bool(url[i + 2:i + 3] == '8') else 8
                port = 888 if bool(url[i + 1:i + 4] == '888') else port
            ctx.check(len(net.names) == 1, 'asked')
            ctx.check(net.names[0][0] == url[:i], 'asked')
            ctx.check(int(net.names[0][1]) == port, 'asked')
        check_again(ctx, net, c, url, got)


@scenario()
def odd_ports(ctx):
    """Ports that no host has."""
    url = 'h.com:' + ctx.choice('port', ['65536', '99999999999999999999', '0', '080', '', 'x', '8080x']) + ctx.choice('path', ['', '/a'])
    error = ctx.choice('error', [None, socket.gaierror(-8, 'Servname not supported for ai_socktype')])
    with Net(ctx, error, page(b'hello')) as net:
        c = slurping.SlurpingClassifier()
        got = net.clues(c, url)
        if error is not None:
            ctx.check(same(got, ['url:non_resolving']), 'clue')
        elif '9' * 20 not in url:
            ctx.check('hello' in got, 'page')
        ctx.check(all([n[0] == 'h.com' for n in net.names]), 'asked')
        check_again(ctx, net, c, url, got)


ERRORS = [(requests.exceptions.ConnectionError('x'), 'url:unknown_error'), (requests.exceptions.Timeout(), 'url:unknown_error'),
          (requests.exceptions.RequestException('HTTP Error 403: no'), 'url:http_403'), (requests.exceptions.InvalidURL('HTTP'), 'url:unknown_error'),
          (requests.exceptions.TooManyRedirects('Exceeded 30 redirects.'), 'url:unknown_error')]
TYPES = [None, 'text/html', 'text/html; charset=utf-8', 'text/plain', 'image/png', 'application/xhtml+xml', 'application/x; text/html', 'text/html ; charset=utf-8', 'text/html;']


@scenario()
def answers(ctx):
    """What the server may answer."""
    url = 'h.com/a.' + ctx.choice('ext', ['html', 'jpg', 'gif', 'png', 'css', 'js', 'jpgx', 'js/b'])
    bare = url.rsplit('.', 1)[1] in ('jpg', 'gif', 'png', 'css', 'js')
    i = ctx.pick('answer', len(ERRORS) + len(TYPES))
    if i < len(ERRORS):
        answer, want = ERRORS[i]
    else:
        status = ctx.int('status', 100, 599)
        t = TYPES[i - len(ERRORS)]
        answer = page(b'hello world', {'Content-Type': t} if t is not None else {'Server': 'x'}, status)
        want = 'page'
        if status >= 400:
            want = 'url:http_%d' % status
        elif t is None or t[:9] != 'text/html':
            want = 'url:non_html'
    if bare:
        want = 'url:non_html'
    with Net(ctx, None, answer) as net:
        c = slurping.SlurpingClassifier()
        got = net.clues(c, url)
        ctx.check(len(net.urls) == (0 if bare else 1), 'not asked' if bare else 'asked')
        if want == 'page':
            ctx.check('hello' in got and 'world' in got, 'page')
            ctx.check(len([t for t in got if t[:4] == 'url:']) == 0, 'page')
        else:
            ctx.check(same(got, [want]), 'clue')
        check_again(ctx, net, c, url, got)


HEADERS = [{'Content-Type': HTML}, {'Content-Type': 'text/html; charset=utf-8', 'Server': 'Apache/2'},
           {'Server': 'word ' * 30, 'content-type': 'text/html;charset=latin-1', 'Subject': 'money na\xefve', 'X-Note': 'caf\xe9 words'},
           {'Content-Type': HTML, 'Content-Encoding': 'gzip', 'Set-Cookie': 'a=b; c="d"'}]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def pages(ctx, n):
    """The clues of pages."""
    h, prefix, url = ctx.choice('page', [(0, '', 'h.com/a'), (1, 'web:', 'h.com/a'), (2, '', 'h.com/' + 'a/?b=c&' * 50), (3, '', 'h.com:8080')])
    headers = HEADERS[h]
    b = ctx.bytes('b', n, b'ab< >\xe9\n')
    body = ctx.choice('shape', [b'<html>\n%s', b'cheap%s', b'<p>x y %s</p>\r\nsee http://x.y/z.', b'word %s <!-- no -->']).replace(b'%s', b)
    was = slurping.X_WEB_PREFIX
    slurping.X_WEB_PREFIX = prefix
    try:
        with Net(ctx, None, page(body, headers)) as net:
            c = slurping.SlurpingClassifier()
            got = net.clues(c, url)
            ctx.check(same(sorted_set(got), sorted_set([prefix + t for t in clues_of(body, headers)])), 'page')
            check_again(ctx, net, c, url, got)
    finally:
        slurping.X_WEB_PREFIX = was


def sorted_set(xs):
    out = []
    for x in xs:
        if not any([bool(x == y) for y in out]):
            out.append(x)
    return out


URLS = ['h.com/a', 'h.com_a', 'h_com/a', 'h.com/a?', 'h.com/a.', 'H.com/a', 'h.com:80/a', 'h.com/a/', 'h.com/' + 'x' * 300, 'h.com/' + 'x' * 301]


@scenario()
def own_pages(ctx):
    """Each URL has its own page."""
    u = ctx.choice('u', URLS)
    v = ctx.choice('v', URLS)
    x = ctx.bytes('x', 1, b'ab')

    def answer(url):
        if url == 'http://' + u:
            return page(b'first' + x)
        return page(b'second')
    with Net(ctx, None, answer) as net:
        c = slurping.SlurpingClassifier()
        got = [net.clues(c, u), net.clues(c, v), net.clues(c, u)]
        d = slurping.SlurpingClassifier()
        got += [net.clues(d, v), net.clues(d, u)]
        first = clues_of(b'first' + x, {'Content-Type': HTML})
        second = clues_of(b'second', {'Content-Type': HTML}) if u != v else first
        for g, w in zip(got, [first, second, first, second, first]):
            ctx.check(same(g, w), 'own page')
        ctx.check(len(net.urls) == (1 if u == v else 2), 'not asked')


@scenario()
def many_pages(ctx):
    """Many URLs, each with its own page, in memory or not."""
    n = 150
    urls = ['h%d.com/%s' % (i % 40, ctx.choice('path', ['', 'a/b/']) + str(i)) for i in range(n)]

    def answer(url):
        return page(b'page%d.' % urls.index(url[7:]))
    with Net(ctx, None, answer) as net:
        c = slurping.SlurpingClassifier()
        for u in urls:
            got = net.clues(c, u)
        ctx.check(len(net.urls) == n, 'not asked')
        for d in c, slurping.SlurpingClassifier():
            for i in [ctx.pick('i', 10), 10, 77, 129, 148, 149]:
                ctx.check('page%d.' % i in net.clues(d, urls[i]), 'own page')
        ctx.check(len(net.urls) == n, 'not asked')


@scenario()
def endings(ctx):
    """Only names that end like images, styles and scripts are not retrieved."""
    end = ctx.choice('end', ['jpg', 'gif', 'png', 'css', 'js'])
    url = ctx.choice('url', ['h.com/a.%s', 'h.%s', 'h.com/a%s', 'h.com/%s', 'h.com/.%s/', 'h.com/a.%sx', 'h.com/a.x%s', 'h.com/a.%s.html', '%s.h.com', 'h.com/a.%s?b']) % end
    with Net(ctx, None, page(b'hello')) as net:
        c = slurping.SlurpingClassifier()
        got = net.clues(c, url)
        if url[-len(end) - 1:] == '.' + end:
            ctx.check(same(got, ['url:non_html']) and not net.urls, 'clue')
        else:
            ctx.check('hello' in got, 'page')
        check_again(ctx, net, c, url, got)


KINDS = [None, requests.exceptions.Timeout(), page(b'', status=404), page(b'', status=500), page(b'', {'Content-Type': 'image/gif'}), page(b'hello')]
CLUES = ['url:non_resolving', 'url:unknown_error', 'url:http_404', 'url:http_500', 'url:non_html', None]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def histories(ctx, n):
    """Several URLs, each with an outcome of its own."""
    urls = ['h.com/a' + ctx.choice('u', ['', '/b']), 'h.com/a' + ctx.choice('v', ['b', '/', '.png.x']), 'i.com'][:n]
    kinds = [ctx.pick('kind%d' % i, len(KINDS)) for i in range(n)]

    def answer(url):
        return KINDS[kinds[urls.index(url[7:])]]
    with Net(ctx, None, answer) as net:
        real = socket.getaddrinfo
        here = []

        def getaddrinfo(host, port, *a, **k):
            if kinds[urls.index(here[-1])] == 0:
                raise OSError('x')
            return real(host, port, *a, **k)
        socket.getaddrinfo = getaddrinfo
        c = slurping.SlurpingClassifier()
        for turn in range(3):
            if turn == 2 or ctx.boolean('restart%d' % turn):
                c = slurping.SlurpingClassifier()
            for u, k in zip(urls, kinds):
                here.append(u)
                got = net.clues(c, u)
                ctx.check(got == [CLUES[k]] if k < 5 else 'hello' in got, 'again')
        ctx.check(len(net.urls) == len([k for k in kinds if k]), 'not asked')


DAMAGE = [b'', b'\x80', b'\x80\x04', b'garbage', b'(lp0\n', b'cnosuch\nmodule\n.', b'\x80\x04\x95\xff\x00\x00\x00\x00\x00\x00\x00}', b'0', b'h\x05.']


@scenario()
def damaged(ctx):
    """Damaged lists of failures."""
    with Net(ctx, None, page(b'hello')) as net:
        c = slurping.SlurpingClassifier()
        net.clues(c, 'h.com/first')
        d = slurping.X_CACHE_DIRECTORY
        bad = ctx.choice('bad', DAMAGE)
        names = []
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n), 'rb') as f:
                if b'hello' not in f.read():
                    names.append(n)
        which = ctx.choice('which', [0, 1, None])
        for i, n in enumerate(names):
            if which is None or which == i:
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(bad)
        c = slurping.SlurpingClassifier()
        net.answer = ctx.choice('answer', [page(b'other'), page(b'', status=404), requests.exceptions.Timeout()])
        got = net.clues(c, 'h.com/second')
        ctx.check(len(got) > 0, 'damaged')
        check_again(ctx, net, c, 'h.com/second', got)


@scenario()
def surprises(ctx):
    """A failure of another kind does not end the slurping."""
    with Net(ctx, None, ctx.choice('error', [RuntimeError('x'), KeyboardInterrupt(), MemoryError()])) as net:
        c = slurping.SlurpingClassifier()
        try:
            net.clues(c, 'h.com/first')
        except BaseException:
            pass
        net.answer = page(b'other')
        url = ctx.choice('url', ['h.com/first', 'h.com/second'])
        ctx.check(same(net.clues(c, 'h.com/second'), clues_of(b'other', {'Content-Type': HTML})), 'goes on')


WEEK = 7 * 24 * 3600


@scenario()
def old_pages(ctx):
    """Pages are kept for X_CACHE_EXPIRY_DAYS."""
    clock = Clock(ctx)
    clock.steady = True
    clock.value = ctx.int('t0', 0, 10 ** 10)
    with World(ctx, clock) as w:
        with Net(ctx, None, page(b'hello')) as net:
            c = slurping.SlurpingClassifier()
            got = net.clues(c, 'h.com/a')
            d = slurping.X_CACHE_DIRECTORY
            for name in os.listdir(d):
                w.set(os.path.join(d, name), clock.value, clock.value)
            age = ctx.int('age', 0, 10 ** 9)
            clock.value = clock.value + age
            net.answer = page(b'other')
            c = slurping.SlurpingClassifier()
            now = net.clues(c, 'h.com/a')
            if age < WEEK:
                ctx.check(same(now, got), 'expiry')
                ctx.check(len(net.urls) == 1, 'not asked')
            elif age > WEEK:
                ctx.check(same(now, clues_of(b'other', {'Content-Type': HTML})), 'expiry')
                ctx.check(len(net.urls) == 2, 'asked')


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)])
def scores(ctx, n):
    """Learning, scoring and unlearning with pages."""
    bigrams = ctx.boolean('bigrams')
    i = ctx.pick('answer', 5)
    url = 'h.com/a'
    with Net(ctx, OSError('x') if i == 0 else None,
             [None, requests.exceptions.Timeout(), page(b'', status=404), page(b'', {'Content-Type': 'image/gif'}),
              page(b'word ' + ctx.bytes('b', 1, b'a<\xe9') + b' cheap')][i]) as net:
        c = slurping.SlurpingClassifier(bigrams)
        ws = [ctx.bytes('w%d' % j, 1, b'ab') for j in range(n)] + [b'hello']
        slurping.slurp_wordstream = ('http', url)
        c.learn(ws, True)
        if ctx.boolean('also ham'):
            c.learn([b'hello', b'a'], False)
            ham = True
        else:
            ham = False
        p, ev = c.spamprob(ws, True)
        ctx.check(ctx.all([p >= 0, p <= 1]), 'score')
        ctx.check(c.spamprob(ws) == p, 'score')
        c.unlearn(ws, True)
        if ham:
            c.unlearn([b'hello', b'a'], False)
        ctx.check(c.nspam == 0 and c.nham == 0, 'forgotten')
        ctx.check(len(c.wordinfo) == 0, 'forgotten')
        ctx.check(len(net.urls) == (0 if i == 0 else 1), 'not asked')


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)])
def mixed(ctx, n):
    """Scores near the middle, for which the URL is followed."""
    bigrams = ctx.boolean('bigrams')
    i = ctx.pick('answer', 6)
    with Net(ctx, OSError('x') if i == 0 else None,
             [None, requests.exceptions.Timeout(), page(b'', status=404), page(b'', {'Content-Type': 'image/gif'}), page(b'cheap'), page(b'')][i]) as net:
        c = slurping.SlurpingClassifier(bigrams)
        slurping.slurp_wordstream = ('http', 'h.com/a')
        spam = ctx.boolean('spam')
        c.learn([b'a', b'cheap'], spam)
        slurping.slurp_wordstream = None
        c.learn([b'b'], not spam)
        ws = [ctx.bytes('w%d' % j, 1, b'abc') for j in range(n)] + [b'a', b'b']
        p = c.spamprob(ws)
        slurping.slurp_wordstream = ('http', 'h.com/a')
        q, ev = c.spamprob(ws, True)
        ctx.check(ctx.all([q >= 0, q <= 1]), 'score')
        ctx.check(c.spamprob(ws) == q, 'score')


@scenario()
def proxies(ctx):
    saved = (slurping.PROXY_SERVER, slurping.PROXY_PORT, slurping.PROXY_USERNAME, slurping.PROXY_PASSWORD)
    server = ctx.str('server', ctx.pick('n', 3), 'pq')
    port = ctx.choice('port', [8080, 1, 65535])
    user, password = ctx.choice('user', [('', ''), ('u', 'v')])
    slurping.PROXY_SERVER, slurping.PROXY_PORT, slurping.PROXY_USERNAME, slurping.PROXY_PASSWORD = server, port, user, password
    try:
        with Net(ctx, None, page(b'hello')) as net:
            net.clues(slurping.SlurpingClassifier(), 'h.com/a')
            kw = net.kwargs[0]
            got = (kw.get('proxies') or {}).get('http')
            if len(server) == 0:
                ctx.check(got is None, 'proxy')
            else:
                ctx.check(ctx.any([got == 'http://%s:%s@%s:%d' % (user, password, server, port),
                                   user == '' and got == 'http://%s:%d' % (server, port)]), 'proxy')
            ctx.check(kw.get('timeout') == slurping.REQUEST_TIMEOUTS, 'timeout')
    finally:
        slurping.PROXY_SERVER, slurping.PROXY_PORT, slurping.PROXY_USERNAME, slurping.PROXY_PASSWORD = saved
