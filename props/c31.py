"""C31: clues of the NNTP-Posting-Host headers."""
import email.message
import ipaddress
import socket
from sx.harness import scenario
from props import ref
import sbclassifier.dnsutils as dnsutils
import sbclassifier.tokenizer as tokenizer

META = dict(
    labels=['same set', 'bytes'],
    bounds='up to 2 headers (thorough: 3): IPv4 addresses with any 2 symbolic digits, texts of up to 4 (thorough: 5) symbolic characters that may be IPv6 '
           'addresses or not, host names of up to 4 (thorough: 6) symbolic characters, with 8-bit characters; resolver answers: a name of 3 symbolic characters, '
           'up to 2 addresses (IPv4, IPv6, scoped), timeouts and errors',
    outside='longer names; whether a host name that resolves forth and back gets the has-reverse clue',
    assumptions=['getaddrinfo and gethostbyaddr are stand-ins; the ipaddress and email modules are executed from their source'],
)
REAL = {n: getattr(socket, n) for n in ('getaddrinfo', 'gethostbyaddr')}
LENGTHS = (8, 16, 24, 32)


def fails(make):
    def f():
        raise make()
    return f


ERRORS = [lambda: socket.timeout('timed out'), lambda: socket.herror(1, 'Unknown host'), lambda: socket.gaierror(-2, 'Name or service not known'),
          lambda: UnicodeError('label empty or too long')]


def networks(prefix, address):
    return [prefix + ':' + str(ipaddress.ip_network('%s/%d' % (address, n), strict=False)) for n in LENGTHS]


def two(name):
    parts = name.split('.')
    return '.'.join(parts[-2:])


def expected(ctx, value, back, addresses):
    """(clues, clues that may or may not be there)"""
    try:
        a = ipaddress.ip_address(value)
    except ValueError:
        out = ['nntp-host-name:' + value, 'nntp-host-domain:' + two(value)]
        for a in addresses:
            out += networks('nntp-host-ip', a)
        return out, ['nntp-host-ip:has-reverse'] if addresses else []
    out = networks('nntp-host', str(a))
    if back is not None:
        out += ['nntp-host-ip:has-reverse', 'nntp-host-name:' + back, 'nntp-host-domain:' + two(back)]
    return out, []


def mine(ctx, values, forth, back, shown=None):
    """Mines a message with the headers, the resolver answering `forth` (a
    list of addresses or an error) and `back` (a name or an error)."""
    def getaddrinfo(host, port, *a, **k):
        if callable(forth):
            raise forth()
        return [(2, 1, 6, '', (a, 80)) for a in forth]

    def gethostbyaddr(address):
        if callable(back):
            raise back()
        return (back, [], [])
    new = dict(getaddrinfo=getaddrinfo, gethostbyaddr=gethostbyaddr)
    old = []
    for n in REAL:
        for m in (socket, dnsutils):
            for k in list(vars(m)):
                if vars(m)[k] is REAL[n]:
                    old.append((m, k, REAL[n]))
                    setattr(m, k, new[n])
    was = tokenizer.X_MINE_NNTP_HEADERS
    tokenizer.X_MINE_NNTP_HEADERS = True
    try:
        msg = email.message.Message()
        for v in values:
            msg['NNTP-Posting-Host'] = v
        got = [t for t in tokenizer.tokenize(msg) if t.startswith(b'nntp-')]
    finally:
        for m, k, f in old:
            setattr(m, k, f)
        tokenizer.X_MINE_NNTP_HEADERS = was
    want = []
    maybe = []
    for v in shown or values:
        a, b = expected(ctx, v, None if callable(back) else back, [] if callable(forth) else forth)
        want += a
        maybe += b
    for t in got:
        ctx.check(isinstance(t, bytes), 'bytes')
    if maybe:
        if b'nntp-host-ip:has-reverse' in got:
            want += maybe
    ctx.check(ref.same(ctx, got, [w.encode('utf-8', 'surrogatepass') for w in want]), 'same set')


FORTH = [[], ['1.2.3.4'], ['1.2.3.4', '::1'], ['fe80::1%eth0']] + [ERRORS[0], ERRORS[2], ERRORS[3]]
# (getaddrinfo has no herror)


def resolver(ctx, n=3):
    """(forth, back)"""
    forth = ctx.choice('forth', FORTH)
    back = ctx.choice('back', [None] + ERRORS)
    if back is None:
        back = ctx.str('host', n, 'ab.')
    return forth, back


def ip(ctx, i=''):
    d = ['99.9.199.25'] if i else [ctx.choice('shape' + i, ['1.2.3.4', '10.20.130.240', '0.0.0.0', '99.9.199.25'])]
    # (not two of one number)
    k = 0 if i else ctx.choice('k', [k for k, c in enumerate(d[0]) if c != '.' and k < d[0].rindex('.')])
    return d[0][:k] + ctx.str('d' + i, 1, '0123456789') + d[0][k + 1:-1] + ctx.str('e' + i, 1, '059x' if i else '0123456789x')


def text(ctx, n, i=''):
    return ctx.str('text' + i, ctx.pick('n' + i, n + 1), ':1f%')


def name(ctx, n, i=''):
    return ctx.str('name' + i, ctx.pick('n' + i, n + 1), 'ab.1-\xe9')


@scenario()
def ip_address(ctx):
    forth, back = resolver(ctx)
    mine(ctx, [ip(ctx)], forth, back)


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)])
def any_text(ctx, n):
    forth, back = ctx.choice('r', [(FORTH[2], 'a.b.c'), (FORTH[0], ERRORS[0])])
    mine(ctx, [text(ctx, n)], forth, back)


@scenario(quick=[dict(n=4)], thorough=[dict(n=6)])
def host_name(ctx, n):
    mine(ctx, [name(ctx, n)], *resolver(ctx, 1))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def several(ctx, n):
    values = []
    for i in range(n):
        f = ctx.choice('kind%d' % i, [ip, text, name])
        values.append(f(ctx, str(i)) if f is ip else f(ctx, 2, str(i)))
    mine(ctx, values, *ctx.choice('r', [(FORTH[1], 'a.b.c'), (FORTH[0], ERRORS[1]), (ERRORS[2], ERRORS[3])]))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def eight_bit(ctx, n):
    """Undecodable bytes in the header."""
    b = ctx.bytes('b', n, b'a.\xe9')
    v = 'a.' + b.decode('ascii', 'surrogateescape')
    # (shown with the replacement character)
    mine(ctx, [v], *resolver(ctx, 1), shown=['a.' + b.decode('ascii', 'replace')])
