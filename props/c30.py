"""C30: DNS lookups and memoize."""
import socket
from sx.harness import scenario
import sbclassifier.dnsutils as dnsutils

META = dict(
    labels=['10 seconds', 'restored', 'empty', 'name', 'addresses', 'nothing raised', 'result', 'called once', 'calls'],
    bounds='every previous timeout (none or any real number of seconds); resolver results of up to 3 addresses of one symbolic character each or a name, and each '
           'kind of error (timeout, herror, gaierror, UnicodeError, other OSError, KeyboardInterrupt, MemoryError); a resolver that changes the default '
           'timeout itself; up to 3 lookups in sequence; up to 4 calls of a memoized function with up to 2 symbolic arguments each, or 2000 calls',
    outside='threads that look up names at the same time (the socket timeout is global); memoized functions that raise or call themselves',
    assumptions=['getaddrinfo and gethostbyaddr are stand-ins; the socket timeout is kept by stand-ins of getdefaulttimeout and setdefaulttimeout'],
)

SOFT = [('timeout', lambda: socket.timeout('timed out')), ('TimeoutError', lambda: TimeoutError(110, 'timed out')),
        ('herror', lambda: socket.herror(1, 'Unknown host')), ('gaierror', lambda: socket.gaierror(-2, 'Name or service not known')),
        ('UnicodeError', lambda: UnicodeError('label empty or too long')),
        ('UnicodeEncodeError', lambda: UnicodeEncodeError('idna', 'x', 0, 1, 'label too long'))]
HARD = [('OSError', lambda: OSError(24, 'Too many open files')), ('KeyboardInterrupt', KeyboardInterrupt), ('MemoryError', MemoryError)]
NAMES = ('getdefaulttimeout', 'setdefaulttimeout', 'gethostbyaddr', 'getaddrinfo', 'gethostbyname', 'gethostbyname_ex', 'getnameinfo', 'getfqdn')
REAL = {n: getattr(socket, n) for n in NAMES}


class Net(object):
    """Stand-ins for the functions of the socket module."""

    def __init__(self, ctx, timeout, outcome):
        self.ctx = ctx
        self.timeout = timeout
        self.outcome = outcome
        self.asked = []
        new = dict(getdefaulttimeout=lambda: self.timeout, setdefaulttimeout=self.set,
                   gethostbyaddr=self.gethostbyaddr, getaddrinfo=self.getaddrinfo)
        self.old = []
        for n in NAMES:
            f = new.get(n, self.other)
            for m in (socket, dnsutils):
                for k in list(vars(m)):
                    if vars(m)[k] is REAL[n]:
                        self.old.append((m, k, REAL[n]))
                        setattr(m, k, f)

    def undo(self):
        for m, k, f in self.old:
            setattr(m, k, f)

    def set(self, t):
        self.timeout = t

    def other(self, *a, **k):
        raise AssertionError('no stand-in')

    def lookup(self, x):
        self.asked.append(x)
        t = self.timeout
        self.ctx.check(t is not None and t == 10, '10 seconds')
        return self.outcome()

    def gethostbyaddr(self, address):
        return self.lookup(address)

    def getaddrinfo(self, host, port, *a, **k):
        return self.lookup(host)


def previous(ctx):
    return ctx.real('timeout', 0, 10**6) if ctx.boolean('has timeout') else None


def run(ctx, f, arg, outcome):
    """(the result or None, the exception or None)"""
    before = previous(ctx)
    net = Net(ctx, before, outcome)
    meddle = ctx.boolean('meddle')
    if meddle:
        net.outcome = lambda: (net.set(3), outcome())[1]
    try:
        try:
            r, x = f(arg), None
        except BaseException as e:
            if type(e).__module__.startswith('sx.'):
                raise
            r, x = None, e
        after = net.timeout
    finally:
        net.undo()
    ctx.check(after is None if before is None else after is not None and after == before, 'restored')
    return r, x


def fails(make):
    def f():
        raise make()
    return f


@scenario(quick=[dict(f='reverse_dns_lookup'), dict(f='dns_lookup')])
def failing(ctx, f):
    g = getattr(dnsutils, f)
    hard = ctx.boolean('hard')
    # (getaddrinfo has no herror)
    name, make = ctx.choice('error', HARD if hard else [x for x in SOFT if x[0] != 'herror' or f == 'reverse_dns_lookup'])
    r, x = run(ctx, g, '1.2.3.4' if f == 'reverse_dns_lookup' else 'a.b', fails(make))
    if not hard:
        ctx.check(x is None, 'nothing raised')
        ctx.check(x is not None or len(list(r)) == 0, 'empty')


@scenario()
def reverse(ctx):
    name = ctx.str('name', 2, 'ab.')
    r, x = run(ctx, dnsutils.reverse_dns_lookup, '1.2.3.4', lambda: (name, ['alias'], ['1.2.3.4']))
    ctx.check(x is None, 'nothing raised')
    ctx.check(x is not None or list(r) == [name], 'name')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def forward(ctx, n):
    addresses = [ctx.str('a%d' % i, 1, '12:') for i in range(ctx.pick('n', n + 1))]
    info = []
    for i, a in enumerate(addresses):
        if ctx.boolean('v6%d' % i):
            info.append((socket.AF_INET6, socket.SOCK_STREAM, 6, '', (a, 80, 0, 0)))
        else:
            info.append((socket.AF_INET, socket.SOCK_STREAM, 6, '', (a, 80)))
    r, x = run(ctx, dnsutils.dns_lookup, 'a.b', lambda: info)
    ctx.check(x is None, 'nothing raised')
    if x is None:
        r = list(r)
        ctx.check(ctx.all([ctx.any([a == b for b in addresses]) for a in r] + [ctx.any([a == b for a in r]) for b in addresses]), 'addresses')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def sequence(ctx, n):
    """Lookups one after another, each with its own previous timeout."""
    for i in range(n):
        before = ctx.real('t%d' % i, 0, 10**6) if ctx.boolean('has %d' % i) else None
        back = ctx.boolean('back %d' % i)
        name = ctx.str('name%d' % i, 1, 'ab')
        error = ctx.choice('error %d' % i, [None, SOFT[0][1], SOFT[3][1]])
        answer = (lambda: (name, [], [])) if back else (lambda: [(2, 1, 6, '', (name, 80))])
        net = Net(ctx, before, fails(error) if error else answer)
        try:
            r = dnsutils.reverse_dns_lookup('1.2.3.%d' % i) if back else dnsutils.dns_lookup('a%d.b' % i)
            after = net.timeout
        finally:
            net.undo()
        ctx.check(after is None if before is None else after is not None and after == before, 'restored')
        if error:
            ctx.check(len(list(r)) == 0, 'empty')
        else:
            ctx.check(list(r) == [name], 'name' if back else 'addresses')


@scenario(quick=[dict(calls=3)], thorough=[dict(calls=4)])
def memo(ctx, calls):
    made = []
    kinds = ctx.choice('results', [lambda i: [i], lambda i: None, lambda i: (), lambda i: i])

    def f(*args):
        r = kinds(len(made))
        made.append((args, r))
        return r
    g = dnsutils.memoize(f)
    seen = []
    for i in range(calls):
        n = ctx.pick('n%d' % i, 3)
        args = tuple([ctx.str('s%d%d' % (i, j), 1, 'ab') if j else ctx.small('x%d' % i, 0, 2) for j in range(n)])
        old = [r for a, r in seen if len(a) == n and ctx.all([p == q for p, q in zip(a, args)])]
        k = len(made)
        r = g(*args)
        if old:
            ctx.check(len(made) == k, 'called once')
            ctx.check(r is old[0], 'result')
        else:
            ctx.check(len(made) == k + 1, 'calls')
            ctx.check(r is made[-1][1] and len(made[-1][0]) == n and ctx.all([p == q for p, q in zip(made[-1][0], args)]), 'result')
            seen.append((args, r))


@scenario()
def memo_many(ctx):
    """However many results there are."""
    made = []

    def f(x):
        made.append(x)
        return [x] * (x % 2)
    g = dnsutils.memoize(f)
    n = ctx.choice('n', [40, 2000])
    first = [g(i) for i in range(n)]
    i = ctx.choice('i', [0, 1, n // 2, n - 1])
    ctx.check(len(made) == n, 'calls')
    ctx.check(g(i) is first[i], 'result')
    ctx.check(len(made) == n, 'called once')
