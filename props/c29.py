"""C29: the networks of an IP address."""
from sx.harness import scenario
from sbclassifier.iputils import subnets, gen_dotted_quad_clues
import ipaddress

META = dict(
    labels=['number of networks', 'network', 'prefix length', 'text', 'clue', 'number of clues'],
    bounds='all 2^32 addresses, as text and as address objects; each prefix length 0 to 32, pairs of prefix lengths, the default lengths; a prefix of up to '
           '2 symbolic characters',
    outside='IPv6 addresses (the networks of those are a matter of ipaddress); addresses that are not valid',
    assumptions=['the ipaddress module is executed from its source'],
)


def address(ctx, kind):
    """(what to pass, the octets)"""
    octets = [ctx.small('o%d' % i, 0, 255) for i in range(4)]
    text = '.'.join([str(o) for o in octets])
    return (ipaddress.ip_address(text) if kind == 'object' else text), octets


def network(octets, n):
    """Text of the network of length n."""
    out = []
    for i, o in enumerate(octets):
        free = 8 - min(8, max(0, n - 8 * i))
        out.append(o - o % (1 << free))
    return out


def text_of(octets, n):
    return '%s/%d' % ('.'.join([str(o) for o in network(octets, n)]), n)


def compare(ctx, nets, octets, lengths):
    nets = list(nets)
    ctx.check(len(nets) == len(lengths), 'number of networks')
    for net, n in zip(nets, lengths):
        ctx.check(net.prefixlen == n, 'prefix length')
        ctx.check(str(net) == text_of(octets, n), 'text')
        ctx.check(list(net.network_address.packed) == network(octets, n), 'network')


@scenario(quick=[dict(kind='text'), dict(kind='object')])
def one(ctx, kind):
    a, octets = address(ctx, kind)
    n = ctx.pick('n', 33)
    compare(ctx, subnets(a, (n,)), octets, [n])


@scenario()
def default(ctx):
    a, octets = address(ctx, 'text')
    compare(ctx, subnets(a), octets, [8, 16, 24, 32])


@scenario(quick=[dict(lengths=(24, 8)), dict(lengths=(0, 32, 7)), dict(lengths=(16, 8, 16)), dict(lengths=())])
def several(ctx, lengths):
    a, octets = address(ctx, 'text')
    compare(ctx, subnets(a, prefix_lengths=iter(lengths) if ctx.boolean('iterator') else lengths), octets, list(lengths))


@scenario()
def clues(ctx):
    a, octets = address(ctx, 'text')
    prefix = ctx.str('p', 2, 'a:{}%')
    got = list(gen_dotted_quad_clues(prefix, a))
    ctx.check(len(got) == 4, 'number of clues')
    for g, n in zip(got, (8, 16, 24, 32)):
        ctx.check(g == prefix + ':' + text_of(octets, n), 'clue')
