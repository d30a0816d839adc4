"""C40: tokenizing changes nothing and depends on the message alone."""
from sx.harness import scenario
from props import ref
import sbclassifier.tokenizer as tokenizer
import sbclassifier.message
from sbclassifier.message import Classification, from_bytes, from_string

META = dict(
    labels=['message unchanged', 'same again', 'independent', 'interleaved', 'new tokenizer', 'as str'],
    bounds='9 messages that use every header and body feature (options off and on), each with 1 or 2 (thorough: up to 3) symbolic bytes at any of its delicate places; '
           'token streams consumed to any depth; any ordered pair of these messages, one after the other, or (without symbolic bytes, options on) interleaved: switched '
           'after any token of the first stream, then after 4 (thorough: twice 4) different numbers of tokens',
    outside='longer symbolic parts; more than two streams at once; threads',
    assumptions=['the resolver is a stand-in that always gives the same answer'],
)

MESSAGES = [
    b'From: Jo <a@b.c>\nSender: <s@t>\nTo: d@e, "F, g" <h@i>\nSubject: Hi =?utf-8?q?=C3=A9a?= x@!\nReceived: from a.b ([1.2.3.4]) by c\nMessage-Id: <x@y.z>\n'
    b'X-Mailer: M 1\nNNTP-Posting-Host: 1.2.3.4\n\nSome text http://a.b/c@d a <!-- b --> c\n',
    b'Content-Type: text/html; charset="utf-8"; type="x/y"\nContent-Disposition: attachment; filename="a.b/c@"\nContent-Transfer-Encoding: 7bit\n'
    b'HABEAS-SWE-1: winter into spring\n\n<style>z</style><b>x@</b>&#65;&nbsp;<noframes>q</noframes>y@ src=cid:3',
    b'Content-Type: text/plain\nContent-Transfer-Encoding: base64\nSubject: @\n\nSGVsbG8gd29y\nbGQ=\n--\nmo@e\n',
    b'Content-Transfer-Encoding: quoted-printable\nSubject: =?x?q?y@?=\n\na=20b=\nc=3D@\nbegin 644 f.c\n#0V%T\n`\nend\nx',
    b'Content-Type: multipart/mixed; boundary="bb"\nTo: @x\n\npre\n--bb\nContent-Type: image/png\nContent-Transfer-Encoding: base64\n\nQUJDREVGRw==\n--bb\n'
    b'Content-Type: application/octet-stream; name="a@.b"\n\nabcdef@\n--bb\nContent-Type: message/rfc822\n\nSubject: in@\n\ninner@\n--bb--\npost',
    b'Subject: same\nContent-Type: multipart/mixed; boundary="c"\n\n--c\n\none @\n--c\nContent-Type: text/html\n\n<p>two@<br>\n--c--\n',
    b'Received: from z.y ([5.6.7.8]) by c\nCC: aa@bb, ab@bb\nSubject: same\n\nSome http://e.f/www. text ftp.a.b@ a b c de fg x12345678901234567890@y.z\n',
    b'To: \nSubject: \n\n',
    b'\nSubject: in the body @\n\n',
]

OPTIONS = ['MINE_RECEIVED_HEADERS', 'X_MINE_NNTP_HEADERS', 'CHECK_OCTETS', 'IMAGE_SIZE', 'X_SHORT_RUNS', 'COUNT_ALL_HEADER_LINES',
           'RECORD_HEADER_ABSENCE', 'SUMMARIZE_EMAIL_PREFIXES', 'SUMMARIZE_EMAIL_SUFFIXES', 'X_SEARCH_FOR_HABEAS_HEADERS',
           'X_REDUCE_HABEAS_HEADERS', 'REPLACE_NONASCII_CHARS']
ALPHA = b'az@<>&;=:. \n\t"?%1-'


class Options:
    def __init__(self, on):
        self.values = dict.fromkeys(OPTIONS, on)
        self.values['dns_lookup'] = lambda name: ('9.8.7.6',)
        self.values['reverse_dns_lookup'] = lambda address: ('h.dom.ain',)

    def __enter__(self):
        self.saved = {n: getattr(tokenizer, n) for n in self.values}
        for n in self.values:
            setattr(tokenizer, n, self.values[n])

    def __exit__(self, *a):
        for n in self.saved:
            setattr(tokenizer, n, self.saved[n])


def snapshot(m):
    """Everything one can get at, without the list objects."""
    p = m.get_payload()
    return ([(k, str(v)) for k, v in m.raw_items()],
            [snapshot(x) for x in p] if isinstance(p, list) else p,
            m.preamble, m.epilogue, m.get_unixfrom(), m.get_default_type(), m.id(), m.classification(), m.is_trained())


def mark(ctx, m):
    """An id, class and training flag for the message and its parts."""
    for i, x in enumerate(m.walk()):
        x.set_id('id%d' % i)
        x.set_classification(Classification.unsure)
        x.remember_trained(ctx.boolean('trained') if i == 0 else False)


def fill(ctx, text, n):
    """The message with symbolic bytes at one of its places."""
    at = [i for i in range(len(text)) if text[i:i + 1] == b'@']
    if not at:
        return text + ctx.bytes('v', n, ALPHA)
    i = ctx.choice('at', at)
    return text[:i] + ctx.bytes('v', n, ALPHA) + text[i + ctx.pick('replace', 2):]


def tokens(m, how=None):
    return list((how or tokenizer.tokenize)(m))


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)])
def pure(ctx, n):
    """Whole or partly consumed, again, and by a new tokenizer."""
    m = from_bytes(fill(ctx, ctx.choice('m', MESSAGES), n))
    mark(ctx, m)
    before = snapshot(m)
    with Options(ctx.boolean('options')):
        depth = ctx.choice('depth', [None, 0, 1, 3, 8, 20])
        if depth is not None:
            g = iter(tokenizer.tokenize(m))
            for _ in range(depth):
                if next(g, None) is None:
                    break
            ctx.check(snapshot(m) == before, 'message unchanged')
            del g
        first = tokens(m)
        ctx.check(snapshot(m) == before, 'message unchanged')
        again = tokens(m)
        ctx.check(ref.same(ctx, first, again), 'same again')
        ctx.check(ref.same(ctx, first, tokens(m, tokenizer.Tokenizer())), 'new tokenizer')
    ctx.check(snapshot(m) == before, 'message unchanged')


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)])
def basic_headers(ctx, n):
    m = from_bytes(fill(ctx, ctx.choice('m', MESSAGES), n))
    mark(ctx, m)
    before = snapshot(m)
    plain = tokens(m)
    only = ctx.boolean('only')
    first = list(tokenizer.tokenize(m, True, only))
    ctx.check(snapshot(m) == before, 'message unchanged')
    ctx.check(ref.same(ctx, first, list(tokenizer.tokenize(m, basic_header_tokenize=True, basic_header_tokenize_only=only))), 'same again')
    ctx.check(ref.same(ctx, plain, tokens(m)), 'same again')


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)])
def in_any_company(ctx, n):
    """Before and after another message."""
    text = fill(ctx, ctx.choice('m', MESSAGES), n)
    other = ctx.choice('other', MESSAGES)
    options = ctx.boolean('options')
    with Options(options):
        alone = tokens(from_bytes(text))
    ctx.restart()
    with Options(options):
        g = iter(tokenizer.tokenize(from_bytes(other)))
        for _ in range(ctx.choice('depth', [100, 12])):
            if next(g, None) is None:
                break
        got = tokens(from_bytes(text))
        ctx.check(ref.same(ctx, alone, got), 'independent')


@scenario(quick=[dict(switches=2)], thorough=[dict(switches=3)], weight=2)
def interleaved(ctx, switches):
    """Two token streams consumed in turn, after any number of steps each."""
    texts = [ctx.choice('m', MESSAGES), ctx.choice('other', MESSAGES)]
    with Options(True):
        wants = [tokens(from_bytes(x)) for x in texts]
        streams = [iter(tokenizer.tokenize(from_bytes(x))) for x in texts]
        got = [[], []]
        turn = 0
        for i in range(switches):
            left = len(wants[turn]) - len(got[turn])
            steps = ctx.pick('steps%d' % i, left + 1) if i == 0 else ctx.choice('steps%d' % i, [1, 5, left - 1, left])
            for _ in range(steps):
                t = next(streams[turn], None)
                if t is None:
                    break
                got[turn].append(t)
            turn = 1 - turn
        for i in (turn, 1 - turn):
            got[i].extend(streams[i])
        for i in range(2):
            ctx.check(len(got[i]) == len(wants[i]), 'interleaved')
            ctx.check(ref.same(ctx, wants[i], got[i]), 'interleaved')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def forms(ctx, n):
    """The same text as a message and as str."""
    data = fill(ctx, ctx.choice('m', MESSAGES), n)
    text = data.decode('ascii')
    want = tokens(from_bytes(data))
    ctx.check(ref.same(ctx, want, tokens(text)), 'as str')
    ctx.check(ref.same(ctx, want, tokens(from_string(text))), 'as str')
