"""C34: tokens from the MIME headers of every part."""
from sx.harness import scenario
from props import ref
import sbclassifier.tokenizer as tokenizer
from sbclassifier.message import from_bytes, from_string

META = dict(
    labels=['type', 'charset', 'disposition', 'file name', 'every part'],
    bounds='content types with 4 symbolic characters (thorough: 6) in 3 shapes; type parameters, charsets and dispositions with 2 symbolic characters each (thorough: 4), quoted, bare or (types) in RFC 2231 form; '
           'file names with 4 symbolic characters (thorough: 6) in 5 spellings (quoted, bare, name=, RFC 2231 with 2 symbolic hex digits, continued) and 11 odd names; '
           'messages of up to 2 parts (thorough: 3) of 8 kinds in 4 structures with one symbolic letter each; up to 121 parts',
    outside='the parsing of header parameters, which is that of the email package; parameters that cannot be decoded (C22)',
)

PREFIXES = (b'content-type:', b'content-type/type:', b'charset:', b'content-disposition:', b'filename:')


def tokens(msg, prefixes=PREFIXES):
    return [t for t in tokenizer.tokenize(msg) if t.startswith(prefixes)]


def enc(s):
    return s.encode('utf-8', 'surrogatepass')


def split(s, seps):
    out = []
    i = 0
    for j in range(len(s)):
        if s[j] in seps:
            out.append(s[i:j])
            i = j + 1
    out.append(s[i:])
    return out


def filename(name):
    want = [enc('filename:fname:' + name)]
    comps = split(name, '/\\:')
    for c in comps:
        if len(comps) > 1:
            want.append(enc('filename:fname comp:' + c))
        pieces = split(c, ';?:@&=+,$.')
        if len(pieces) > 1:
            want += [enc('filename:fname piece:' + p) for p in pieces]
    return want


def described(ctype='text/plain', type=None, charset=None, disposition=None, name=None):
    want = [enc('content-type:' + ctype.lower())]
    if type is not None:
        want.append(enc('content-type/type:' + type.lower()))
    if charset is not None:
        want.append(enc('charset:' + charset.lower()))
    if disposition is not None:
        want.append(enc('content-disposition:' + disposition.lower()))
    if name is not None:
        want += filename(name)
    return want


@scenario(quick=[dict(n=4)], thorough=[dict(n=6)])
def ctype(ctx, n):
    """The type, perhaps malformed."""
    v = ctx.choice('pre', ['', 'Text', 'image/']) + ctx.str('s', n, 'aZ/; \t-"') + ctx.choice('post', ['', '/html; x=y'])
    main = split(v, ';')[0].strip().lower()
    if main.count('/') != 1:
        main = 'text/plain'
    if main.startswith('multipart/') or main.startswith('message/'):
        return
    got = tokens(from_string('Subject: x\nContent-Type: ' + v + '\n\nbody\n'), (b'content-type:',))
    ctx.check(ref.same(ctx, got, [enc('content-type:' + main)]), 'type')


WORD = 'aZ9-_\xe9'


@scenario(quick=[dict(n=2)], thorough=[dict(n=4)])
def params(ctx, n):
    """The type parameter, the charset and the disposition."""
    head = 'Subject: x\nContent-Type: Application/X-Foo'
    want = dict(ctype='application/x-foo')
    kind = ctx.pick('kind', 5)
    w = ctx.str('w', n, 'aZ9-_ ;=' if kind == 2 else 'aZ9-_')
    if kind == 0:
        head += '; type=' + w
        want['type'] = w
    elif kind == 1:
        head += ';\n\tTYPE="A/' + w + '"'
        want['type'] = 'A/' + w
    elif kind == 2:
        head += '; type="' + w + 'Z"'
        want['type'] = w + 'Z'
    elif kind == 3:
        # RFC 2231
        h = ctx.choice('h0', ['2', '4']) + ctx.str('h', 1, '0123456789aAfF')
        head += "; type*=us-ascii'en'" + w + '%' + h
        want['type'] = w + chr(int(h, 16))
    if ctx.boolean('charset'):
        c = ctx.str('c', n, 'aZ9-_')
        spell = ctx.pick('spell', 3)
        head += ['; charset=', ';charset="', '; a=b; Charset='][spell] + c + ['', '"', ''][spell]
        want['charset'] = c
    elif ctx.boolean('disposition'):
        d = ctx.choice('dpre', ['', 'Inline', 'x; y=z']) + ctx.str('d', n, 'aZ;= \xe9')
        ctx.assume(d.strip(' \t') == d)
        head += '\nContent-Disposition: ' + d
        want['disposition'] = d
    got = tokens(from_string(head + '\n\nbody\n'))
    label = 'disposition' if 'disposition' in want else 'charset' if 'charset' in want else 'type'
    # (a disposition may name a file)
    if label == 'disposition':
        got = [t for t in got if not t.startswith(b'filename:')]
    ctx.check(ref.same(ctx, got, described(**want)), label)


@scenario(quick=[dict(n=4)], thorough=[dict(n=6)])
def names(ctx, n):
    """File names."""
    kind = ctx.pick('kind', 6)
    head = 'Subject: x\nContent-Type: image/gif'
    disp = 'attachment'
    if kind == 0:
        # quoted
        s = ctx.str('s', n, 'aB/\\:.&; \xe9')
        name = ctx.choice('pre', ['a', 'C:']) + s + ctx.choice('post', ['z', '.Exe'])
        disp += '; filename="' + name + '"'
        name = name.replace('\\\\', '\\')
    elif kind == 1:
        # bare
        name = 'a' + ctx.str('s', n, 'aB/:.&\xe9@?+,$') + 'b'
        disp += '; filename=' + name
    elif kind == 2:
        # the name of the content type counts if there is no other
        name = 'a' + ctx.str('s', n, 'aB/:.\xe9') + 'b'
        head += '; name="' + name + '"'
        disp = ctx.choice('disp', [None, 'inline'])
        if ctx.boolean('both'):
            disp = 'attachment; filename="other.txt"'
            name = 'other.txt'
    elif kind == 3:
        # RFC 2231
        h = ctx.str('h', 2, '0123456789abcdefABCDEF')
        disp += "; filename*=iso-8859-1'en'n%" + h + '.%54xt'
        name = ('n' + bytes([int(h, 16)]).decode('latin-1') + '.Txt')
    elif kind == 5:
        name = ctx.choice('name', ['a/a', 'A:A', 'a/b/a', '/', '//', 'a/', ':a', 'x.x', '.', 'a.', 'A/a'])
        disp += '; filename="' + name + '"'
    else:
        s = ctx.str('s', 2, 'aB/:. ')
        disp += '; filename*0="x' + s + '"; filename*1="' + s + 'y.e"'
        name = 'x' + s + s + 'y.e'
    if disp is not None:
        head += '\nContent-Disposition: ' + disp
    got = tokens(from_string(head + '\n\nbody\n'))
    ctx.check(ref.same(ctx, got, described('image/gif', disposition=disp, name=name)), 'file name')


@scenario(quick=[dict(k=2)], thorough=[dict(k=3)])
def parts(ctx, k):
    """Every part is described, and the message itself."""
    want = []
    sections = []
    for i in range(k):
        kind = ctx.pick('kind%d' % i, 8)
        s = ctx.str('s%d' % i, 1, 'aZ.-') + str(i)
        digest = False
        if kind == 0:
            head = ''
            w = None
        elif kind == 1:
            head = 'Content-Type: Text/X' + s + '; charset=C' + s + '\n'
            w = described('Text/X' + s, charset='C' + s)
        elif kind == 2:
            head = 'Content-Type: image/png; name=P' + s + '\n'
            w = described('image/png', name='P' + s)
        elif kind == 3:
            head = 'Content-Disposition: A' + s + '\nContent-Type: application/' + s + '; type=T' + s + '\n'
            w = described('application/' + s, type='T' + s, disposition='A' + s)
        elif kind == 4:
            head = 'Content-Type: rub' + s + '\n'
            w = described()
        elif kind == 5:
            head = 'content-type: message/rfc822\n\nSubject: inner\nContent-Type: text/' + s + '\n'
            w = described('message/rfc822') + described('text/' + s)
        elif kind == 6:
            head = 'Content-Type: multipart/related; boundary=q; type=T' + s + '\n\n--q\nContent-Type: text/i' + s + '\n\ninner\n--q--\n'
            w = described('multipart/related', type='T' + s) + described('text/i' + s)
        else:
            head = 'Content-Transfer-Encoding: base64\nContent-Type: audio/' + s + '\n'
            w = described('audio/' + s)
        sections.append((head, w))
    structure = ctx.pick('structure', 4)
    outer = ['multipart/mixed', 'multipart/digest', 'multipart/mixed', 'multipart/Alternative'][structure]
    body = ''
    for head, w in sections:
        body += '--bb\n' + head + '\nQUFB\n'
        if w is None:
            # (the default type depends on the multipart)
            w = described('message/rfc822') + described() if structure == 1 else described()
        want += w
    want += described(outer)
    msg = 'Content-Type: ' + outer + '; boundary=bb\n\npre\n' + body + '--bb--\nepi\n'
    if structure == 2:
        msg = 'Content-Type: message/rfc822\n\nA: b\n' + msg
        want += described('message/rfc822')
    got = tokens(from_bytes(('Subject: Hello\n' + msg).encode('ascii')))
    ctx.check(ref.same(ctx, got, want), 'every part')


@scenario()
def many(ctx):
    """Many parts."""
    n = ctx.choice('n', [25, 120])
    s = ctx.str('s', 1, 'aZ.-')
    want = described('multipart/mixed')
    text = 'Content-Type: multipart/mixed; boundary=bb\n\n'
    for i in range(n):
        text += '--bb\nContent-Type: image/x%d; name=n%d\n\nQUFB\n' % (i, i)
        want += described('image/x%d' % i, name='n%d' % i)
    text += '--bb\nContent-Type: text/y' + s + '; charset=C' + s + '\n\nx\n--bb--\n'
    want += described('text/y' + s, charset='C' + s)
    ctx.check(ref.same(ctx, tokens(from_string(text)), want), 'every part')
