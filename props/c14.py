"""C14: classification notes."""
from sx.harness import scenario
from sbclassifier.message import Classification, Message, from_bytes, from_string

META = dict(
    labels=['subject noted', 'to noted', 'others unchanged', 'bare note', 'nothing added', 'subject restored',
            'to restored', 'one note removed', 'nothing removed'],
    bounds='Subject and To absent or made of a prefix (empty, a note, two notes, a note in capitals or without comma) and 0, 1, 7 or 26 '
           '(thorough 60) symbolic characters, also 8-bit; once or twice in the message; every spelling of the header '
           'names (symbolic case); every classification and selection of notes; both removal flags',
    outside='longer texts; header values that are Header objects (set by the caller)',
    assumptions=[],
)

CLASSES = [Classification.ham, Classification.spam, Classification.unsure]
SUBJECTS = ['', 'spam,', 'ham,', 'unsure,', 'ham,spam,', 'Spam,', 'spam', ' spam,', 'spam@spambayes.invalid,']
TOS = ['', 'spam@spambayes.invalid,', 'ham@spambayes.invalid,', 'unsure@spambayes.invalid,',
       'unsure@spambayes.invalid,spam@spambayes.invalid,', 'spam,', 'ham@spambayes.invalid']


def headers(m):
    return [(k, str(v)) for k, v in m.raw_items()]


def mixed(ctx, name, text):
    """The text with every letter in lower or upper case."""
    return ''.join([ctx.str('%s%d' % (name, i), 1, c.lower() + c.upper()) for i, c in enumerate(text)])


def message(ctx, subject, to, name='Subject', name2='To'):
    m = Message()
    m['From'] = 'spam,me'
    if subject is not None:
        m[name] = subject
    m['X-Subject'] = 'ham,x'
    if to is not None:
        m[name2] = to
    m['Cc'] = 'ham@spambayes.invalid,you'
    return m


def stripped(value, notes):
    for n in notes:
        if value.startswith(n):
            return value[len(n):]
    return value


def selection(ctx, name):
    """Which classifications are noted."""
    return ctx.choice(name, [(), tuple(CLASSES), (CLASSES[0],), (CLASSES[1],), (CLASSES[2],), (CLASSES[1], CLASSES[2])])


def check_add(ctx, m, before, c, to, subject):
    """The headers after adding notes."""
    after = headers(m)
    want = list(before)
    for sel, name, note in ((to, 'to', c.name + '@spambayes.invalid'), (subject, 'subject', c.name)):
        if c not in sel:
            continue
        for i, (k, v) in enumerate(want):
            if k.lower() == name:
                want[i] = (k, note + ',' + v)
                break
        else:
            want.append(('To' if name == 'to' else 'Subject', note))
            ctx.reach('bare note')
        ctx.reach(name + ' noted')
    if want == before:
        ctx.check(after == want, 'nothing added')
    ctx.check(len(after) == len(want), 'others unchanged')
    for a, b in zip(after, want):
        ctx.check(a[0].lower() == b[0].lower(), 'others unchanged')
        k = a[0].lower()
        ctx.check(a[1] == b[1], 'subject noted' if k == 'subject' else 'to noted' if k == 'to' else 'others unchanged')


def check_removal(ctx, m, before, subject, to, label='one note removed'):
    after = headers(m)
    want = []
    seen = set()
    for k, v in before:
        if k.lower() == 'subject' and subject and 'subject' not in seen:
            v = stripped(v, [c.name + ',' for c in CLASSES])
        if k.lower() == 'to' and to and 'to' not in seen:
            v = stripped(v, [c.name + '@spambayes.invalid,' for c in CLASSES])
        seen.add(k.lower())
        want.append((k, v))
    ctx.check(len(after) == len(want), 'others unchanged')
    for a, b in zip(after, want):
        ctx.check(a[0] == b[0], 'others unchanged')
        ctx.check(a[1] == b[1], label)
    if not subject and not to:
        ctx.check(after == before, 'nothing removed')


@scenario(quick=[dict(n=0), dict(n=1), dict(n=7), dict(n=26)], thorough=[dict(n=2), dict(n=60)], weight=2)
def add_remove(ctx, n):
    which = ctx.pick('absent', 4)
    subject = to = None
    if which & 1 == 0:
        subject = ctx.choice('subject', SUBJECTS) + ctx.str('s', n)
    if which & 2 == 0:
        to = ctx.choice('to', TOS) + ctx.str('t', n)
    m = message(ctx, subject, to)
    before = headers(m)
    c = ctx.choice('class', CLASSES)
    m.set_classification(c)
    sel = (c,) if ctx.boolean('note') else ()
    m.add_notations(sel, sel)
    check_add(ctx, m, before, c, sel, sel)
    if not sel:
        return
    m.remove_notations(True, True)
    after = headers(m)
    kept = [x for x in after if x[0] in [k for k, v in before]]
    ctx.check(len(kept) == len(before), 'others unchanged')
    for a, b in zip(kept, before):
        ctx.check(a == b, {'Subject': 'subject restored', 'To': 'to restored'}.get(a[0], 'others unchanged'))


@scenario(quick=[{}])
def selections(ctx):
    """Which notes are added, and which removed."""
    m = message(ctx, 'a' + ctx.str('s', 1), 'b' + ctx.str('t', 1))
    before = headers(m)
    c = ctx.choice('class', CLASSES)
    m.set_classification(c)
    to, subject = selection(ctx, 'to_sel'), selection(ctx, 'subject_sel')
    m.add_notations(to, subject)
    check_add(ctx, m, before, c, to, subject)
    before = headers(m)
    a, b = ctx.boolean('remove_subject'), ctx.boolean('remove_to')
    if ctx.boolean('keywords'):
        m.remove_notations(remove_subject_notations=a, remove_to_notations=b)
    else:
        m.remove_notations(a, b)
    check_removal(ctx, m, before, a, b)


@scenario(quick=[dict(n=1), dict(n=7), dict(n=26)], thorough=[dict(n=2), dict(n=60)])
def remove_only(ctx, n):
    """Messages with notes from elsewhere."""
    subject = ctx.choice('subject', SUBJECTS) + ctx.str('s', n)
    to = ctx.choice('to', TOS) + ctx.str('t', n)
    m = message(ctx, subject, to)
    before = headers(m)
    a, b = ctx.boolean('remove_subject'), ctx.boolean('remove_to')
    if a or b:
        m.remove_notations(a, b)
    else:
        m.remove_notations()
    check_removal(ctx, m, before, a, b)


@scenario(quick=[{}])
def names(ctx):
    """Header names in any case, repeated headers."""
    m = message(ctx, 'spam,x', 'ham@spambayes.invalid,y', mixed(ctx, 'S', 'subject'), mixed(ctx, 'T', 'to'))
    if ctx.boolean('twice'):
        m['Subject'] = 'unsure,z'
        m['To'] = 'spam@spambayes.invalid,w'
    before = headers(m)
    c = ctx.choice('class', CLASSES)
    m.set_classification(c)
    m.add_notations((c,), (c,))
    check_add(ctx, m, before, c, (c,), (c,))
    m.remove_notations(True, True)
    ctx.check(headers(m) == before, 'subject restored')
    m.remove_notations(True, True)
    check_removal(ctx, m, before, True, True)


@scenario(quick=[dict(kind='bytes'), dict(kind='str')])
def parsed(ctx, kind):
    """Notes in parsed messages, with 8-bit and folded headers."""
    if kind == 'bytes':
        m = from_bytes(b'Subject: ' + ctx.choice('pre', SUBJECTS[:5]).encode() + ctx.bytes('s', 2, b'a \xe9\xff,') +
                       b'\n folded\nTo: ' + ctx.bytes('t', 1, b'a\x80') + b'x\n\nbody')
    else:
        m = from_string('Subject: ' + ctx.choice('pre', SUBJECTS[:5]) + ctx.str('s', 2, 'a \xe9\u20ac,') + '\n folded\nTo: ' +
                        ctx.str('t', 1, 'a\x80') + 'x\n\nbody')
    before = headers(m)
    c = ctx.choice('class', CLASSES)
    m.set_classification(c)
    m.add_notations((c,), (c,))
    check_add(ctx, m, before, c, (c,), (c,))
    m.remove_notations(True, True)
    ctx.check(headers(m) == before, 'subject restored')
