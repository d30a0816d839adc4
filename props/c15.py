"""C15: adding and stripping our own headers."""
from email.header import Header
import re

from sx.harness import scenario
from sbclassifier.message import Classification, Message, from_bytes, from_string

META = dict(
    labels=['stripped', 'others kept', 'current headers', 'classification header', 'added headers', 'score header',
            'level header', 'id header', 'evidence header', 'round trip', 'notes'],
    bounds='header names: each of the 7 in every letter case, with one symbolic character in place of one of 3 positions or '
           'appended, or a fully symbolic name of its length; up to 3 of our headers in any order with others; every '
           'selection of optional headers, scores from a list of 12 around the cutoffs (the classification header: every '
           'double); evidence of 3 clues (probabilities and cutoffs from lists); with and without notes',
    outside='values that are Header objects; more clues (folding is checked up to 12 clues)',
    assumptions=[],
)

NAMES = ['X-Spambayes-Classification', 'X-Spambayes-MailId', 'X-Spambayes-Classification-ID', 'X-Spambayes-Level',
         'X-Spambayes-Evidence', 'X-Spambayes-Spam-Probability', 'X-Spambayes-Trained']
LOWER = [n.lower() for n in NAMES]
CLASSES = [Classification.ham, Classification.spam, Classification.unsure]
PROBS = [0.0, 1e-7, 0.004, 0.19999, 0.2, 0.5, 0.7, 0.9, 0.90001, 0.995, 0.9999, 1.0]


def headers(m):
    return [(k, str(v)) for k, v in m.raw_items()]


def ours(name):
    name = name.lower()
    return any([name == n for n in LOWER])


def mixed(ctx, name, text):
    return ''.join([ctx.str('%s%d' % (name, i), 1, c.lower() + c.upper()) if c.isalpha() else c
                    for i, c in enumerate(text)])


def check_strip(ctx, m, before):
    """Our headers are gone, the others unchanged (no notes in there)."""
    cur = m.current_sb_headers()
    want = {}
    for n in NAMES:
        for k, v in before:
            if k.lower() == n.lower():
                want[n] = v
                break
    ctx.check(len(cur) == len(want), 'current headers')
    for n in want:
        ctx.check(n in cur, 'current headers')
        ctx.check(cur[n] == want[n], 'current headers')
    ctx.check(headers(m) == before, 'current headers')
    m.remove_sb_headers()
    after = headers(m)
    kept = [h for h in before if not ours(h[0])]
    for k, v in after:
        ctx.check(not ours(k), 'stripped')
    ctx.check(len(after) == len(kept), 'others kept')
    for a, b in zip(after, kept):
        ctx.check(a == b, 'others kept')


@scenario(quick=[{}])
def strip_names(ctx):
    n = ctx.choice('name', NAMES)
    name = mixed(ctx, 'n', n)
    i = ctx.choice('pos', [0, len(n) // 2, len(n) - 1, len(n), None])
    if i is not None:
        name = name[:i] + ctx.str('c', 1, ''.join(map(chr, range(33, 127))).replace(':', '')) + name[i + 1:]
    m = Message()
    m['From'] = 'x'
    m[name] = 'v' + ctx.str('v', 1)
    m['Subject'] = 's'
    m['X-Spambayes-Exception'] = 'e'
    m['To'] = 't'
    check_strip(ctx, m, headers(m))


@scenario(quick=[{}])
def strip_any(ctx):
    """Fully symbolic names."""
    n = ctx.choice('name', NAMES)
    name = ctx.str('n', len(n), ''.join(map(chr, range(33, 127))).replace(':', ''))
    m = Message()
    m['From'] = 'x'
    m[name] = 'v'
    m['Subject'] = 's'
    m['To'] = 't'
    check_strip(ctx, m, headers(m))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def strip_many(ctx, n):
    """Several of our headers, also the same one repeatedly, among others."""
    m = Message()
    m['Received'] = 'a'
    for i in range(n):
        m[ctx.choice('name%d' % i, NAMES + ['X-Other'])] = ctx.str('v%d' % i, 1)
        m['Received'] = 'b%d' % i
    m['Subject'] = 'c'
    check_strip(ctx, m, headers(m))


@scenario(quick=[{}])
def parsed(ctx):
    """Our headers in a message from outside."""
    m = from_bytes(b'From: a\nx-spambayes-CLASSIFICATION: ham\n' + ctx.bytes('s', 1, b'xX') +
                   b'-Spambayes-Evidence: a;\n\tb\nX-Y: ' + ctx.bytes('t', 1, b'a\xe9') +
                   b'\nX-Spambayes-Mailid: 1\nX-Spambayes-MailId: 2\n\nX-Spambayes-Level: body\n')
    check_strip(ctx, m, headers(m))
    ctx.check(m.get_payload() == 'X-Spambayes-Level: body\n', 'others kept')


@scenario(quick=[{}])
def notes(ctx):
    """The two flags of remove_sb_headers."""
    m = Message()
    m['Subject'] = ctx.choice('s', ['', 'spam,', 'ham,']) + ctx.str('s1', 1)
    m['To'] = ctx.choice('t', ['', 'spam@spambayes.invalid,', 'unsure@spambayes.invalid,']) + ctx.str('t1', 1)
    m['X-Spambayes-Level'] = '*'
    s, t = m['Subject'], m['To']
    how = ctx.pick('how', 6)
    if how == 4:
        m.remove_sb_headers()
        a = b = True
    elif how == 5:
        m.remove_sb_headers(False)
        a, b = True, False
    else:
        a, b = bool(how & 1), bool(how & 2)
        m.remove_sb_headers(remove_to_notations=b, remove_subject_notations=a)
    if a and s[:-1]:
        s = s[-1:]
    if b and t[:-1]:
        t = t[-1:]
    ctx.check(headers(m) == [('Subject', s), ('To', t)], 'notes')


def unfold(s):
    return re.sub('\n[ \t]', ' ', s)


@scenario(quick=[{}], weight=2)
def add(ctx):
    m = Message('i' + ctx.str('id', 1) if ctx.boolean('has_id') else None)
    m['From'] = 'x'
    if ctx.boolean('old'):
        m['X-Spambayes-Classification'] = 'spam'
        m.remove_sb_headers()
    m['Subject'] = 'y'
    m['To'] = 'z'
    before = headers(m)
    prob = ctx.choice('prob', PROBS)
    score, level, uid = ctx.boolean('score'), ctx.boolean('level'), ctx.boolean('uid')
    digits = ctx.choice('digits', [2, 5])
    m.add_sb_headers(prob, [], include_thermostat=level, include_score=score, header_score_digits=digits,
                     add_unique_id=uid)
    after = headers(m)
    ctx.check(after[:len(before)] == before, 'others kept')
    name = 'ham' if prob < 0.2 else 'spam' if prob > 0.9 else 'unsure'
    want = {'X-Spambayes-Classification': name}
    if score:
        want['X-Spambayes-Spam-Probability'] = '%.*f' % (digits, prob)
    if level:
        want['X-Spambayes-Level'] = '*' * int(prob * 10)
    if uid and m.id() is not None:
        want['X-Spambayes-MailId'] = m.id()
    added = after[len(before):]
    ctx.check(len(added) == len(want), 'added headers')
    for k, v in added:
        ctx.check(k in want, 'added headers')
        label = {'X-Spambayes-Spam-Probability': 'score header', 'X-Spambayes-Level': 'level header',
                 'X-Spambayes-MailId': 'id header'}.get(k, 'classification header')
        ctx.check(v == want[k], label)
    ctx.check(m.classification() is Classification[name], 'classification header')
    ctx.check(m.current_sb_headers() == want, 'current headers')
    m.remove_sb_headers()
    ctx.check(headers(m) == before, 'round trip')


@scenario(quick=[{}])
def any_score(ctx):
    prob = ctx.float('prob')
    ctx.assume(ctx.all([prob >= 0.0, prob <= 1.0]))
    m = Message()
    m['Subject'] = 'x'
    m.add_sb_headers(prob, [])
    name = 'ham' if prob < 0.2 else 'spam' if prob > 0.9 else 'unsure'
    ctx.check(headers(m) == [('Subject', 'x'), ('X-Spambayes-Classification', name)], 'classification header')


@scenario(quick=[{}])
def logarithm(ctx):
    """The score header starts with the score, whatever follows."""
    prob = ctx.choice('prob', PROBS + [0.005, 1e-300, 1 - 2 ** -53])
    m = Message()
    m.add_sb_headers(prob, [], include_score=True, header_score_logarithm=True)
    v = m['X-Spambayes-Spam-Probability']
    ctx.check(v == '%.2f' % prob or v.startswith('%.2f (' % prob), 'score header')


@scenario(quick=[dict(n=3), dict(n=12)])
def evidence(ctx, n):
    m = Message()
    cut = ctx.choice('cut', [0.5, 0.1, 0.0])
    clues = [(b'*H*', 0.5), (b'*S*', 0.25)]
    for i in range(n):
        kind = ctx.pick('kind%d' % i, 3) if n < 4 else i % 3
        word = [b'w%d' % i + b'x' * (3 * i), 'str%d' % i + 'y' * i, b'\xe9%d\n' % i][kind]
        clues.append((word, ctx.choice('p%d' % i, [0.02, 0.4, 0.9, 0.97]) if n < 4 else (i * 7 % 13) / 13.0))
    m['Subject'] = 'x'
    m.add_sb_headers(0.5, list(clues), include_evidence=True, clue_mailheader_cutoff=cut)
    v = m['X-Spambayes-Evidence']
    for line in v.split('\n')[1:]:
        ctx.check(line[:1] in (' ', '\t'), 'evidence header')
    want = [(w, p) for w, p in clues if w in (b'*H*', b'*S*') or p <= cut or p >= 1 - cut]
    got = unfold(v).split('; ')
    ctx.check(len(got) == len(want), 'evidence header')
    for g, (w, p) in zip(got, want):
        forms = [w] if isinstance(w, bytes) else [w, Header(w, charset='utf-8').encode()]
        ctx.check(g in ['%r: %.2f' % (f, p) for f in forms], 'evidence header')
    m.remove_sb_headers()
    ctx.check(headers(m) == [('Subject', 'x')], 'round trip')


@scenario(quick=[{}])
def round_trip(ctx):
    """Everything added, with notes, then stripped."""
    s = ctx.str('s', 1)
    ctx.assume(ctx.all([s != '\n', s != '\r']))   # the message keeps its To header
    m = from_string('From: a\nSubject: s' + s + '\nTo: t' + ctx.str('t', 1, 'x \xe9,') + '\nX-Z: q\n\nbody')
    if ctx.boolean('id'):
        m.set_id('abc')
    before, body = headers(m), m.get_payload()
    c = tuple(CLASSES)
    prob = ctx.choice('prob', [0.1, 0.5, 0.95])
    m.add_sb_headers(prob, [(b'a', 0.9)], True, True, 2, ctx.boolean('log'), True, 0.5, True,
                     notate_to=c if ctx.boolean('nto') else None, notate_subject=c if ctx.boolean('nsubject') else None)
    ctx.check(len(headers(m)) >= len(before) + 4, 'added headers')
    m.remove_sb_headers()
    ctx.check(headers(m) == before, 'round trip')
    ctx.check(m.get_payload() == body, 'others kept')
