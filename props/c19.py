"""C19: a file corpus is the set of message files in its directory."""
import fnmatch
import os

from sx.harness import scenario
from sbclassifier.corpora import FileCorpus, message_added, message_removed
from sbclassifier.message import from_bytes

META = dict(
    labels=['files', 'file content', 'length', 'keys', 'values', 'lookup', 'loaded id', 'absent', 'filter', 'other files',
            'signals'],
    bounds='histories of 4 operations (thorough: 5) add/lookup/remove/reopen, memory cache of 1, 2 or the default number of messages, '
           'arbitrary (possibly equal) one-character ids out of 6, 4 name filters, messages of different lengths with a symbolic subject and body of 2 bytes; '
           'other files and a directory beside the messages; a corpus of 300 messages',
    outside='ids with slashes; concurrent changes of the directory; failing file operations; long histories',
    assumptions=['the file system behaves as its documentation says'],
)

IDS = 'ab.1[é'


def message(ctx, i, key, rich=False):
    s = ctx.bytes('subject%d' % i, 1, b'xy\xe9' if rich else b'xyzXYZ019')
    b = ctx.bytes('body%d' % i, 2, b'abcFrom >.\n\xe9' if rich else b'xyzXYZ019')
    return from_bytes(b'Subject: ' + s + b'\n\n' + b'%d' % i + b + b'.' * (7 * (i + 1) % 5), key)


def listing(d):
    return list(os.listdir(d))


def same_set(ctx, got, want, label):
    got = list(got)
    ctx.check(len(got) == len(want), label)
    for k in want:
        ctx.check(ctx.any([k == g for g in got]), label)


def check(ctx, c, d, model, others=()):
    same_set(ctx, listing(d), [k for k, m in model] + list(others), 'files')
    for k, m in model:
        with open(os.path.join(d, k), 'rb') as f:
            ctx.check(f.read() == m.as_bytes(), 'file content')
    if c is None:
        return
    ctx.check(len(c) == len(model), 'length')
    same_set(ctx, c, [k for k, m in model], 'keys')
    same_set(ctx, c.keys(), [k for k, m in model], 'keys')
    same_set(ctx, [v.id() for v in c.values()], [k for k, m in model], 'values')
    for k, v in c.items():
        ctx.check(v.id() == k, 'loaded id')
    for v in c.values():
        for k, m in model:
            if v.id() == k:
                ctx.check(v.as_bytes() == m.as_bytes(), 'values')
    for k, m in model:
        ctx.check(k in c, 'lookup')
        for v in (c[k], c.get(k)):
            ctx.check(v.id() == k, 'loaded id')
            ctx.check(v.as_bytes() == m.as_bytes(), 'lookup')


def check_absent(ctx, c, k):
    ctx.check(c.get(k) is None, 'absent')
    ctx.check(c.get(k, 'd') == 'd', 'absent')
    bad, _ = ctx.raises(lambda: c[k], KeyError)
    ctx.check(bad, 'absent')
    ctx.check(k not in c, 'absent')


def find(model, k):
    for i in range(len(model)):
        if model[i][0] == k:
            return i
    return None


def new(d, size, pat='*'):
    return FileCorpus(d, pat) if size is None else FileCorpus(d, pat, size)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], weight=3)
def history(ctx, n):
    d = ctx.scratch()
    size = ctx.choice('size', [1, 2, None])
    c = new(d, size)
    model = []
    for i in range(n):
        k = ctx.str('k%d' % i, 1, IDS[:2] + 'c')
        op = 0 if i == 0 else ctx.pick('op%d' % i, 4)
        j = find(model, k)
        if op == 0:
            m = message(ctx, i, k)
            c.add_message(m)
            if j is None:
                model.append([k, m])
            else:
                model[j][1] = m
        elif op == 1:
            if j is None:
                check_absent(ctx, c, k)
                continue
            c.remove_message(c[k] if ctx.boolean('own%d' % i) else model[j][1])
            model.pop(j)
        elif op == 2:
            if j is None:
                check_absent(ctx, c, k)
            else:
                ctx.check(c[k].as_bytes() == model[j][1].as_bytes(), 'lookup')
            continue
        else:
            c = new(d, size)
        check(ctx, c, d, model)
    check(ctx, new(d, size), d, model)
    for k, m in model[:1]:
        # only the name itself is a key
        for other in './' + k, os.path.join(d, k), '../' + os.path.basename(d) + '/' + k, k + '/', '', '.', '..':
            check_absent(ctx, c, other)
    if model:
        c.remove_message(model[0][1])
        check(ctx, c, d, model[1:])
        check_absent(ctx, c, model[0][0])


@scenario(quick=[{}])
def larger(ctx):
    """More messages than the memory cache holds."""
    d = ctx.scratch()
    size = ctx.choice('size', [1, 2, 3])
    c = FileCorpus(d, cache_size=size)
    model = []
    for i in range(5):
        m = message(ctx, i, 'm%d' % i)
        c.add_message(m)
        model.append([m.id(), m])
    check(ctx, c, d, model)
    i = ctx.pick('i', 5)
    m = message(ctx, 9, 'm%d' % i)
    c.add_message(m)
    model[i][1] = m
    check(ctx, c, d, model)
    j = ctx.pick('j', 5)
    c.remove_message(c['m%d' % j])
    gone = model.pop(j)
    check(ctx, c, d, model)
    check_absent(ctx, c, gone[0])
    c = FileCorpus(d, cache_size=size)
    check(ctx, c, d, model)
    for k, m in list(model):
        c.remove_message(c[k])
    check(ctx, c, d, [])


@scenario(quick=[{}], weight=2)
def filters(ctx):
    """Only matching names; other files stay as they are."""
    d = ctx.scratch()
    with open(os.path.join(d, 'zz'), 'wb') as f:
        f.write(b'Subject: no\n\n')
    for name in 'a.tx', 'A.TXT', 'AB':
        with open(os.path.join(d, name), 'wb') as f:
            f.write(b'Subject: no\n\n')
    os.mkdir(os.path.join(d, 'dir'))
    os.mkdir(os.path.join(d, 'd.txt'))
    pat, good, bad = ctx.choice('filter', [('*.txt', ['a.txt', '.txt', 'd.txt.txt'], ['a', 'txt', 'a.txt ', 'a.TXT']),
                                           ('?[ab]', ['ab', '.a', 'bb'], ['a', 'abc', 'ac']),
                                           ('[!z]??', ['abc', 'xyz'], ['zab', 'ab']),
                                           ('ab', ['ab'], ['a', 'aB', 'xab'])])
    c = new(d, ctx.choice('size', [1, None]), pat)
    rest = ['zz', 'a.tx', 'A.TXT', 'AB', 'dir', 'd.txt']
    model = []
    check(ctx, c, d, model, rest)
    for i in range(3):
        if ctx.boolean('good%d' % i):
            k = ctx.choice('k%d' % i, good)
            m = message(ctx, i, k)
            c.add_message(m)
            j = find(model, k)
            if j is None:
                model.append([k, m])
            else:
                model[j][1] = m
        else:
            k = ctx.choice('b%d' % i, bad)
            m = message(ctx, i, k)
            no, _ = ctx.raises(lambda: c.add_message(m), ValueError)
            ctx.check(no, 'filter')
            check_absent(ctx, c, k)
        check(ctx, c, d, model, rest)
    for k in rest:
        check_absent(ctx, c, k)
    for k in 'zz', 'a.tx', 'A.TXT', 'AB':
        with open(os.path.join(d, k), 'rb') as f:
            ctx.check(f.read() == b'Subject: no\n\n', 'other files')
    ctx.check(os.path.isdir(os.path.join(d, 'dir')), 'other files')
    ctx.check(os.path.isdir(os.path.join(d, 'd.txt')), 'other files')


@scenario(quick=[{}])
def symbolic_names(ctx):
    """The filter decides for every name."""
    d = ctx.scratch()
    pat = ctx.choice('filter', ['a*', '*a', '?', '[ab]?', '[!a]*', 'a', '*'])
    k = ctx.str('k', 1 + ctx.pick('len', 2), IDS)
    ctx.assume(ctx.all([k != '.', k != '..']))
    c = new(d, None, pat)
    m = message(ctx, 0, k)
    ok = fnmatch.fnmatch(k, pat)
    no, _ = ctx.raises(lambda: c.add_message(m), ValueError)
    ctx.check(no == (not ok), 'filter')
    check(ctx, c, d, [[k, m]] if ok else [])
    if not ok:
        check_absent(ctx, c, k)
        with open(os.path.join(d, k), 'wb') as f:
            f.write(b'x')
        check_absent(ctx, c, k)
        ctx.check(len(c) == 0, 'filter')
        same_set(ctx, c.keys(), [], 'filter')
    else:
        c = new(d, None, pat)
        check(ctx, c, d, [[k, m]])
        c.remove_message(c[k])
        check(ctx, c, d, [])


@scenario(quick=[{}])
def content(ctx):
    d = ctx.scratch()
    c = new(d, ctx.choice('size', [1, None]))
    m = message(ctx, 0, 'a', True)
    c.add_message(m)
    c.add_message(message(ctx, 1, 'b'))
    check(ctx, c, d, [['a', m], ['b', message(ctx, 1, 'b')]])


@scenario(quick=[{}])
def found(ctx):
    """Files that were there before."""
    d = ctx.scratch()
    data = b'From: a\n' + ctx.bytes('h', 2, b'aX: \n') + b'\n' + ctx.bytes('b', 1)
    with open(os.path.join(d, 'm'), 'wb') as f:
        f.write(data)
    c = FileCorpus(d)
    m = from_bytes(data, 'm')
    for v in [c['m'], c.get('m')] + list(c.values()):
        ctx.check(v.id() == 'm', 'loaded id')
        ctx.check(v.items() == m.items(), 'lookup')
        ctx.check(v.get_payload() == m.get_payload(), 'lookup')
    with open(os.path.join(d, 'm'), 'rb') as f:
        ctx.check(f.read() == data, 'file content')


@scenario(quick=[{}])
def signals(ctx):
    d = ctx.scratch()
    c = FileCorpus(d, 'a*', cache_size=1)
    log = []

    def added(sender, message):
        log.append(('+', message.id(), len(c)))

    def removed(sender, message):
        log.append(('-', message.id(), len(c)))
    message_added.connect(added, sender=c)
    message_removed.connect(removed, sender=c)
    try:
        for k in 'a1', 'a2', 'a3':
            c.add_message(message(ctx, 0, k), emit_signal=ctx.boolean('e' + k))
        ctx.raises(lambda: c.add_message(message(ctx, 0, 'b')), ValueError)
        c.remove_message(c['a1'], emit_signal=ctx.boolean('r'))
        c.remove_message(c['a3'])
        want = [('+', 'a%d' % (i + 1), i + 1) for i in range(3) if ctx.boolean('ea%d' % (i + 1))]
        if ctx.boolean('r'):
            want.append(('-', 'a1', 2))
        want.append(('-', 'a3', 1))
        ctx.check(log == want, 'signals')
    finally:
        message_added.disconnect(added)
        message_removed.disconnect(removed)


@scenario()
def many(ctx):
    """Hundreds of messages, more than are kept in memory."""
    d = ctx.scratch()
    size = ctx.choice('size', [1, 20, None])
    c = new(d, size)
    n = 300
    model = []
    for i in range(n):
        m = from_bytes(b'Subject: m%d\n\nbody %d\n' % (i, i), 'id%d' % i)
        c.add_message(m)
        model.append(['id%d' % i, m])
    i = ctx.choice('i', [0, 1, 150, 299])
    if ctx.boolean('own'):
        c.remove_message(c['id%d' % i])
    else:
        c.remove_message(model[i][1])
    gone = model.pop(i)[0]
    for corpus in c, new(d, size):
        ctx.check(len(corpus) == n - 1, 'length')
        ctx.check(sorted(corpus) == sorted([k for k, m in model]), 'keys')
        check_absent(ctx, corpus, gone)
        for k, m in model[::23] + model[-2:]:
            ctx.check(k in corpus and corpus[k].as_bytes() == m.as_bytes(), 'lookup')
            ctx.check(corpus.get(k).id() == k, 'loaded id')
        ctx.check(sorted([v.id() for v in corpus.values()]) == sorted([k for k, m in model]), 'values')
    ctx.check(sorted(os.listdir(d)) == sorted([k for k, m in model]), 'files')
