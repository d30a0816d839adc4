"""C18: the in-memory cache and corpus."""
from sx.harness import scenario
from sbclassifier.corpora import Corpus, message_added, message_removed
from sbclassifier.corpora.caches import FileCache, NaiveCache
from sbclassifier.message import Message

META = dict(
    labels=['length', 'order', 'values', 'lookup', 'absent', 'pop result', 'same cache', 'signals', 'other corpus'],
    bounds='up to 5 operations (thorough: 6) put/pop/get on a cache of limit 1, 2, 3 or unlimited, each with an arbitrary (possibly equal) '
           'one-character key; with the keys put in any order, up to 9 entries against a limit of up to 7, or 1500 against limits up to 3000; 4 (thorough: 5) corpus operations on two '
           'corpora with arbitrary ids, signals on or off, default, given empty and given filled caches',
    outside='limits below 1; unhashable keys; subscribers that change the corpus or raise',
    assumptions=[],
)


def check_map(ctx, c, model):
    """c (a cache or corpus) against the list of [key, value]."""
    ctx.check(len(c) == len(model), 'length')
    keys = [k for k, v in model]
    vals = [v for k, v in model]
    for got in (list(c), list(c.keys())):
        ctx.check(len(got) == len(keys), 'order')
        ctx.check(ctx.all([a == b for a, b in zip(got, keys)]), 'order')
    for got in (list(c.values()), [v for k, v in c.items()]):
        ctx.check(len(got) == len(vals), 'values')
        for a, b in zip(got, vals):
            ctx.check(a is b, 'values')
    ctx.check(ctx.all([a[0] == b for a, b in zip(c.items(), keys)]), 'order')
    for k, v in model:
        ctx.check(c[k] is v, 'lookup')
        ctx.check(c.get(k) is v, 'lookup')
        ctx.check(c.get(k, 'd') is v, 'lookup')
        ctx.check(k in c, 'lookup')


def check_absent(ctx, c, model, k):
    if ctx.any([k == x for x, v in model]):
        return
    ctx.check(k not in c, 'absent')
    ctx.check(c.get(k) is None, 'absent')
    ctx.check(c.get(k, 'd') == 'd', 'absent')
    bad, _ = ctx.raises(lambda: c[k], KeyError)
    ctx.check(bad, 'absent')


def find(model, k):
    for i in range(len(model)):
        if model[i][0] == k:
            return i
    return None


def put(model, k, v, limit):
    i = find(model, k)
    if i is not None:
        model[i][1] = v
        return
    model.append([k, v])
    if limit is not None and len(model) > limit:
        model.pop(0)


class Value(object):
    pass


@scenario(quick=[dict(n=5, ops=2), dict(n=4, ops=3)], thorough=[dict(n=6, ops=2)], weight=2)
def cache(ctx, n, ops):
    limit = ctx.choice('limit', [None, 1, 2, 3])
    c = NaiveCache() if limit is None else NaiveCache(max_size=limit)
    model = []
    check_map(ctx, c, model)
    for i in range(n):
        k = ctx.str('k%d' % i, 1)
        op = ctx.pick('op%d' % i, ops)
        if op == 0:
            v = Value()
            c.put(k, v)
            put(model, k, v, limit)
        elif op == 1:
            got = c.pop(k)
            j = find(model, k)
            if j is None:
                ctx.check(got is None, 'pop result')
            else:
                ctx.check(got is model[j][1], 'pop result')
                model.pop(j)
        else:
            j = find(model, k)
            if j is None:
                check_absent(ctx, c, model, k)
            else:
                ctx.check(c.get(k) is model[j][1], 'lookup')
        check_map(ctx, c, model)
    check_absent(ctx, c, model, k)


@scenario(quick=[{}])
def many(ctx):
    """More entries: which one goes?"""
    limit = ctx.choice('limit', [1, 2, 4, 7])
    n = ctx.choice('n', [3, 6, 9])
    c = NaiveCache(limit)
    model = []
    for i in range(n):
        k, v = 'k%d' % i, Value()
        c.put(k, v)
        put(model, k, v, limit)
        if i == ctx.pick('again_at', 4):
            k, v = 'k%d' % ctx.pick('again', 3), Value()
            c.put(k, v)
            put(model, k, v, limit)
        if i == ctx.pick('pop_at', 4) + 1:
            k = 'k%d' % ctx.pick('pop', 3)
            c.pop(k)
            j = find(model, k)
            if j is not None:
                model.pop(j)
    check_map(ctx, c, model)


@scenario()
def very_many(ctx):
    """Thousands of entries; one is put again, one removed on the way."""
    limit = ctx.choice('limit', [None, 100, 999, 3000])
    c = NaiveCache() if limit is None else NaiveCache(limit)
    n = 1500
    again, gone = ctx.choice('again', [0, 450, 501]), ctx.choice('gone', [1, 499, 500])
    vals = [Value() for i in range(n)]
    for i in range(n):
        c.put(i, vals[i])
        if i == 501:
            c.put(again, vals[0])
            c.pop(gone)
    # (the numbers that are left, in the order in which they came first)
    left = [i for i in range(502) if limit is None or i >= 502 - limit]
    values = {i: vals[i] for i in range(n)}
    if again in left:
        values[again] = vals[0]
    else:
        left.append(again)
        values[again] = vals[0]
        left.pop(0)
    if gone in left:
        left.remove(gone)
    left += range(502, n)
    if limit is not None:
        left = left[-limit:]
    ctx.check(len(c) == len(left), 'length')
    ctx.check(list(c) == left and list(c.keys()) == left, 'order')
    ctx.check(all([c.get(k) is values[k] for k in left]), 'values')
    ctx.check(ctx.all([c.get(k) is None for k in range(n) if k < left[0] and k != again]), 'absent')


@scenario(quick=[{}])
def key_types(ctx):
    """Keys that are not str, values of any kind (also false ones)."""
    c = NaiveCache(max_size=2)
    model = []
    vals = [None, 0, '', [], Value()]
    for i in range(3):
        k = ctx.choice('k%d' % i, [None, 1, '1', b'1', ('1',)])
        v = ctx.choice('v%d' % i, vals)
        c.put(k, v)
        put(model, k, v, 2)
        check_map(ctx, c, model)
    for k, v in list(model):
        ctx.check(c.pop(k) is v, 'pop result')
    check_map(ctx, c, [])


def watch(corpus, log):
    def added(sender, message):
        log.append(('added', sender, message))

    def removed(sender, message):
        log.append(('removed', sender, message))
    message_added.connect(added, sender=corpus)
    message_removed.connect(removed, sender=corpus)
    return added, removed


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], weight=2)
def corpus(ctx, n):
    """Two corpora with subscribers."""
    which = ctx.pick('cache', 4)
    limit = None
    model = []
    given = None
    if which == 1:
        given = NaiveCache()
    elif which == 2:
        limit = ctx.choice('limit', [1, 2])
        given = NaiveCache(max_size=limit)
    elif which == 3:
        given = NaiveCache()
        v = Message('old')
        given.put('old', v)
        model.append(['old', v])
    c = Corpus() if given is None else Corpus(given)
    other = Corpus(cache=None)
    log, olog = [], []
    subs = [watch(c, log), watch(other, olog)]
    want = []
    omodel = []
    check_map(ctx, c, model)
    msgs = []
    try:
        for i in range(n):
            op = ctx.pick('op%d' % i, 4)
            if op == 0 or op == 3:
                k = ctx.str('k%d' % i, 1, 'old')
                m = Message(k)
                if op == 3 and ctx.boolean('named%d' % i):
                    k = ctx.str('n%d' % i, 1, 'old')
                    c.add_message(m, k)
                    emit = True
                else:
                    emit = ctx.boolean('emit%d' % i)
                    if emit:
                        c.add_message(m)
                    else:
                        c.add_message(m, emit_signal=False)
                put(model, k, m, limit)
                if emit:
                    want.append(('added', m))
                msgs.append(m)
            elif op == 1:
                if not msgs:
                    continue
                m = ctx.choice('m%d' % i, msgs)
                j = find(model, m.id())
                if j is None:
                    continue
                if ctx.boolean('emit%d' % i):
                    c.remove_message(m)
                    want.append(('removed', m))
                else:
                    c.remove_message(m, emit_signal=False)
                model.pop(j)
            else:
                m = Message('o')
                other.add_message(m)
                put(omodel, 'o', m, None)
            check_map(ctx, c, model)
            ctx.check(len(log) == len(want), 'signals')
            for a, b in zip(log, want):
                ctx.check(a[0] == b[0] and a[2] is b[1], 'signals')
                ctx.check(a[1] is c, 'signals')
        check_map(ctx, other, omodel)
        ctx.check(len(olog) == sum([ctx.pick('op%d' % i, 4) == 2 for i in range(n)]), 'other corpus')
        if given is not None:
            check_map(ctx, given, model)
            for k, m in model:
                ctx.check(given.get(k) is m, 'same cache')
    finally:
        for a, r in subs:
            message_added.disconnect(a)
            message_removed.disconnect(r)


@scenario(quick=[{}])
def empty_file_cache(ctx):
    """A given cache is used also when it is empty (a file cache counts its
    directory)."""
    d = ctx.scratch()
    given = FileCache(d, '*')
    c = Corpus(cache=given)
    m = Message(ctx.choice('k', ['a', 'b.c']))
    m.set_payload('x')
    c.add_message(m)
    ctx.check(len(given) == 1, 'same cache')
    ctx.check(given[m.id()] is m, 'same cache')
