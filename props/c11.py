"""C11: CDB files."""
import os

from sx.harness import scenario
from sbclassifier.cdb import Cdb, cdb_hash, cdb_make

META = dict(
    labels=['iteration', 'get present', 'get absent', 'getitem present', 'getitem absent', 'hash', 'format', 'views'],
    bounds='files of 1 to 3 (thorough 4) pairs: all keys of 2 bytes in one hash bucket (any slots, also equal '
           'hashes and equal keys; for 3 pairs 4 first bytes, thorough all, for 4 pairs 5), keys of 0 to 2 bytes in few buckets, values of 0 to 2 symbolic bytes, bytes or str; '
           'lookup of one more symbolic key; any key of up to 1 byte (thorough 2) in a file of 60 pairs; hash of '
           'every key of up to 4 (thorough 8) bytes, or of 7 to 302 with 2 symbolic bytes',
    outside='more pairs in one bucket; files of 4 GB and more',
    assumptions=['struct, mmap and files as modelled in sx (replayed with the real ones)'],
)


def ref_hash(k):
    h = 5381
    for c in k:
        h = ((h * 33) & 0xffffffff) ^ c
    return h


def write(ctx, pairs):
    path = os.path.join(ctx.scratch(), 'x.cdb')
    with open(path, 'wb') as f:
        cdb_make(f, pairs)
    return path


def raw(x):
    return x.encode('utf-8') if isinstance(x, str) else x


def u32(b, i):
    return b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24


def ref_get(data, key):
    """A reader of the CDB format, written from its description."""
    h = ref_hash(key)
    b = h & 255
    tpos, tlen = u32(data, 8 * b), u32(data, 8 * b + 4)
    if tlen == 0:
        return None
    i = (h >> 8) % tlen
    for _ in range(tlen):
        p = tpos + 8 * i
        pos = u32(data, p + 4)
        if pos == 0:
            return None
        if u32(data, p) == h:
            klen, dlen = u32(data, pos), u32(data, pos + 4)
            if klen == len(key) and data[pos + 8:pos + 8 + klen] == key:
                return data[pos + 8 + klen:pos + 8 + klen + dlen]
        i = (i + 1) % tlen
    return None


def key2(ctx, name, bucket, top=255):
    """Any key of two bytes whose hash is in the bucket (one of top + 1 first bytes)."""
    b = ctx.small(name, 0, top)
    if top < 255:
        b = b * 37
    k = bytes([b, bucket ^ ((((5381 * 33) ^ b) * 33) & 255)])
    return k


def lookups(ctx, path, pairs, keys):
    """All lookups of the keys; pairs have bytes."""
    with open(path, 'rb') as f:
        data = f.read()
    with open(path, 'rb') as f:
        db = Cdb(f)
        ctx.check(list(db) == pairs, 'iteration')
        ctx.check(list(db.items()) == pairs, 'views')
        ctx.check(list(db.keys()) == [k for k, v in pairs], 'views')
        ctx.check(list(db.values()) == [v for k, v in pairs], 'views')
        for k in keys:
            want = None
            for k2, v in reversed(pairs):
                if raw(k) == k2:
                    want = v
            got = db.get(k)
            if want is None:
                ctx.check(got is None, 'get absent')
                ctx.check(db.get(k, b'no') == b'no', 'get absent')
                ctx.check(ctx.raises(lambda: db[k], KeyError)[0], 'getitem absent')
            else:
                ctx.check(got is not None, 'get present')
                ctx.check(got == want, 'get present')
                ctx.check(db[k] == want, 'getitem present')
            r = ref_get(data, raw(k))
            ctx.check((r is None) == (want is None), 'format')
            if r is not None:
                ctx.check(r == want, 'format')
        db.close()


@scenario(quick=[dict(n=1, top=255), dict(n=2, top=255), dict(n=3, top=3)],
          thorough=[dict(n=3, top=255), dict(n=4, top=4)], weight=3)
def one_bucket(ctx, n, top):
    pairs = []
    for i in range(n + 1):
        k = key2(ctx, 'k%d' % i, 0x25, top)
        if i < n:
            pairs.append((k, bytes([65 + i]) * (i % 3)))
    extra = k
    path = write(ctx, pairs)
    lookups(ctx, path, pairs, [k for k, v in pairs] + [extra])


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)])
def same_hash(ctx, n):
    """Different keys with one hash."""
    pairs = []
    for i in range(n + 1):
        k = key2(ctx, 'k%d' % i, 0x80)
        if i:
            ctx.assume(ref_hash(k) == ref_hash(pairs[0][0]))
            ctx.assume(k != pairs[0][0])
        pairs.append((k, b'v%d' % i))
    path = write(ctx, pairs[:n])
    lookups(ctx, path, pairs[:n], [k for k, v in pairs])


@scenario(quick=[dict(kind='bytes', lens=[0, 1, 2]), dict(kind='str', lens=[1, 0, 2]), dict(kind='bytes', lens=[1, 1, 0])],
          thorough=[dict(kind='bytes', lens=[2, 2, 1]), dict(kind='str', lens=[2, 0, 2])], weight=2)
def kinds(ctx, kind, lens):
    make = ctx.bytes if kind == 'bytes' else ctx.str
    alphabet = b'\x00a' if kind == 'bytes' else 'a\xe9'
    pairs = [(make('k%d' % i, n, alphabet), make('v%d' % i, (i + 1) % 3)) for i, n in enumerate(lens)]
    path = write(ctx, iter(pairs))
    extra = make('x', ctx.pick('n', 3), alphabet)
    lookups(ctx, path, [(raw(k), raw(v)) for k, v in pairs], [k for k, v in pairs] + [extra])


@scenario(quick=[dict(n=0), dict(n=1)], thorough=[dict(n=2)], weight=2)
def many(ctx, n):
    """Any short key in a bigger file."""
    pairs = [(b'%c' % (7 * i % 256), b'v%d' % i) for i in range(40)] + [(b'k%d' % (i % 15), b'%d' % i) for i in range(20)]
    path = write(ctx, pairs)
    k = ctx.bytes('k', n, None if n < 2 else b'k0123456789\x00\xff')
    lookups(ctx, path, pairs, [k])


@scenario(quick=[{}])
def empty(ctx):
    path = write(ctx, [])
    lookups(ctx, path, [], [b'', ctx.bytes('k', 1, b'\x00a\xff'), key2(ctx, 'k2', 0x11)])


@scenario(quick=[dict(n=i) for i in range(5)], thorough=[dict(n=6), dict(n=8)])
def hashes(ctx, n):
    k = ctx.bytes('k', n)
    h = cdb_hash(k)
    ctx.observe('h', h)
    ctx.check(h == ref_hash(k), 'hash')
    if n:
        ctx.check(cdb_hash(b'\xff' * n) == ref_hash(b'\xff' * n), 'hash')


@scenario(quick=[{}])
def prefix_collision(ctx):
    """A key and a longer one with the same hash."""
    k = b'ppcyp' + ctx.bytes('a', 1, b'uvw')
    ext = k + ctx.bytes('b', 1)
    ctx.assume(ref_hash(k) == ref_hash(ext))
    pairs = [(k, ctx.bytes('v', 1) + b'1'), (ext, b'2')]
    which = ctx.pick('which', 3)
    pairs = pairs[which:which + 1] if which < 2 else pairs
    lookups(ctx, write(ctx, pairs), pairs, [k, ext])


@scenario()
def long_hashes(ctx):
    k = ctx.choice('pre', [b'abcd', b'some key', b'\xff' * 40, b'x' * 300]) + ctx.bytes('k', 2) + ctx.choice('post', [b'', b'y'])
    ctx.check(cdb_hash(k) == ref_hash(k), 'hash')
