"""Regular expressions over symbolic text.

The pattern is parsed by the regular expression parser of the running Python
(re._parser), and matched by backtracking in the order that `re` uses.  Every
test of a symbolic character branches on the path.
"""
import re
import re._constants as C
import re._parser as P
import sys

from . import core
from .core import Inconclusive
from .values import (SymBytes, SymStr, UChar, chars_of, ch_eq, ch_pred, is_sym,
                     mk, eng, norm, concretize, native_text)

_n = [0]


def new_key():
    _n[0] += 1
    return ('re', _n[0])


class Test(object):
    """A test of one character."""
    __slots__ = ('pred', 'key', 'mask', 'cache')

    def __init__(self, pred):
        self.pred = pred
        self.key = new_key()
        m = 0
        for i in range(256):
            if pred(i):
                m |= 1 << i
        self.mask = m

    def __call__(self, c):
        if type(c) is int:
            return (self.mask >> c) & 1 == 1 if c < 256 else bool(self.pred(c))
        return eng().branch(ch_pred(c, self.key, self.pred))


def is_word_fn(is_bytes, flags):
    if is_bytes or flags & re.ASCII:
        return lambda v: v < 128 and (chr(v).isalnum() or v == 95)
    return lambda v: chr(v).isalnum() or v == 95


def category(cat, is_bytes, flags):
    asc = is_bytes or flags & re.ASCII
    name = str(cat)
    neg = '_NOT_' in name
    if 'DIGIT' in name:
        f = (lambda v: 48 <= v <= 57) if asc else (lambda v: chr(v).isdecimal())
    elif 'SPACE' in name:
        f = (lambda v: v in (32, 9, 10, 11, 12, 13)) if asc else (lambda v: chr(v).isspace())
    elif 'WORD' in name:
        f = is_word_fn(is_bytes, flags)
    elif 'LINEBREAK' in name:
        f = lambda v: v == 10
    else:
        raise Inconclusive('category ' + name)
    return (lambda v: not f(v)) if neg else f


def variants(v, is_bytes, flags):
    out = {v}
    if is_bytes or flags & re.ASCII:
        if 65 <= v <= 90:
            out.add(v + 32)
        elif 97 <= v <= 122:
            out.add(v - 32)
    else:
        ch = chr(v)
        for x in (ch.lower(), ch.upper()):
            if len(x) == 1:
                out.add(ord(x))
                for y in (x.lower(), x.upper()):
                    if len(y) == 1:
                        out.add(ord(y))
    return out


class Compiled(object):

    def __init__(self, pattern, flags, lits=None):
        self.is_bytes = isinstance(pattern, bytes)
        # code in the pattern -> the symbolic character it stands for
        self.lits = lits or {}
        tree = P.parse(pattern, flags)
        self.flags = tree.state.flags
        self.tree = tree
        self.groups = tree.state.groups
        self.groupindex = dict(tree.state.groupdict)
        self.match = self.seq(list(tree), self.flags)
        self.first_mask, self.nullable = self.first(list(tree), self.flags)

    # -- first character sets -----------------------------------------------
    def first(self, items, flags):
        """(mask over 0..255 of possible first characters, may be empty).
        Characters above 255 are always possible."""
        mask = 0
        for op, av in items:
            m, nul = self.first1(op, av, flags)
            mask |= m
            if not nul:
                return mask, False
        return mask, True

    def first1(self, op, av, flags):
        if op is C.LITERAL and av in self.lits:
            return core.FULL, False
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            return self.char(op, av, flags).mask, False
        if op is C.SUBPATTERN:
            _, add, rem, p = av
            return self.first(list(p), (flags | add) & ~rem)
        if op is C.BRANCH:
            m, nul = 0, False
            for p in av[1]:
                m1, n1 = self.first(list(p), flags)
                m |= m1
                nul = nul or n1
            return m, nul
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            m, nul = self.first(list(av[2]), flags)
            return m, nul or av[0] == 0
        if op is C.ATOMIC_GROUP:
            return self.first(list(av), flags)
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            return 0, True
        return core.FULL, True

    _chars = None

    def char(self, op, av, flags):
        if self._chars is None:
            self._chars = {}
        key = (str(op), repr(av), flags)
        t = self._chars.get(key)
        if t is None:
            t = self._chars[key] = self.char1(op, av, flags)
        return t

    def char1(self, op, av, flags):
        b = self.is_bytes
        ic = flags & re.IGNORECASE
        if op is C.ANY:
            if flags & re.DOTALL:
                return Test(lambda v: True)
            return Test(lambda v: v != 10)
        if op in (C.LITERAL, C.NOT_LITERAL):
            if av in self.lits:
                raise Inconclusive('symbolic character in a pattern')
            if ic:
                s = variants(av, b, flags)
                f = lambda v: v in s or bool(variants(v, b, flags) & s)
            else:
                f = lambda v: v == av
            return Test(f if op is C.LITERAL else (lambda v: not f(v)))
        items = list(av)
        neg = bool(items) and items[0][0] is C.NEGATE
        if neg:
            items = items[1:]
        fs = []
        if any(o is C.LITERAL and a in self.lits or o is C.RANGE and set(a) & set(self.lits) for o, a in items):
            raise Inconclusive('symbolic character in a pattern')
        for o, a in items:
            if o is C.LITERAL:
                fs.append(lambda v, a=a: v == a)
            elif o is C.RANGE:
                fs.append(lambda v, a=a: a[0] <= v <= a[1])
            elif o is C.CATEGORY:
                fs.append(category(a, b, flags))
            else:
                raise Inconclusive('set item %s' % o)
        f = lambda v: any(g(v) for g in fs)
        if ic:
            g0 = f
            f = lambda v: any(g0(x) for x in variants(v, b, flags))
        return Test((lambda v: not f(v)) if neg else f)

    # -- matching ---------------------------------------------------------------
    # A matcher is a function m(st, i, k): tries to match at i and calls the
    # continuation k(j); returns its result or None.
    def seq(self, items, flags):
        ms = [self.node(op, av, flags) for op, av in items]
        if not ms:
            return lambda st, i, k: k(i)
        if len(ms) == 1:
            return ms[0]

        def link(a, rest):
            def m(st, i, k):
                return a(st, i, lambda j: rest(st, j, k))
            return m
        r = ms[-1]
        for a in reversed(ms[:-1]):
            r = link(a, r)
        return r

    def node(self, op, av, flags):
        if op is C.LITERAL and av in self.lits and not flags & re.IGNORECASE:
            lit = self.lits[av]

            def m(st, i, k):
                if i < st.end and eng().branch(ch_eq(st.cs[i], lit)):
                    return k(i + 1)
                return None
            return m
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            t = self.char(op, av, flags)

            def m(st, i, k):
                if i < st.end and t(st.cs[i]):
                    return k(i + 1)
                return None
            return m
        if op is C.SUBPATTERN:
            group, add, rem, p = av
            inner = self.seq(list(p), (flags | add) & ~rem)
            if group is None:
                return inner

            def m(st, i, k):
                old = st.groups.get(group)
                oldl = st.last

                def k2(j):
                    prev = st.groups.get(group)
                    pl = st.last
                    st.groups[group] = (i, j)
                    st.last = group
                    r = k(j)
                    if r is None:
                        st.last = pl
                        if prev is None:
                            st.groups.pop(group, None)
                        else:
                            st.groups[group] = prev
                    return r
                return inner(st, i, k2)
            return m
        if op is C.BRANCH:
            alts = [self.seq(list(p), flags) for p in av[1]]

            def m(st, i, k):
                for a in alts:
                    r = a(st, i, k)
                    if r is not None:
                        return r
                return None
            return m
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = sys.maxsize if hi is C.MAXREPEAT else hi
            items = list(p)
            if op is C.POSSESSIVE_REPEAT:
                inner = self.node(C.MAX_REPEAT, av, flags)
                return self.atomic(inner)
            if len(items) == 1 and items[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                t = self.char(items[0][0], items[0][1], flags)
                if op is C.MAX_REPEAT:
                    def m(st, i, k):
                        j = i
                        cs = st.cs
                        limit = min(st.end, i + hi)
                        while j < limit and t(cs[j]):
                            j += 1
                        while j - i >= lo:
                            r = k(j)
                            if r is not None:
                                return r
                            j -= 1
                        return None
                    return m

                def m(st, i, k):
                    j = i
                    cs = st.cs
                    while j - i < lo:
                        if not (j < st.end and t(cs[j])):
                            return None
                        j += 1
                    while True:
                        r = k(j)
                        if r is not None:
                            return r
                        if not (j - i < hi and j < st.end and t(cs[j])):
                            return None
                        j += 1
                return m
            inner = self.seq(items, flags)
            greedy = op is C.MAX_REPEAT

            def m(st, i, k):
                def loop(n, i, start):
                    def again(j):
                        if j == i and n >= lo:
                            return None     # no progress
                        return loop(n + 1, j, i)
                    if n < lo:
                        return inner(st, i, again)
                    if greedy:
                        if n < hi:
                            r = inner(st, i, again)
                            if r is not None:
                                return r
                        return k(i)
                    r = k(i)
                    if r is not None:
                        return r
                    if n < hi:
                        return inner(st, i, again)
                    return None
                return loop(0, i, -1)
            return m
        if op is C.AT:
            return self.at(av, flags)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            inner = self.seq(list(p), flags)
            width = p.getwidth()[0]

            def test(st, i):
                j = i
                if direction < 0:
                    j = i - width
                    if j < 0:
                        return None
                    return inner(st, j, lambda x: x if x == i else None)
                return inner(st, j, lambda x: x)
            if op is C.ASSERT:
                return lambda st, i, k: k(i) if test(st, i) is not None else None
            return lambda st, i, k: k(i) if test(st, i) is None else None
        if op is C.ATOMIC_GROUP:
            return self.atomic(self.seq(list(av), flags))
        if op is C.GROUPREF:
            def m(st, i, k):
                g = st.groups.get(av)
                if g is None:
                    return None
                n = g[1] - g[0]
                if i + n > st.end:
                    return None
                e = eng()
                for x in range(n):
                    if not e.branch(ch_eq(st.cs[g[0] + x], st.cs[i + x])):
                        return None
                return k(i + n)
            if flags & re.IGNORECASE:
                raise Inconclusive('case-insensitive back reference')
            return m
        if op is C.GROUPREF_EXISTS:
            g, yes, no = av
            y = self.seq(list(yes), flags)
            nn = self.seq(list(no), flags) if no is not None else (lambda st, i, k: k(i))
            return lambda st, i, k: (y if st.groups.get(g) is not None else nn)(st, i, k)
        if op is C.FAILURE:
            return lambda st, i, k: None
        raise Inconclusive('regular expression %s' % op)

    @staticmethod
    def atomic(inner):
        def m(st, i, k):
            r = inner(st, i, lambda x: x)
            return None if r is None else k(r)
        return m

    def at(self, where, flags):
        n = str(where)
        word = Test(is_word_fn(self.is_bytes, flags))
        nl = Test(lambda v: v == 10)
        if where is C.AT_BEGINNING and flags & re.MULTILINE:
            return lambda st, i, k: k(i) if i == 0 or nl(st.cs[i - 1]) else None
        if where in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return lambda st, i, k: k(i) if i == 0 else None
        if where is C.AT_END:
            if flags & re.MULTILINE:
                return lambda st, i, k: k(i) if i == st.end or nl(st.cs[i]) else None
            return lambda st, i, k: k(i) if i == st.end or (i == st.end - 1 and nl(st.cs[i])) else None
        if where is C.AT_END_STRING:
            return lambda st, i, k: k(i) if i == st.end else None

        def boundary(st, i):
            a = i > 0 and word(st.cs[i - 1])
            b = i < st.end and word(st.cs[i])
            return a != b
        if where is C.AT_BOUNDARY:
            return lambda st, i, k: k(i) if boundary(st, i) else None
        if where is C.AT_NON_BOUNDARY:
            # an empty string is no match for \B
            return lambda st, i, k: k(i) if len(st.cs) and not boundary(st, i) else None
        raise Inconclusive('position ' + n)


class State(object):
    __slots__ = ('cs', 'end', 'groups', 'last')

    def __init__(self, cs, end):
        self.cs = cs
        self.end = end
        self.groups = {}
        self.last = None


_cache = {}


class SymPattern(object):
    """A pattern with symbolic characters that stand for themselves."""

    def __init__(self, pattern, flags, lits):
        self._comp = Compiled(pattern, flags, lits)
        self.flags = self._comp.flags
        self.groups = self._comp.groups - 1
        self.groupindex = self._comp.groupindex

    @property
    def pattern(self):
        raise Inconclusive('text of a symbolic pattern')

    def __getattr__(self, name):
        f = METHODS.get(name)
        if f is None:
            raise AttributeError(name)
        return lambda *a, **k: f(self, *a, **k)


SPECIAL = frozenset(map(ord, '.^$*+?{}[]\\|()'))
VERBOSE = frozenset(map(ord, ' \t\n\r\f\v#'))
ALNUM = frozenset(i for i in range(128) if chr(i).isalnum())


def sym_compile(s, flags):
    """re.compile() of a symbolic str pattern, or None if one of its symbolic
    characters has a meaning other than itself."""
    e = eng()
    special = SPECIAL | VERBOSE if flags & re.VERBOSE else SPECIAL
    out = []
    lits = {}
    escaped = False
    for c in s.cs:
        c = norm(c)
        if type(c) is not int:
            bad = ALNUM if escaped else special
            if e.branch(ch_pred(c, ('in', bad), bad.__contains__)):
                return None
            v = 0xF0000 + len(lits)
            lits[v] = c
            out.append(v)
            escaped = False
            continue
        if c >= 0xF0000:
            return None
        out.append(c)
        escaped = c == 92 and not escaped
    return SymPattern(''.join(map(chr, out)), flags, lits)


def compiled(p):
    if type(p) is SymPattern:
        return p._comp
    c = _cache.get(p)
    if c is None:
        c = _cache[p] = Compiled(p.pattern, p.flags & ~re.DEBUG)
    return c


class SymMatch(object):

    def __init__(self, pat, comp, string, pos, endpos, start, end, groups, last):
        self.re = pat
        self._c = comp
        self.string = string
        self.pos = pos
        self.endpos = endpos
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.lastindex = last

    @property
    def lastgroup(self):
        for n, i in self._c.groupindex.items():
            if i == self.lastindex:
                return n
        return None

    def _num(self, g):
        if isinstance(g, str):
            if g not in self._c.groupindex:
                raise IndexError('no such group')
            return self._c.groupindex[g]
        g = concretize(g)
        if not 0 <= g < self._c.groups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        s = self._g.get(self._num(g))
        if s is None:
            return default
        return self.string[s[0]:s[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self._c.groups))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self._c.groupindex.items()}

    def span(self, g=0):
        return self._g.get(self._num(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        return expand(self, template)

    def __bool__(self):
        return True


def _search(pat, s, pos, endpos, anchored, must_advance=False, full=False):
    comp = compiled(pat)
    cs = chars_of(s, comp.is_bytes)
    if cs is None:
        raise TypeError('cannot use a %s pattern on a %s-like object' % (
            ('bytes', 'string') if comp.is_bytes else ('string', 'bytes')))
    n = len(cs)
    end = n if endpos is None else max(0, min(n, endpos))
    st = State(cs, end)
    i = pos
    fm, nullable = comp.first_mask, comp.nullable
    e = eng()
    while i <= end:
        ok = True
        if not nullable:
            if i >= end:
                return None
            c = cs[i]
            if type(c) is int:
                ok = c > 255 or (fm >> c) & 1
            elif type(c) is UChar:
                d = e.dom[c.var.name]
                m = c.table.mask(('first', comp), lambda v: v > 255 or (fm >> v) & 1)
                ok = d & m
        if ok:
            st.groups = {}
            st.last = None
            if full:
                k = lambda j: j if j == end and not (must_advance and j == pos and i == pos) else None
            elif must_advance and i == pos:
                k = lambda j: j if j != pos else None
            else:
                k = lambda j: j
            r = comp.match(st, i, k)
            if r is not None:
                return SymMatch(pat, comp, s, pos, end, i, r, st.groups, st.last)
        if anchored:
            return None
        i += 1
    return None


def _pos(s, pos, endpos):
    pos = 0 if pos is None else concretize(pos)
    n = len(s)
    pos = max(0, min(pos, n))
    return pos, (None if endpos is None else concretize(endpos))


def search(pat, s, pos=0, endpos=None):
    pos, endpos = _pos(s, pos, endpos)
    return _search(pat, s, pos, endpos, False)


def match(pat, s, pos=0, endpos=None):
    pos, endpos = _pos(s, pos, endpos)
    return _search(pat, s, pos, endpos, True)


def fullmatch(pat, s, pos=0, endpos=None):
    pos, endpos = _pos(s, pos, endpos)
    return _search(pat, s, pos, endpos, True, full=True)


def finditer(pat, s, pos=0, endpos=None):
    pos, endpos = _pos(s, pos, endpos)
    must = False
    while True:
        m = _search(pat, s, pos, endpos, False, must)
        if m is None:
            return
        yield m
        must = m.end() == m.start()
        pos = m.end()


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        gs = m.groups(empty(pat))
        out.append(m.group() if not gs else gs[0] if len(gs) == 1 else gs)
    return out


def empty(pat):
    return b'' if compiled(pat).is_bytes else ''


def split(pat, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(s[last:])
    return out


def expand(m, template):
    pat = m.re
    if is_sym(template):
        bs = b'\\' if template.B else '\\'
        if bs in template:
            template = native_text(template)
        else:
            return template
    t = P.parse_template(template, pat)
    e = empty(pat)
    out = e
    for x in t:
        if isinstance(x, int):
            v = m._get(x, e)
            out = out + v
        elif x is not None:
            out = out + x
    return out


def subn(pat, repl, s, count=0):
    from .models import call
    out = empty(pat)
    last = n = 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out = out + s[last:m.start()]
        out = out + (call(repl, m) if callable(repl) else expand(m, repl))
        last = m.end()
        n += 1
    return out + s[last:], n


def sub(pat, repl, s, count=0):
    return subn(pat, repl, s, count)[0]


METHODS = {f.__name__: f for f in (search, match, fullmatch, finditer, findall, split, sub, subn)}


def pattern_call(pat, name, args, kw):
    """A method call on a compiled pattern; native when nothing is symbolic."""
    f = METHODS.get(name)
    if f is None:
        return getattr(pat, name)(*args, **kw)
    s = kw.get('string')
    if s is None:
        i = 1 if name in ('sub', 'subn') else 0
        if len(args) > i:
            s = args[i]
    sym = is_sym(s) or any(is_sym(a) for a in args)
    if not sym:
        if name in ('sub', 'subn') and args and callable(args[0]) and not isinstance(args[0], (str, bytes)):
            # the replacement function may return symbolic text
            return f(pat, *args, **kw)
        return getattr(pat, name)(*args, **kw)
    if 'string' in kw:
        kw = dict(kw)
        args = args + (kw.pop('string'),)
    return f(pat, *args, **kw)
