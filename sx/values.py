"""Symbolic values: booleans, integers, reals, floats, text and bytes.

They are ordinary Python objects that claim (through __class__) to be of the
type they stand for.  Whenever Python needs a decision (bool()), the explorer
branches.
"""
import codecs
import itertools
import math
from fractions import Fraction

import z3

from . import core
from .core import (Inconclusive, Control, FULL, c_not, c_and, c_or, c_formula)


_log, _exp = math.log, math.exp      # harnesses may replace those of math


def eng():
    return core.E


# ---------------------------------------------------------------------------
# Booleans
class SymBool(object):
    """A conjunction of conditions."""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        e = eng()
        for c in self.cs:
            if not e.branch(c):
                return False
        return True

    def cond(self):
        return c_and(self.cs)

    def __invert__(self):
        return mkbool(c_not(self.cond()))

    def __and__(self, o):
        return mkbool(c_and([self.cond(), to_cond(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(c_or([self.cond(), to_cond(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.cond(), to_cond(o)
        return mkbool(c_or([c_and([a, c_not(b)]), c_and([c_not(a), b])]))
    __rxor__ = __xor__

    def as_int(self):
        return SymInt(z3.If(c_formula(self.cond()), z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__

    def __eq__(self, o):
        if type(o) is SymBool or o is True or o is False:
            x = self ^ o
            return (not x) if type(x) is bool else ~x
        return self.as_int() == o

    def __ne__(self, o):
        r = self == o
        return (not r) if type(r) is bool else ~r

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<SymBool>'

    def __add__(self, o):
        return self.as_int() + o

    def __radd__(self, o):
        return o + self.as_int()

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    def __rmul__(self, o):
        return o * self.as_int()

    def __lt__(self, o):
        return self.as_int() < o

    def __gt__(self, o):
        return self.as_int() > o

    def __le__(self, o):
        return self.as_int() <= o

    def __ge__(self, o):
        return self.as_int() >= o

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkbool(cond):
    if cond is True or cond is False:
        return cond
    if cond[0] == 'z':
        f = cond[1]
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
    elif cond[2] == FULL:
        return True
    elif cond[2] == 0:
        return False
    return SymBool([cond])


def to_cond(x):
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.cond()
    return bool(x)


def zbool(f):
    return mkbool(('z', f))


# ---------------------------------------------------------------------------
# Characters
class Table(object):
    """A function from a character variable's index to integers."""
    __slots__ = ('vals', 'masks', 'maps', 'ident', 'groups')
    interned = {}

    def __new__(cls, vals):
        vals = tuple(vals)
        t = cls.interned.get(vals)
        if t is None:
            t = object.__new__(cls)
            t.vals = vals
            t.masks = {}
            t.maps = {}
            t.ident = vals == tuple(range(256))
            t.groups = None
            cls.interned[vals] = t
        return t

    def mask(self, key, pred):
        m = self.masks.get(key)
        if m is None:
            m = 0
            for i, v in enumerate(self.vals):
                if pred(v):
                    m |= 1 << i
            self.masks[key] = m
        return m

    def map(self, key, fn):
        t = self.maps.get(key)
        if t is None:
            t = Table([fn(v) for v in self.vals])
            self.maps[key] = t
        return t

    def bv(self, z, w):
        """A bit-vector expression of width w for table[z]."""
        if self.ident:
            return z3.ZeroExt(w - 8, z) if w > 8 else z
        key = ('bv', z.get_id(), w)
        r = self.maps.get(key)
        if r is not None and r[0].eq(z):
            return r[1]
        r = self._bv(z, w)
        self.maps[key] = (z, r)
        return r

    def _bv(self, z, w):
        if self.groups is None:
            g = []
            start = 0
            for i in range(1, 257):
                if i == 256 or self.vals[i] - i != self.vals[start] - start:
                    g.append((start, i - 1, self.vals[start] - start))
                    start = i
            self.groups = g
        zz = z3.ZeroExt(w - 8, z) if w > 8 else z
        expr = None
        for a, b, off in reversed(self.groups):
            v = zz + z3.BitVecVal(off, w) if a != b else z3.BitVecVal(a + off, w)
            if expr is None:
                expr = v
            else:
                expr = z3.If(z3.ULE(z, b), v, expr)
        return expr


IDENT = Table(range(256))
CW = 21     # width of code points


class UChar(object):
    __slots__ = ('var', 'table')

    def __init__(self, var, table=IDENT):
        self.var = var
        self.table = table

    def bv(self, w=CW):
        return self.table.bv(self.var.z, w)


class BChar(object):
    __slots__ = ('e',)

    def __init__(self, e):
        if e.size() < CW:
            e = z3.ZeroExt(CW - e.size(), e)
        elif e.size() > CW:
            e = z3.Extract(CW - 1, 0, e)
        self.e = z3.simplify(e)

    def bv(self, w=CW):
        return self.e if w == CW else z3.Extract(w - 1, 0, self.e) if w < CW else z3.ZeroExt(w - CW, self.e)


class EChar(BChar):
    """A character of an encoding (base64, uuencode) of symbolic bytes: the
    `pos`th of those that stand for the bytes `src`.  `vals`: the mask of the
    ASCII characters it may be."""
    __slots__ = ('vals', 'src', 'pos')

    def __init__(self, e, vals, src, pos):
        BChar.__init__(self, e)
        self.vals = vals
        self.src = src
        self.pos = pos


def norm(c):
    """The concrete code point of a character, if the path determines it."""
    t = type(c)
    if t is int:
        return c
    if t is UChar:
        d = eng().dom[c.var.name]
        if not d & (d - 1):
            return c.table.vals[d.bit_length() - 1]
        return c
    if t is not EChar and z3.is_bv_value(c.e):
        return c.e.as_long()
    return c


def ch_pred(c, key, pred):
    """Condition: pred(code point of c).  `key` identifies pred."""
    t = type(c)
    if t is int:
        return bool(pred(c))
    if t is UChar:
        m = c.table.mask(key, pred)
        d = eng().dom[c.var.name]
        if not d & m:
            return False
        if not d & ~m:
            return True
        return ('u', c.var, m)
    m = IDENT.mask(key, pred)
    if t is EChar:
        if not c.vals & m:
            return False
        if not c.vals & ~m:
            return True
    parts = []
    for a, b in core.ranges(m):
        parts.append(z3.And(z3.UGE(c.e, a), z3.ULE(c.e, b)) if a != b else c.e == a)
    if pred(0x20ac):
        parts.append(z3.UGE(c.e, 256))
    return ('z', z3.simplify(z3.Or(*parts))) if parts else False


def ch_eq(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        if type(a) is UChar:
            return ch_pred(a, ('eq', b), lambda v: v == b)
        if b >= 1 << CW:
            return False
        if type(a) is EChar:
            return ch_pred(a, ('eq', b), lambda v: v == b)
        return ('z', a.e == b)
    if type(a) is UChar and type(b) is UChar:
        if a.var is b.var:
            if a.table is b.table:
                return True
            m = 0
            for i in range(256):
                if a.table.vals[i] == b.table.vals[i]:
                    m |= 1 << i
            return ch_mask(a.var, m)
        da, db = eng().dom[a.var.name], eng().dom[b.var.name]
        va = {a.table.vals[i] for i in core.mask_values(da)}
        vb = {b.table.vals[i] for i in core.mask_values(db)}
        common = va & vb
        if not common:
            return False
        if len(va) == 1:
            v = next(iter(va))
            return ch_pred(b, ('eq', v), lambda x: x == v)
        if len(vb) == 1:
            v = next(iter(vb))
            return ch_pred(a, ('eq', v), lambda x: x == v)
        if a.table is b.table and len(set(a.table.vals)) == 256:
            if a.var.name > b.var.name:
                a, b = b, a
            return ('z', a.var.z == b.var.z)
        if len(common) <= 24:
            # a disjunction over the values they can share
            out = []
            for v in sorted(common):
                out.append(c_and([ch_pred(a, ('eq', v), lambda x: x == v), ch_pred(b, ('eq', v), lambda x: x == v)]))
            return c_or(out)
    return ('z', a.bv() == b.bv())


def ch_mask(var, m):
    d = eng().dom[var.name]
    if not d & m:
        return False
    if not d & ~m:
        return True
    return ('u', var, m)


def ch_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(b) is int and type(a) is UChar:
        return ch_pred(a, ('lt', b), lambda v: v < b)
    if type(a) is int and type(b) is UChar:
        return ch_pred(b, ('gt', a), lambda v: v > a)
    za = z3.BitVecVal(a, CW) if type(a) is int else a.bv()
    zb = z3.BitVecVal(b, CW) if type(b) is int else b.bv()
    return ('z', z3.ULT(za, zb))


def ch_map(c, key, fn):
    t = type(c)
    if t is int:
        return fn(c)
    if t is UChar:
        return UChar(c.var, c.table.map(key, fn))
    tab = IDENT.map(key, fn)
    if tab.ident or t is EChar and all(tab.vals[v] == v for v in core.mask_values(c.vals)):
        return c
    low = tab.bv(z3.Extract(7, 0, c.e), CW)
    return BChar(z3.If(z3.ULT(c.e, 256), low, c.e))


# ---------------------------------------------------------------------------
# Integers
def num(x):
    """x as a Python number or symbolic number, or None."""
    t = type(x)
    if t in (int, float, Fraction, SymInt, UInt, SymBV, SymReal):
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x.as_int()
    if isinstance(x, int) and not hasattr(x, 'cs'):
        return int(x)
    return None


class IntBase(object):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return 0x51

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __repr__(self):
        return '<SymInt>'

    def __pos__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else ~r

    def __gt__(self, o):
        return _cmp(o, self, 'lt')

    def __lt__(self, o):
        return _cmp(self, o, 'lt')

    def __le__(self, o):
        return _cmp(self, o, 'le')

    def __ge__(self, o):
        return _cmp(o, self, 'le')

    def __eq__(self, o):
        return _cmp(self, o, 'eq')

    def __add__(self, o):
        return _arith(self, o, 'add')

    def __radd__(self, o):
        return _arith(o, self, 'add')

    def __sub__(self, o):
        return _arith(self, o, 'sub')

    def __rsub__(self, o):
        return _arith(o, self, 'sub')

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * concretize(self)
        return _arith(self, o, 'mul')

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * concretize(self)
        return _arith(o, self, 'mul')

    def __floordiv__(self, o):
        return _arith(self, o, 'div')

    def __rfloordiv__(self, o):
        return _arith(o, self, 'div')

    def __mod__(self, o):
        return _arith(self, o, 'mod')

    def __rmod__(self, o):
        return _arith(o, self, 'mod')

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return to_real(self) / o

    def __rtruediv__(self, o):
        return o / to_real(self)

    def __pow__(self, o):
        o = concretize(o)
        if o < 0:
            return 1 / (to_real(self) ** -o)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** concretize(self)

    def __neg__(self):
        return 0 - self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __and__(self, o):
        return _arith(self, o, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return _arith(self, o, 'or')
    __ror__ = __or__

    def __xor__(self, o):
        return _arith(self, o, 'xor')
    __rxor__ = __xor__

    def __lshift__(self, o):
        return _arith(self, o, 'shl')

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        return _arith(self, o, 'shr')

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __invert__(self):
        return -1 - self

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def bit_length(self):
        return concretize(self).bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed:
            return concretize(self).to_bytes(length, byteorder, signed=True)
        if bool(self >= 256 ** length) or bool(self < 0):
            raise OverflowError('int too big to convert')
        cs = int_to_chars(self, length)
        return mk(True, cs if byteorder == 'little' else cs[::-1])

    def __format__(self, spec):
        raise Inconclusive('native format of a symbolic integer')

    def __str__(self):
        raise Inconclusive('native str of a symbolic integer')


class SymInt(IntBase):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi


class UInt(IntBase):
    """An integer that is a function of one character variable."""
    __slots__ = ('var', 'table', 'bvf')

    def __init__(self, var, table, bvf=None):
        self.var = var
        self.table = table
        self.bvf = bvf

    @property
    def lo(self):
        return min(self.table.vals)

    @property
    def hi(self):
        return max(self.table.vals)


class SymBV(IntBase):
    """A non-negative integer as an exact bit-vector (that of the characters
    `parts`, lowest first, if it was made of bytes)."""
    __slots__ = ('e', 'parts')

    def __init__(self, e, parts=None):
        self.e = e
        self.parts = parts

    lo = 0

    @property
    def hi(self):
        return (1 << self.e.size()) - 1


def mkint(e, lo=None, hi=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, lo, hi)


def mkbv(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymBV(e)


def mkuint(var, table, bvf=None):
    d = eng().dom[var.name]
    vals = {table.vals[i] for i in core.mask_values(d)}
    if len(vals) == 1:
        return vals.pop()
    return UInt(var, table, bvf)


def char_to_int(c):
    c = norm(c)
    if type(c) is int:
        return c
    if type(c) is UChar:
        return UInt(c.var, c.table)
    return SymBV(c.e)


def int_to_char(n):
    if type(n) is int:
        return n
    if type(n) is UInt:
        t = n.table
        if not t.ident and (min(t.vals) < 0 or max(t.vals) > 0x10ffff):
            # (values that are impossible here)
            t = t.map('clamp char', lambda v: min(max(v, 0), 0x10ffff))
        return UChar(n.var, t)
    return BChar(to_bv(n))


def int_to_byte(n):
    """(n is known to be in range(256))"""
    if type(n) is UInt:
        return UChar(n.var, n.table.map('clamp byte', lambda v: min(max(v, 0), 255)))
    return int_to_char(n)


def to_bv(n):
    t = type(n)
    if t is int:
        return z3.BitVecVal(n, max(1, n.bit_length()))
    if t is SymBV:
        return n.e
    if t is UInt:
        if n.lo < 0:
            raise Inconclusive('negative value as a bit-vector')
        if n.bvf is not None:
            return n.bvf()
        return n.table.bv(n.var.z, max(8, n.hi.bit_length()))
    if t is SymInt:
        if n.lo is not None and n.lo >= 0 and n.hi is not None:
            return z3.Int2BV(n.e, max(1, n.hi.bit_length()))
    raise Inconclusive('integer without bounds as a bit-vector')


def to_zint(n):
    t = type(n)
    if t is int:
        return z3.IntVal(n)
    if t is SymInt:
        return n.e
    if t is UInt:
        if n.table.ident:
            return z3.BV2Int(n.var.z)
        # group by constant offset; few groups in practice
        n.table.bv(n.var.z, CW)
        if n.table.groups is None:
            return z3.BV2Int(n.var.z)
        zi = z3.BV2Int(n.var.z)
        expr = None
        for a, b, off in reversed(n.table.groups):
            v = zi + off if a != b else z3.IntVal(a + off)
            expr = v if expr is None else z3.If(z3.ULE(n.var.z, b), v, expr)
        return expr
    if t is SymBV:
        return z3.BV2Int(n.e)
    raise Inconclusive('not an integer: %r' % t)


def _bounds(n):
    return (n, n) if type(n) is int else (n.lo, n.hi)


def _ext2(a, b, w=None):
    w = w or max(a.size(), b.size())
    return (z3.ZeroExt(w - a.size(), a) if a.size() < w else a,
            z3.ZeroExt(w - b.size(), b) if b.size() < w else b)


_PY = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b, 'div': lambda a, b: a // b,
    'mod': lambda a, b: a % b, 'and': lambda a, b: a & b,
    'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'shl': lambda a, b: a << b, 'shr': lambda a, b: a >> b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'eq': lambda a, b: a == b}


def _cmp(a, b, op):
    a, b = num(a), num(b)
    if a is None or b is None:
        return NotImplemented
    if type(a) is SymReal or type(b) is SymReal or type(a) in (float, Fraction) or type(b) in (float, Fraction):
        return real_cmp(a, b, op)
    fn = _PY[op]
    if type(a) is UInt and type(b) is int:
        return mkbool(ch_mask(a.var, a.table.mask((op, 'r', b), lambda v: fn(v, b))))
    if type(b) is UInt and type(a) is int:
        return mkbool(ch_mask(b.var, b.table.mask((op, 'l', a), lambda v: fn(a, v))))
    if type(a) is UInt and type(b) is UInt and a.var is b.var:
        m = 0
        for i in range(256):
            if fn(a.table.vals[i], b.table.vals[i]):
                m |= 1 << i
        return mkbool(ch_mask(a.var, m))
    (al, ah), (bl, bh) = _bounds(a), _bounds(b)
    if op == 'eq':
        if al is not None and bh is not None and al > bh or bl is not None and ah is not None and bl > ah:
            return False
    elif al is not None and bl is not None or ah is not None:
        if ah is not None and bl is not None and fn(ah, bl):
            return True
        if al is not None and bh is not None and not fn(al, bh):
            return False
    if SymInt not in (type(a), type(b)) and (al is not None and al >= 0 and bl is not None and bl >= 0):
        x, y = _ext2(to_bv(a), to_bv(b))
        f = {'lt': z3.ULT, 'le': z3.ULE}[op](x, y) if op != 'eq' else x == y
        return zbool(z3.simplify(f))
    x, y = to_zint(a), to_zint(b)
    f = x < y if op == 'lt' else x <= y if op == 'le' else x == y
    return zbool(z3.simplify(f))


def _add(a, b):
    return None if a is None or b is None else a + b


def _arith(a, b, op):
    a, b = num(a), num(b)
    if a is None or b is None:
        return NotImplemented
    if type(a) in (SymReal, float, Fraction) or type(b) in (SymReal, float, Fraction):
        ra, rb = to_real(a), to_real(b)
        if op == 'add':
            return ra + rb
        if op == 'sub':
            return ra - rb
        if op == 'mul':
            return ra * rb
        raise Inconclusive('operation %s on reals' % op)
    fn = _PY[op]
    if op in ('div', 'mod'):
        if type(b) is int:
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
        elif bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
    if type(a) is UInt and type(b) is int:
        bvf = None
        if b >= 0 and op in ('and', 'or', 'xor', 'shl', 'shr', 'add', 'mul') and a.lo >= 0:
            pa = a
            bvf = lambda: to_bv(_bvop(SymBV(to_bv(pa)), b, op))
        return mkuint(a.var, Table([fn(v, b) for v in a.table.vals]), bvf)
    if type(b) is UInt and type(a) is int:
        bvf = None
        if a >= 0 and op in ('and', 'or', 'xor', 'add', 'mul') and b.lo >= 0:
            pb = b
            bvf = lambda: to_bv(_bvop(SymBV(to_bv(pb)), a, op))
        return mkuint(b.var, Table([fn(a, v) for v in b.table.vals]), bvf)
    if type(a) is UInt and type(b) is UInt and a.var is b.var:
        return mkuint(a.var, Table([fn(x, y) for x, y in zip(a.table.vals, b.table.vals)]))
    if op == 'and':
        x, m = (a, b) if type(b) is int else (b, a)
        if type(x) is SymBV and x.parts is not None and type(m) is int and m >= 0:
            out = []
            for c in x.parts:
                out.append(ch_map(c, ('and', m & 255), lambda v, m=m & 255: v & m) if m & 255 else 0)
                m >>= 8
            return chars_to_int(out)
    (al, ah), (bl, bh) = _bounds(a), _bounds(b)
    if op in ('and', 'or', 'xor', 'shl', 'shr') or (
            op in ('add', 'mul', 'mod', 'div') and SymInt not in (type(a), type(b))
            and al >= 0 and bl >= 0):
        if SymInt in (type(a), type(b)):
            # linear cases over the integers
            if op == 'shl' and type(b) is int:
                return a * (1 << b)
            if op == 'shr' and type(b) is int:
                return a // (1 << b)
            if op == 'and':
                x, m = (a, b) if type(b) is int else (b, a)
                if type(m) is int and m >= 0 and (m & (m + 1)) == 0:
                    return x % (m + 1)
        return _bvop(a, b, op)
    x, y = to_zint(a), to_zint(b)
    if op == 'add':
        return mkint(x + y, _add(al, bl), _add(ah, bh))
    if op == 'sub':
        return mkint(x - y, None if al is None or bh is None else al - bh,
                     None if ah is None or bl is None else ah - bl)
    if op == 'mul':
        lo = hi = None
        if None not in (al, ah, bl, bh):
            p = [al * bl, al * bh, ah * bl, ah * bh]
            lo, hi = min(p), max(p)
        return mkint(x * y, lo, hi)
    if type(b) is int and b > 0 or (type(b) is not int and bool(b > 0)):
        if op == 'div':
            return mkint(x / y, None if al is None else (0 if al >= 0 else al),
                         ah if ah is not None and ah >= 0 else None)
        return mkint(x % y, 0, None if bh is None else bh - 1)
    # negative divisor: floor semantics
    if op == 'div':
        return mkint((-x) / (-y))
    return mkint(-((-x) % (-y)))


def _bvop(a, b, op):
    if op in ('shl', 'shr') and type(b) is not int:
        b = concretize(b)
    if type(a) is int and type(b) is int:
        return _PY[op](a, b)
    if op == 'shl':
        x = to_bv(a)
        return mkbv(z3.Concat(x, z3.BitVecVal(0, b))) if b else mkbv(x)
    if op == 'shr':
        x = to_bv(a)
        if b >= x.size():
            return 0
        return mkbv(z3.Extract(x.size() - 1, b, x))
    if op == 'and':
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            x = to_bv(a)
            if b < 0:
                raise Inconclusive('negative mask')
            n = b.bit_length()
            if n == 0:
                return 0
            if n < x.size():
                x = z3.Extract(n - 1, 0, x)
            if b == (1 << x.size()) - 1 or b & ((1 << x.size()) - 1) == (1 << x.size()) - 1:
                return mkbv(x)
            return mkbv(x & z3.BitVecVal(b & ((1 << x.size()) - 1), x.size()))
        x, y = to_bv(a), to_bv(b)
        w = min(x.size(), y.size())
        x = z3.Extract(w - 1, 0, x) if x.size() > w else x
        y = z3.Extract(w - 1, 0, y) if y.size() > w else y
        return mkbv(x & y)
    x, y = to_bv(a), to_bv(b)
    if op == 'or':
        x, y = _ext2(x, y)
        return mkbv(x | y)
    if op == 'xor':
        x, y = _ext2(x, y)
        return mkbv(x ^ y)
    if op == 'add':
        x, y = _ext2(x, y, max(x.size(), y.size()) + 1)
        return mkbv(x + y)
    if op == 'mul':
        x, y = _ext2(x, y, x.size() + y.size())
        return mkbv(x * y)
    if op == 'mod':
        if type(b) is int and b & (b - 1) == 0:
            return _bvop(a, b - 1, 'and')
        w = y.size()
        x, y = _ext2(x, y)
        return mkbv(z3.Extract(w - 1, 0, z3.URem(x, y)))
    if op == 'div':
        if type(b) is int and b & (b - 1) == 0:
            return _bvop(a, b.bit_length() - 1, 'shr')
        x, y = _ext2(x, y)
        return mkbv(z3.UDiv(x, y))
    raise Inconclusive(op)


def concretize(n, limit=600):
    """The value of n on this path: branches over all possible values."""
    t = type(n)
    if t is int or t is bool:
        return int(n)
    e = eng()
    if t is SymBool:
        return 1 if n else 0
    if t is UInt:
        d = e.dom[n.var.name]
        vals = sorted({n.table.vals[i] for i in core.mask_values(d)})
        while len(vals) > 1:
            v = vals[0]
            if bool(n == v):
                return v
            vals = vals[1:]
        return vals[0]
    if t is SymReal:
        raise Inconclusive('concretisation of a real')
    z = n.e
    for _ in range(limit):
        def value():
            r, m = e.query()
            if r != z3.sat:
                raise Inconclusive('no value for concretisation')
            return m.eval(z, model_completion=True).as_long()
        v, taken = e.pick(value, lambda v: ('z', z == v))
        if taken:
            return v
    raise Inconclusive('too many values for concretisation')


def int_to_chars(n, nbytes):
    """Little endian bytes of a non-negative integer."""
    if type(n) is int:
        return list(n.to_bytes(nbytes, 'little'))
    if type(n) is SymBV and n.parts is not None and len(n.parts) <= nbytes:
        return list(n.parts) + [0] * (nbytes - len(n.parts))
    x = to_bv(n)
    w = 8 * nbytes
    if x.size() < w:
        x = z3.ZeroExt(w - x.size(), x)
    out = []
    for i in range(nbytes):
        b = z3.simplify(z3.Extract(8 * i + 7, 8 * i, x))
        out.append(b.as_long() if z3.is_bv_value(b) else BChar(b))
    return out


def chars_to_int(cs):
    """Little endian bytes to an integer."""
    cs = [norm(c) for c in cs]
    if all(type(c) is int for c in cs):
        return int.from_bytes(bytes(cs), 'little')
    parts = [z3.BitVecVal(c, 8) if type(c) is int else c.bv(8) for c in reversed(cs)]
    n = mkbv(z3.Concat(*parts) if len(parts) > 1 else parts[0])
    if type(n) is SymBV:
        n.parts = cs
    return n


def digits_of(n):
    """The decimal characters of an integer (branches on sign and length)."""
    if type(n) is int:
        return [ord(c) for c in str(n)]
    e = eng()
    if type(n) is UInt:
        vals = {n.table.vals[i] for i in core.mask_values(e.dom[n.var.name])}
        lens = sorted({len(str(v)) for v in vals})
        size = lens[-1]
        c = UChar(n.var, n.table)
        for k in lens[:-1]:
            if e.branch(ch_pred(c, ('digits', k), lambda v: len(str(v)) == k)):
                size = k
                break
        return [norm(UChar(n.var, n.table.map(('digit', size, i), lambda v: ord(str(v)[i]) if len(str(v)) == size else 48)))
                for i in range(size)]
    if type(n) is SymBV and n.e.size() <= 16:
        k = 1
        z = n.e
        w = z.size()
        while 10 ** k < 1 << w and not e.branch(('z', z3.ULT(z, 10 ** k))):
            k += 1
        out = []
        for i in range(k - 1, -1, -1):
            d = z if not i else z3.UDiv(z, z3.BitVecVal(10 ** i, w))
            if i < k - 1:
                d = z3.URem(d, z3.BitVecVal(10, w))
            d = z3.simplify((z3.Extract(7, 0, d) if w > 8 else d if w == 8 else z3.ZeroExt(8 - w, d)) + 48)
            out.append(d.as_long() if z3.is_bv_value(d) else BChar(d))
        return out
    if type(n) is SymBV:
        n = SymInt(z3.BV2Int(n.e), 0, n.hi)
    if bool(n < 0):
        return [ord('-')] + digits_of(-n)
    k = 1
    while not bool(n < 10 ** k):
        k += 1
        if k > 19:
            raise Inconclusive('too many digits')
    out = []
    total = None
    name = e.fresh('digit')
    for i in range(k):
        lowest = ord('1') if i == 0 and k > 1 else ord('0')
        m = 0
        for d in range(lowest, ord('9') + 1):
            m |= 1 << d
        v = e.var('%s.%d' % (name, i), m)
        out.append(UChar(v))
        term = (z3.BV2Int(v.z) - 48) * 10 ** (k - 1 - i)
        total = term if total is None else total + term
    e.assume(('z', n.e == total))
    return out


# ---------------------------------------------------------------------------
# Reals: quotients of polynomials over atoms with rational coefficients.
class Atom(object):
    __slots__ = ('name', 'z', 'kind', 'arg')

    def __init__(self, name, z, kind, arg=None):
        self.name = name
        self.z = z
        self.kind = kind
        self.arg = arg


ONE = {(): Fraction(1)}


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        c2 = r.get(m, 0) + c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def m_mul(m, n):
    d = dict(m)
    for a, k in n:
        d[a] = d.get(a, 0) + k
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 20000:
        raise Inconclusive('polynomial too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def p_const(a):
    if not a:
        return Fraction(0)
    if len(a) == 1 and () in a:
        return a[()]
    return None


def p_z3(p):
    e = eng()
    terms = []
    for m, c in sorted(p.items()):
        t = z3.RealVal(str(c))
        f = None
        for a, k in m:
            z = e.atoms[a].z
            for _ in range(k):
                f = z if f is None else f * z
        terms.append(t if f is None else (f if c == 1 else t * f))
    if not terms:
        return z3.RealVal(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def atoms():
    e = eng()
    if getattr(e, 'atoms_path', None) is not e.trace:
        e.atoms = {}
        e.atom_keys = {}
        e.atoms_path = e.trace
        e.sign_memo = {}
    return e.atoms


class SymReal(object):
    """num/den; den is never zero on the path.  iv: an interval that contains
    the value (computed operation by operation)."""
    __slots__ = ('n', 'd', 'iv')

    def __init__(self, n, d=ONE):
        self.n = n
        self.d = d
        self.iv = None

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 0x52

    def __repr__(self):
        return '<SymReal>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return bool(self != 0)

    def __add__(self, o):
        return _r_op(self, o, 'add')

    def __radd__(self, o):
        return _r_op(o, self, 'add')

    def __sub__(self, o):
        return _r_op(self, o, 'sub')

    def __rsub__(self, o):
        return _r_op(o, self, 'sub')

    def __mul__(self, o):
        return _r_op(self, o, 'mul')

    def __rmul__(self, o):
        return _r_op(o, self, 'mul')

    def __truediv__(self, o):
        return _r_op(self, o, 'div')

    def __rtruediv__(self, o):
        return _r_op(o, self, 'div')

    def __neg__(self):
        return _r_op(0, self, 'sub')

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __pow__(self, k):
        if type(k) is not int or k < 0:
            raise Inconclusive('power of a real')
        r = 1.0
        for _ in range(k):
            r = r * self
        return r

    def __lt__(self, o):
        return _r_cmp(self, o, 'lt')

    def __le__(self, o):
        return _r_cmp(self, o, 'le')

    def __gt__(self, o):
        return _r_cmp(o, self, 'lt')

    def __ge__(self, o):
        return _r_cmp(o, self, 'le')

    def __eq__(self, o):
        return _r_cmp(self, o, 'eq')

    def __ne__(self, o):
        r = _r_cmp(self, o, 'eq')
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else ~r

    def __float__(self):
        raise Inconclusive('native float of a symbolic real')

    def __int__(self):
        raise Inconclusive('native int of a symbolic real')

    def __round__(self, n=None):
        raise Inconclusive('round of a symbolic real')

    def __format__(self, spec):
        raise Inconclusive('native format of a symbolic real')

    def __str__(self):
        raise Inconclusive('native str of a symbolic real')

    def is_integer(self):
        raise Inconclusive('is_integer of a symbolic real')


def frac(x):
    if type(x) is float:
        if x != x or x in (float('inf'), float('-inf')):
            raise Inconclusive('infinite or NaN constant with a symbolic real')
        return Fraction(x)
    return Fraction(x)


def int_atom(n):
    """The atom of an integer variable or expression."""
    atoms()
    e = eng()
    z = to_zint(n)
    key = ('int', z.sexpr())
    name = e.atom_keys.get(key)
    if name is None:
        name = 'i%03d' % len(e.atoms)
        e.atoms[name] = Atom(name, z3.ToReal(z), 'int', z)
        e.atom_keys[key] = name
    return name


def int_poly(z):
    """The polynomial of a z3 integer expression over integer atoms."""
    k = z.decl().kind()
    if z3.is_int_value(z):
        v = z.as_long()
        return {(): Fraction(v)} if v else {}
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in z.children():
            r = p_add(r, int_poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = int_poly(z.arg(0))
        for c in z.children()[1:]:
            r = p_add(r, p_scale(int_poly(c), -1))
        return r
    if k == z3.Z3_OP_UMINUS:
        return p_scale(int_poly(z.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = ONE
        for c in z.children():
            r = p_mul(r, int_poly(c))
        return r
    return {((int_atom(SymInt(z)), 1),): Fraction(1)}


def to_real(x):
    t = type(x)
    if t is SymReal:
        return x
    if t in (int, float, Fraction, bool):
        c = frac(x)
        return SymReal({(): c} if c else {}, ONE)
    if t is SymBool:
        x = x.as_int()
    if t in (SymInt, UInt, SymBV, SymBool):
        atoms()
        return SymReal(int_poly(to_zint(x)), ONE)
    raise Inconclusive('not a number: %r' % (t,))


def mkreal(n, d=ONE):
    dc = p_const(d)
    if dc is not None:
        if dc != 1:
            n = p_scale(n, 1 / dc)
        d = ONE
    nc = p_const(n)
    if nc is not None and (nc == 0 or d is ONE or p_const(d) is not None):
        f = float(nc)
        if Fraction(f) == nc:
            return f
        return SymReal(n, ONE)
    if d is not ONE:
        # cancel a common monomial and constant factor
        common = None
        for p in (n, d):
            for m in p:
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    common = {a: min(k, dm[a]) for a, k in common.items() if a in dm}
                if not common:
                    break
        if common:
            def red(p):
                out = {}
                for m, c in p.items():
                    dm = dict(m)
                    for a, k in common.items():
                        dm[a] -= k
                    out[tuple(sorted((a, k) for a, k in dm.items() if k))] = c
                return out
            n, d = red(n), red(d)
        lead = d[max(d)]
        if lead != 1:
            n, d = p_scale(n, 1 / lead), p_scale(d, 1 / lead)
        if p_const(d) is not None:
            return mkreal(n, d)
        if n == d:
            return 1.0
    return SymReal(n, d)


INF = float('inf')


def atom_iv(name):
    e = eng()
    a = e.atoms[name]
    if a.kind == 'int':
        lo, hi = e.ints.get(a.arg.sexpr(), (None, None))
        return (-INF if lo is None else Fraction(lo), INF if hi is None else Fraction(hi))
    if a.kind == 'real':
        return a.arg
    if a.kind in ('log', 'exp'):
        lo, hi = iv_of(a.arg)
        f = _log if a.kind == 'log' else _exp

        def at(x, d):
            if a.kind == 'exp' and x > 700:
                return INF
            if a.kind == 'exp' and x < -700:
                return Fraction(0) if d < 0 else Fraction(1, 10 ** 300)
            if a.kind == 'log' and x <= 0:
                return -INF
            if x == INF:
                return INF
            if a.kind == 'log':
                x = Fraction(x)
                sh = x.numerator.bit_length() - x.denominator.bit_length()
                v = Fraction(_log(x / Fraction(2) ** sh)) + sh * Fraction(_log(2))
            else:
                v = Fraction(f(float(x)))
            if v == 0 or (a.kind == 'exp' and x == 0):
                return v
            return v + d * (abs(v) + Fraction(1, 10 ** 6) if a.kind == 'log' else v) / 10 ** 9
        lo2, hi2 = at(lo, -1), at(hi, 1)
        if a.kind == 'log' and hi <= 1:
            hi2 = min(hi2, Fraction(0))
        if a.kind == 'log' and lo >= 1:
            lo2 = max(lo2, Fraction(0))
        return lo2, hi2
    return -INF, INF


def i_mul(a, b):
    cs = []
    for x in a:
        for y in b:
            cs.append(Fraction(0) if x == 0 or y == 0 else x * y)
    return min(cs), max(cs)


def i_add(a, b):
    return a[0] + b[0], a[1] + b[1]


def i_pow(a, k):
    if a[0] >= 0:
        return a[0] ** k, a[1] ** k
    r = (Fraction(1), Fraction(1))
    for _ in range(k):
        r = i_mul(r, a)
    if k % 2 == 0:
        r = (max(r[0], Fraction(0)), r[1])
    return r


def p_iv(p):
    lo = hi = Fraction(0)
    for m, c in p.items():
        t = (c, c)
        for a, k in m:
            t = i_mul(t, i_pow(atom_iv(a), k))
        lo, hi = lo + t[0], hi + t[1]
    return lo, hi


def i_div(a, b):
    if b[0] > 0 or b[1] < 0:
        inv = (Fraction(0) if b[1] in (INF, -INF) else 1 / b[1],
               Fraction(0) if b[0] in (INF, -INF) else 1 / b[0])
        return i_mul(a, inv)
    return -INF, INF


def i_round(iv):
    """Keeps the fractions small (outward)."""
    out = []
    for x, d in zip(iv, (-1, 1)):
        if isinstance(x, Fraction) and x.denominator.bit_length() > 400:
            sh = x.denominator.bit_length() - x.numerator.bit_length() + 200
            sh = max(sh, 0)
            k = x.numerator * (1 << sh) // x.denominator
            x = Fraction(k if d < 0 else k + 1, 1 << sh)
        out.append(x)
    return tuple(out)


def iv_of(x):
    if x.iv is None:
        try:
            if x.d is ONE:
                x.iv = i_round(p_iv(x.n))
            else:
                x.iv = i_round(i_div(p_iv(x.n), p_iv(x.d)))
        except (OverflowError, ValueError):
            x.iv = (-INF, INF)
    return x.iv


def _r_op(a, b, op):
    a, b = num(a), num(b)
    if a is None or b is None:
        return NotImplemented
    a, b = to_real(a), to_real(b)
    r = _r_op2(a, b, op)
    if type(r) is SymReal:
        x, y = iv_of(a), iv_of(b)
        try:
            if op == 'add':
                iv = i_add(x, y)
            elif op == 'sub':
                iv = i_add(x, (-y[1], -y[0]))
            elif op == 'mul':
                iv = i_mul(x, y)
            else:
                iv = i_div(x, y)
            z = iv_of(r)
            lo = z[0] if iv[0] != iv[0] else max(iv[0], z[0])
            hi = z[1] if iv[1] != iv[1] else min(iv[1], z[1])
            r.iv = i_round((lo, hi))
        except (OverflowError, ValueError):
            pass
    return r


def _r_op2(a, b, op):
    if op in ('add', 'sub'):
        bn = b.n if op == 'add' else p_scale(b.n, -1)
        if a.d == b.d:
            return mkreal(p_add(a.n, bn), a.d)
        return mkreal(p_add(p_mul(a.n, b.d), p_mul(bn, a.d)), p_mul(a.d, b.d))
    if op == 'mul':
        if a.n == b.d:
            return mkreal(b.n, a.d)
        if b.n == a.d:
            return mkreal(a.n, b.d)
        return mkreal(p_mul(a.n, b.n), p_mul(a.d, b.d))
    if bool(real_cmp(b, 0, 'eq')):
        raise ZeroDivisionError('float division by zero')
    if a.d == b.d:
        return mkreal(a.n, b.n)
    return mkreal(p_mul(a.n, b.d), p_mul(a.d, b.n))


def _r_cmp(a, b, op):
    a, b = num(a), num(b)
    if a is None or b is None:
        return NotImplemented
    return real_cmp(a, b, op)


def new_real(name, lo, hi):
    atoms()
    e = eng()
    n = 'r%03d' % len(e.atoms)
    e.atoms[n] = Atom(n, z3.Real(name), 'real', (Fraction(lo), Fraction(hi)))
    return SymReal({((n, 1),): Fraction(1)})


def sign(p):
    """The sign (1 or -1) of a nonzero polynomial if the path implies it,
    otherwise branches."""
    c = p_const(p)
    if c is not None:
        return 1 if c > 0 else -1
    # products and sums of non-negative atoms with positive coefficients
    e = eng()
    if all(c > 0 for c in p.values()) and all(
            e.nonneg(a) for m in p for a, _ in m):
        return 1
    if e.branch(('z', p_z3(p) > 0)):
        return 1
    return -1


def real_cmp(a, b, op):
    inf = float('inf')
    if type(b) is float and (b == inf or b == -inf):
        return _PY[op](0.0, b)
    if type(a) is float and (a == inf or a == -inf):
        return _PY[op](a, 0.0)
    a, b = to_real(a), to_real(b)
    x, y = iv_of(a), iv_of(b)
    if x[1] < y[0]:
        return op != 'eq'
    if y[1] < x[0]:
        return False
    if op == 'le' and x[1] <= y[0]:
        return True
    if op == 'lt' and y[1] <= x[0]:
        return False
    if a.d == b.d:
        diff, den = p_add(a.n, p_scale(b.n, -1)), a.d
    else:
        diff = p_add(p_mul(a.n, b.d), p_scale(p_mul(b.n, a.d), -1))
        den = p_mul(a.d, b.d)
    c = p_const(diff)
    if op == 'eq':
        if c is not None:
            return c == 0
        return zbool(p_z3(diff) == 0)
    s = sign(den)
    if s < 0:
        diff = p_scale(diff, -1)
        c = None if c is None else -c
    if c is not None:
        return c < 0 if op == 'lt' else c <= 0
    e = eng()
    if all(v > 0 for v in diff.values()) and all(e.nonneg(x) for m in diff for x, _ in m):
        if op == 'lt':
            return False
        if () in diff:
            return False
    if all(v < 0 for v in diff.values()) and all(e.nonneg(x) for m in diff for x, _ in m):
        if op == 'le' or () in diff:
            return True
    z = p_z3(diff)
    return zbool(z < 0 if op == 'lt' else z <= 0)


def _nonneg(self, name):
    a = self.atoms[name]
    if a.kind == 'exp':
        return True
    if a.kind == 'int':
        info = self.ints.get(a.arg.sexpr())
        return info is not None and info[0] is not None and info[0] >= 0
    if a.kind == 'real':
        lo = a.arg[0] if a.arg else None
        return lo is not None and lo >= 0
    return False


core.Explorer.nonneg = _nonneg


def r_log(x):
    """math.log of a symbolic number."""
    x = to_real(x)
    c = p_const(x.n)
    if c is not None and p_const(x.d) is not None:
        return _log(float(c))
    if bool(real_cmp(x, 0, 'le')):
        raise ValueError('math domain error')
    e = eng()
    key = ('log', p_key(x.n), p_key(x.d))
    name = e.atom_keys.get(key)
    if name is None:
        # equal arguments written differently?
        for k, nm in list(e.atom_keys.items()):
            if k[0] == 'log':
                y = e.atoms[nm].arg
                if not p_add(p_mul(x.n, y.d), p_scale(p_mul(y.n, x.d), -1)):
                    e.atom_keys[key] = nm
                    return SymReal({((nm, 1),): Fraction(1)})
        name = 'l%03d' % len(e.atoms)
        z = z3.Real(e.fresh('log'))
        e.atoms[name] = Atom(name, z, 'log', x)
        e.atom_keys[key] = name
        below = to_cond(real_cmp(x, 1, 'lt'))
        equal = to_cond(real_cmp(x, 1, 'eq'))
        e.assume(('z', z3.And(
            z3.Implies(c_formula(below), z < 0),
            z3.Implies(c_formula(equal), z == 0),
            z3.Implies(c_formula(c_not(c_or([below, equal]))), z > 0))))
    return SymReal({((name, 1),): Fraction(1)})


def r_exp(x):
    x = to_real(x)
    c = p_const(x.n)
    e = eng()
    if c is not None and p_const(x.d) is not None:
        return _exp(float(c))
    if p_const(x.d) is not None:
        # exp of an integer combination of logarithms is a product
        ok = True
        out = 1.0
        for m, c in x.n.items():
            if len(m) == 1 and m[0][1] == 1 and e.atoms[m[0][0]].kind == 'log' and c.denominator == 1 and abs(c) < 200:
                y = e.atoms[m[0][0]].arg
                y = mkreal(y.n, y.d)
                for _ in range(abs(int(c))):
                    out = out * y if c > 0 else out / y
            elif m == ():
                out = out * _exp(float(c))
            else:
                ok = False
        if ok:
            return out
    key = ('exp', p_key(x.n), p_key(x.d))
    name = e.atom_keys.get(key)
    if name is None:
        for k, nm in list(e.atom_keys.items()):
            if k[0] == 'exp':
                y = e.atoms[nm].arg
                if not p_add(p_mul(x.n, y.d), p_scale(p_mul(y.n, x.d), -1)):
                    e.atom_keys[key] = nm
                    return SymReal({((nm, 1),): Fraction(1)})
        name = 'e%03d' % len(e.atoms)
        z = z3.Real(e.fresh('exp'))
        e.atoms[name] = Atom(name, z, 'exp', x)
        e.atom_keys[key] = name
        neg = to_cond(real_cmp(x, 0, 'lt'))
        zero = to_cond(real_cmp(x, 0, 'eq'))
        e.assume(('z', z3.And(
            z > 0,
            z3.Implies(c_formula(neg), z < 1),
            z3.Implies(c_formula(zero), z == 1),
            z3.Implies(c_formula(c_not(c_or([neg, zero]))), z > 1))))
    return SymReal({((name, 1),): Fraction(1)})


def r_frexp(x):
    x = to_real(x)
    if p_const(x.n) is not None and p_const(x.d) is not None:
        return math.frexp(float(p_const(x.n)))
    # a power of two that brings the value into [0.5, 1): branch on it
    if bool(real_cmp(x, 0, 'eq')):
        return 0.0, 0
    if bool(real_cmp(x, 0, 'lt')):
        m, k = r_frexp(-x)
        return -m, k
    for k in range(0, -1100, -1):
        if not bool(x < Fraction(2) ** (k - 1)):
            if bool(x < Fraction(2) ** k):
                return x * (Fraction(1) / Fraction(2) ** k), k
            break
    for k in range(1, 1025):
        if bool(x < Fraction(2) ** k):
            return x * (Fraction(1) / Fraction(2) ** k), k
    raise Inconclusive('frexp out of range')


class SymFP(object):
    """An IEEE double; only comparisons."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def _o(self, o):
        t = type(o)
        if t is SymFP:
            return o.e
        if t in (int, float, bool):
            return z3.FPVal(float(o), z3.Float64())
        return None

    def _c(self, o, f):
        v = self._o(o)
        if v is None:
            return NotImplemented
        return zbool(z3.simplify(f(self.e, v)))

    def __lt__(self, o):
        return self._c(o, z3.fpLT)

    def __le__(self, o):
        return self._c(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._c(o, z3.fpGT)

    def __ge__(self, o):
        return self._c(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._c(o, z3.fpEQ)

    def __ne__(self, o):
        r = self._c(o, z3.fpEQ)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else ~r

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def __bool__(self):
        return bool(self != 0)

    def _ar(self, o, f, rev=False):
        v = self._o(o)
        if v is None:
            return NotImplemented
        a, b = (v, self.e) if rev else (self.e, v)
        return SymFP(f(z3.RNE(), a, b))

    def __add__(self, o):
        return self._ar(o, z3.fpAdd)

    def __radd__(self, o):
        return self._ar(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._ar(o, z3.fpSub)

    def __rsub__(self, o):
        return self._ar(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._ar(o, z3.fpMul)

    def __rmul__(self, o):
        return self._ar(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._ar(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._ar(o, z3.fpDiv, True)

    def __hash__(self):
        return 0x53

    def __repr__(self):
        return '<SymFP>'

    def __float__(self):
        return fp_concretize(self)

    def __int__(self):
        return int(fp_concretize(self))

    def __str__(self):
        return str(fp_concretize(self))

    def __format__(self, spec):
        return format(fp_concretize(self), spec)

    def __round__(self, n=None):
        return round(fp_concretize(self), n)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def real_value(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return float(v.as_fraction())


def fp_value(v):
    """A Python float from a z3 FP value."""
    import struct
    if v.isNaN():
        return float('nan')
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack('<d', struct.pack('<Q', bv.as_long()))[0]


def fp_concretize(x):
    """Gives up completeness: one value of the path."""
    e = eng()

    def value():
        r, m = e.query()
        if r != z3.sat:
            raise Inconclusive('no value for a float')
        return fp_value(m.eval(x.e, model_completion=True))

    v, _ = e.pick(value, lambda v: ('z', z3.fpIsNaN(x.e) if v != v else x.e == z3.FPVal(v, z3.Float64())),
                  pin=True)
    e.incomplete.append('float concretised')
    return v


# ---------------------------------------------------------------------------
# Text and bytes
STR_SPACE = frozenset(i for i in range(0x3001) if chr(i).isspace())
BYTES_SPACE = frozenset(b' \t\n\r\x0b\x0c')


def mk(is_bytes, cs):
    cs = [norm(c) for c in cs]
    for c in cs:
        if type(c) is not int:
            return SymBytes(cs) if is_bytes else SymStr(cs)
    if is_bytes:
        return bytes(cs)
    return ''.join(map(chr, cs))


def chars_of(x, is_bytes):
    """The characters of a (symbolic or concrete) text, or None."""
    t = type(x)
    if t is SymStr:
        return None if is_bytes else x.cs
    if t is SymBytes:
        return x.cs if is_bytes else None
    if is_bytes:
        if t in (bytes, bytearray):
            return list(x)
        if isinstance(x, (bytes, bytearray, memoryview)) and not is_sym(x):
            return list(bytes(x))
        return None
    if t is str:
        return [ord(c) for c in x]
    if isinstance(x, str) and not is_sym(x):
        return [ord(c) for c in str(x)]
    return None


def is_sym(x):
    return type(x) in SYM


class SymSeq(object):
    __slots__ = ('cs', 'memo')
    B = None

    def __init__(self, cs):
        self.cs = cs

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, ''.join(
            ascii(chr(c))[1:-1] if type(c) is int else '?' for c in self.cs))

    def _chars(self, x):
        r = chars_of(x, self.B)
        if r is None:
            raise TypeError('expected %s, not %s' % (
                'bytes' if self.B else 'str', getattr(x, '__class__', type(x)).__name__))
        return r

    def mk(self, cs):
        return mk(self.B, cs)

    def __hash__(self):
        return 0x54 if self.B else 0x55

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        if self.B:
            return iter([char_to_int(c) for c in self.cs])
        return iter([mk(False, [c]) for c in self.cs])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.mk(self.cs[i])
        c = self.cs[i]
        if self.B:
            return char_to_int(c)
        return mk(False, [c])

    def __add__(self, o):
        r = chars_of(o, self.B)
        if r is None:
            if isinstance(o, (str, bytes)):
                raise TypeError("can't concat str and bytes")
            return NotImplemented
        return self.mk(self.cs + r)

    def __radd__(self, o):
        r = chars_of(o, self.B)
        if r is None:
            if isinstance(o, (str, bytes)):
                raise TypeError("can't concat str and bytes")
            return NotImplemented
        return self.mk(r + self.cs)

    def __mul__(self, n):
        return self.mk(self.cs * concretize(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models
        return models.percent(self, args)

    def eq_conds(self, o):
        r = chars_of(o, self.B)
        if r is None or len(r) != len(self.cs):
            return False
        out = []
        for a, b in zip(self.cs, r):
            c = ch_eq(a, b)
            if c is False:
                return False
            if c is not True:
                out.append(c)
        return out or True

    def __eq__(self, o):
        if chars_of(o, self.B) is None:
            return NotImplemented if not isinstance(o, (str, bytes)) else False
        r = self.eq_conds(o)
        if r is True or r is False:
            return r
        return SymBool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else ~r

    def _order(self, o, strict_less, less_ok_equal):
        r = self._chars(o)
        e = eng()
        for a, b in zip(self.cs, r):
            if e.branch(ch_eq(a, b)):
                continue
            return e.branch(ch_lt(a, b)) == strict_less
        if len(self.cs) == len(r):
            return less_ok_equal
        return (len(self.cs) < len(r)) == strict_less

    def _ord_ok(self, o):
        return chars_of(o, self.B) is not None

    def __lt__(self, o):
        return self._order(o, True, False) if self._ord_ok(o) else NotImplemented

    def __le__(self, o):
        return self._order(o, True, True) if self._ord_ok(o) else NotImplemented

    def __gt__(self, o):
        return self._order(o, False, False) if self._ord_ok(o) else NotImplemented

    def __ge__(self, o):
        return self._order(o, False, True) if self._ord_ok(o) else NotImplemented

    # -- searching --------------------------------------------------------
    def _match_at(self, sub, i):
        e = eng()
        for k, c in enumerate(sub):
            if not e.branch(ch_eq(self.cs[i + k], c)):
                return False
        return True

    def _range(self, start, end):
        return slice(start if start is None else concretize(start),
                     end if end is None else concretize(end)).indices(len(self.cs))[:2]

    def _sub(self, x):
        if self.B and num(x) is not None and not isinstance(x, (str, bytes)):
            return [int_to_char(num(x))]
        return self._chars(x)

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._range(start, end)
        if start is not None and concretize(start) > len(self.cs):
            return -1
        for i in range(a, b - len(sub) + 1):
            if self._match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._range(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if self._match_at(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def __contains__(self, sub):
        if not self.B and chars_of(sub, False) is None:
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(sub) >= 0

    def count(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._range(start, end)
        if not sub:
            return max(b - a + 1, 0)
        n = 0
        i = a
        while i <= b - len(sub):
            if self._match_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.startswith(x, start, end) for x in p)
        p = self._chars(p)
        a, b = self._range(start, end)
        if start is not None and concretize(start) > len(self.cs):
            return False
        if a + len(p) > b:
            return False
        conds = [ch_eq(self.cs[a + i], c) for i, c in enumerate(p)]
        return self._conj(conds)

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.endswith(x, start, end) for x in p)
        p = self._chars(p)
        a, b = self._range(start, end)
        if b - len(p) < a:
            return False
        conds = [ch_eq(self.cs[b - len(p) + i], c) for i, c in enumerate(p)]
        return self._conj(conds)

    @staticmethod
    def _conj(conds):
        if any(c is False for c in conds):
            return False
        conds = [c for c in conds if c is not True]
        return SymBool(conds) if conds else True

    def removeprefix(self, p):
        if self.startswith(p):
            return self.mk(self.cs[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self.mk(self.cs[:-len(p)])
        return self

    # -- splitting ----------------------------------------------------------
    def _isspace(self, c):
        sp = BYTES_SPACE if self.B else STR_SPACE
        return eng().branch(ch_pred(c, ('space', self.B), sp.__contains__))

    def split(self, sep=None, maxsplit=-1):
        maxsplit = concretize(maxsplit)
        cs = self.cs
        out = []
        if sep is None:
            i, n = 0, len(cs)
            while True:
                while i < n and self._isspace(cs[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self.mk(cs[i:]))
                    break
                j = i
                while j < n and not self._isspace(cs[j]):
                    j += 1
                out.append(self.mk(cs[i:j]))
                i = j
            return out
        s = self._chars(sep)
        if not s:
            raise ValueError('empty separator')
        start = i = 0
        while i <= len(cs) - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(s, i):
                out.append(self.mk(cs[start:i]))
                i += len(s)
                start = i
            else:
                i += 1
        out.append(self.mk(cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = concretize(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        cs = self.cs
        out = []
        if sep is None:
            j = len(cs)
            while True:
                while j and self._isspace(cs[j - 1]):
                    j -= 1
                if not j:
                    break
                if len(out) >= maxsplit:
                    out.append(self.mk(cs[:j]))
                    break
                i = j
                while i and not self._isspace(cs[i - 1]):
                    i -= 1
                out.append(self.mk(cs[i:j]))
                j = i
            return out[::-1]
        s = self._chars(sep)
        end = len(cs)
        i = end - len(s)
        while i >= 0 and len(out) < maxsplit:
            if self._match_at(s, i):
                out.append(self.mk(cs[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(self.mk(cs[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        brk = (lambda v: v in (10, 13)) if self.B else (
            lambda v: v in (10, 13, 11, 12, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029))
        e = eng()
        out = []
        cs = self.cs
        i = start = 0
        while i < len(cs):
            if e.branch(ch_pred(cs[i], ('brk', self.B), brk)):
                j = i + 1
                if e.branch(ch_eq(cs[i], 13)) and j < len(cs) and e.branch(ch_eq(cs[j], 10)):
                    j += 1
                out.append(self.mk(cs[start:j] if keepends else cs[start:i]))
                i = start = j
            else:
                i += 1
        if start < len(cs):
            out.append(self.mk(cs[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self.mk(self.cs), self.mk([]), self.mk([])
        n = len(sep)
        return self.mk(self.cs[:i]), sep, self.mk(self.cs[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.mk([]), self.mk([]), self.mk(self.cs)
        n = len(sep)
        return self.mk(self.cs[:i]), sep, self.mk(self.cs[i + n:])

    def _strip(self, chars, left, right):
        if chars is None:
            test = self._isspace
        else:
            opts = self._chars(chars)
            if all(type(c) is int for c in opts):
                s = frozenset(opts)
                test = lambda c: eng().branch(ch_pred(c, ('in', s), s.__contains__))
            else:
                test = lambda c: any(eng().branch(ch_eq(c, o)) for o in opts)
        i, j = 0, len(self.cs)
        if left:
            while i < j and test(self.cs[i]):
                i += 1
        if right:
            while j > i and test(self.cs[j - 1]):
                j -= 1
        return self.mk(self.cs[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, old, new, count=-1):
        old, new = self._chars(old), self._chars(new)
        count = concretize(count)
        out = []
        i = n = 0
        cs = self.cs
        if not old:
            for k, c in enumerate(cs):
                if count < 0 or n < count:
                    out.extend(new)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(new)
            return self.mk(out)
        while i < len(cs):
            if (count < 0 or n < count) and i + len(old) <= len(cs) and self._match_at(old, i):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return self.mk(out)

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out.extend(self.cs)
            out.extend(self._chars(x))
        return self.mk(out)

    def ljust(self, w, fill=None):
        f = 32 if fill is None else self._chars(fill)[0]
        return self.mk(self.cs + [f] * (w - len(self.cs)))

    def rjust(self, w, fill=None):
        f = 32 if fill is None else self._chars(fill)[0]
        return self.mk([f] * (w - len(self.cs)) + self.cs)

    def zfill(self, w):
        if len(self.cs) >= w:
            return self
        e = eng()
        if self.cs and e.branch(ch_pred(self.cs[0], ('in', frozenset(b'+-')), frozenset(b'+-').__contains__)):
            return self.mk(self.cs[:1] + [48] * (w - len(self.cs)) + self.cs[1:])
        return self.mk([48] * (w - len(self.cs)) + self.cs)

    def expandtabs(self, n=8):
        return self.replace('\t' if not self.B else b'\t', (' ' if not self.B else b' ') * n) \
            if not bool(('\t' if not self.B else b'\t') in self) else _give_up('expandtabs')

    # -- case and classes -------------------------------------------------------
    def _one(self, name):
        """A function of single code points for a method that maps characters;
        None where the result is not one character."""
        if self.B:
            return lambda v: getattr(bytes([v]), name)()[0]

        def fn(v):
            r = getattr(chr(v), name)()
            return ord(r) if len(r) == 1 else -1
        return fn

    def _map(self, name):
        e = eng()
        fn = self._one(name)
        out = []
        for c in self.cs:
            if type(c) is UChar and not self.B and c.table.vals:
                if e.branch(ch_pred(c, ('multi', name), lambda v: fn(v) < 0)):
                    for k in mk_values(c):
                        if e.branch(ch_eq(c, k)):
                            out.extend(ord(x) for x in getattr(chr(k), name)())
                            break
                    continue
            elif type(c) is int:
                if self.B:
                    out.append(fn(c))
                else:
                    out.extend(ord(x) for x in getattr(chr(c), name)())
                continue
            # (values with several characters were excluded above)
            out.append(ch_map(c, ('map', name, self.B), lambda v: max(fn(v), 0)))
        return self.mk(out)

    def lower(self):
        return self._map('lower')

    def upper(self):
        return self._map('upper')

    def casefold(self):
        return self._map('casefold')

    def swapcase(self):
        return self._map('swapcase')

    def capitalize(self):
        head = self.mk(self.cs[:1])
        tail = self.mk(self.cs[1:])
        return (head.upper() if self.B or len(head) == 0 else head.title()) + tail.lower()

    def title(self):
        e = eng()
        out = self.mk([])
        prev = False
        for c in self.cs:
            one = self.mk([c])
            if self.B:
                alpha = e.branch(ch_pred(c, 'balpha', lambda v: bytes([v]).isalpha()))
            else:
                alpha = e.branch(ch_pred(c, 'cased', lambda v: chr(v).lower() != chr(v) or chr(v).upper() != chr(v) or chr(v).title() != chr(v)))
            out = out + ((one.lower() if prev else (one.upper() if self.B else one.upper())) if alpha else one)
            prev = alpha
        return out

    def _all(self, name):
        if not self.cs:
            return name == 'isascii'
        if self.B:
            pred = lambda v: getattr(bytes([v]), name)()
        else:
            pred = lambda v: getattr(chr(v), name)()
        conds = [ch_pred(c, (name, self.B), pred) for c in self.cs]
        return self._conj(conds)

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isascii(self):
        return self._all('isascii')

    def isprintable(self):
        return True if not self.cs else self._all('isprintable')

    def islower(self):
        return self._cased('islower', 'isupper')

    def isupper(self):
        return self._cased('isupper', 'islower')

    def _cased(self, want, other):
        e = eng()
        g = (lambda v: bytes([v])) if self.B else chr
        some = False
        for c in self.cs:
            if e.branch(ch_pred(c, (other, self.B), lambda v: getattr(g(v), other)() or (not self.B and g(v).istitle() and not g(v).isupper()))):
                return False
            if e.branch(ch_pred(c, (want, self.B), lambda v: getattr(g(v), want)())):
                some = True
        return some

    def translate(self, table, delete=None):
        out = []
        e = eng()
        if self.B:
            if delete:
                s = frozenset(self._chars(delete))
                cs = [c for c in self.cs if not e.branch(ch_pred(c, ('in', s), s.__contains__))]
            else:
                cs = self.cs
            if table is None:
                return self.mk(cs)
            t = bytes(table)
            return self.mk([ch_map(c, ('tr', t), lambda v: t[v]) for c in cs])
        for c in self.cs:
            if type(c) is int:
                out.extend(ord(x) for x in chr(c).translate(table))
                continue
            for k in mk_values(c):
                if len(chr(k).translate(table)) != 1 or True:
                    pass
            res = {k: chr(k).translate(table) for k in mk_values(c)}
            if all(len(v) == 1 for v in res.values()):
                out.append(ch_map(c, ('trs', tuple(sorted(res.items()))), lambda v: ord(res.get(v, chr(v)))))
                continue
            changed = frozenset(k for k, v in res.items() if v != chr(k))
            if e.branch(ch_pred(c, ('in', changed), changed.__contains__)):
                for k in sorted(changed):
                    if e.branch(ch_eq(c, k)):
                        out.extend(ord(x) for x in res[k])
                        break
            else:
                out.append(c)
        return self.mk(out)


def mk_values(c):
    """All code points a character may still have."""
    if type(c) is int:
        return [c]
    if type(c) is UChar:
        return sorted({c.table.vals[i] for i in core.mask_values(eng().dom[c.var.name])})
    return list(range(256))


def _give_up(what):
    raise Inconclusive(what)


class SymStr(SymSeq):
    __slots__ = ()
    B = False

    @property
    def __class__(self):
        return str

    def __str__(self):
        raise Inconclusive('native str of a symbolic string')

    def __format__(self, spec):
        raise Inconclusive('native format of a symbolic string')

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self, a, k)

    def isidentifier(self):
        raise Inconclusive('isidentifier')

    def center(self, w, fill=' '):
        raise Inconclusive('center')


class SymBytes(SymSeq):
    __slots__ = ()
    B = True

    @property
    def __class__(self):
        return bytes

    def __bytes__(self):
        raise Inconclusive('native bytes() of symbolic bytes')

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self, encoding, errors)

    def hex(self):
        e = eng()
        out = []
        hexd = b'0123456789abcdef'
        for c in self.cs:
            out.append(ch_map(c, 'hexhi', lambda v: hexd[v >> 4 & 15]))
            out.append(ch_map(c, 'hexlo', lambda v: hexd[v & 15]))
        return mk(False, out)


SYM = (SymBool, SymInt, UInt, SymBV, SymReal, SymFP, SymStr, SymBytes)
SYM = frozenset(SYM)


# -- codecs ---------------------------------------------------------------------
STATELESS = {'ascii', 'iso8859-1', 'utf-8', 'iso8859-2', 'iso8859-15', 'cp1252',
             'cp437', 'koi8-r', 'raw-unicode-escape', 'unicode-escape', 'cp1251'}


def codec_name(encoding):
    if is_sym(encoding):
        encoding = codec_of(encoding)
    return encoding, codecs.lookup(encoding).name


def codec_of(s):
    """A concrete encoding name.  The names of codecs that exist are explored
    one by one; all others are one case: the error of the lookup."""
    if type(s) is not SymStr:
        return native_text(s)
    cs = [norm(c) for c in s.cs]
    unknown = [i for i, c in enumerate(cs) if type(c) is not int]
    n = 1
    for i in unknown:
        if isinstance(cs[i], BChar):
            return native_text(s)
        n *= len(mk_values(cs[i]))
    if n > 70000:
        return native_text(s)
    e = eng()
    found = []
    errors = {}
    for combo in itertools.product(*[mk_values(cs[i]) for i in unknown]):
        t = list(cs)
        for i, v in zip(unknown, combo):
            t[i] = v
        t = ''.join(map(chr, t))
        try:
            codecs.lookup(t)
        except Exception as x:
            errors.setdefault(type(x), []).append((combo, t))
        else:
            found.append((combo, t))
    kinds = sorted(errors.values(), key=len)
    if kinds:
        rest = kinds.pop()
        for k in kinds:
            found += k
    else:
        rest = [found.pop()]
    for combo, t in found:
        if all(e.branch(ch_eq(cs[i], v)) for i, v in zip(unknown, combo)):
            return t
    return rest[0][1]


def encode(s, encoding='utf-8', errors='strict'):
    e = eng()
    encoding, name = codec_name(encoding)
    if name not in STATELESS:
        return native_text(s).encode(encoding, errors)
    out = []
    for pos, c in enumerate(s.cs):
        if type(c) is EChar and name != 'unicode-escape':
            out.append(c)
            continue
        if isinstance(c, BChar):
            if not e.branch(('z', z3.ULT(c.e, 128))):
                if name == 'iso8859-1' and e.branch(('z', z3.ULT(c.e, 256))):
                    out.append(c)
                    continue
                if name == 'utf-8' and e.branch(('z', z3.ULT(c.e, 0x800))):
                    out.append(BChar(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, c.e))))
                    out.append(BChar(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, c.e))))
                    continue
                raise Inconclusive('encoding of a computed non-ASCII character')
            if name == 'unicode-escape':
                raise Inconclusive('unicode-escape of a computed character')
            out.append(c)
            continue
        vals = mk_values(c)
        res = {}
        for v in vals:
            try:
                res[v] = chr(v).encode(name, errors)
            except UnicodeEncodeError as ex:
                res[v] = None
        kinds = sorted({-1 if r is None else len(r) for r in res.values()})
        kind = kinds[0]
        for k in kinds[:-1]:
            sel = frozenset(v for v in vals if (-1 if res[v] is None else len(res[v])) == k)
            if e.branch(ch_pred(c, ('in', sel), sel.__contains__)):
                kind = k
                break
        else:
            kind = kinds[-1]
        if kind < 0:
            bad = [v for v in vals if res[v] is None][0]
            try:
                chr(bad).encode(name, errors)
            except UnicodeEncodeError as ex:
                raise UnicodeEncodeError(ex.encoding, '?' * pos + chr(bad), pos, pos + 1, ex.reason) from None
        for j in range(kind):
            fill = None
            m = {}
            for v in vals:
                r = res[v]
                if r is not None and len(r) == kind:
                    m[v] = r[j]
                    fill = r[j]
            if len(set(m.values())) == 1:
                out.append(fill)
            else:
                out.append(ch_map(c, ('enc', name, errors, kind, j, tuple(sorted(m.items()))),
                                  lambda v, m=m, fill=fill: m.get(v, fill)))
    return mk(True, out)


def decode(b, encoding='utf-8', errors='strict'):
    e = eng()
    encoding, name = codec_name(encoding)
    if name == 'utf-8':
        return mk(False, decode_utf8(b.cs, errors))
    if name not in STATELESS or 'unicode-escape' in name:
        return native_text(b).decode(encoding, errors)
    out = []
    for pos, c in enumerate(b.cs):
        if type(c) is EChar:
            out.append(c)
            continue
        if type(c) is BChar:
            if name == 'iso8859-1':
                out.append(c)
                continue
            if not e.branch(('z', z3.ULT(c.e, 128))):
                raise Inconclusive('decoding of a computed byte')
            out.append(c)
            continue
        vals = mk_values(c)
        res = {}
        for v in vals:
            try:
                res[v] = bytes([v]).decode(name, errors)
            except UnicodeDecodeError:
                res[v] = None
        kinds = sorted({-1 if r is None else len(r) for r in res.values()})
        kind = kinds[-1]
        for k in kinds[:-1]:
            sel = frozenset(v for v in vals if (-1 if res[v] is None else len(res[v])) == k)
            if e.branch(ch_pred(c, ('in', sel), sel.__contains__)):
                kind = k
                break
        if kind < 0:
            raise UnicodeDecodeError(name, b'?' * (pos + 1), pos, pos + 1, 'invalid byte')
        for j in range(kind):
            fill = None
            m = {}
            for v in vals:
                r = res[v]
                if r is not None and len(r) == kind:
                    m[v] = ord(r[j])
                    fill = ord(r[j])
            if len(set(m.values())) == 1:
                out.append(fill)
            else:
                out.append(ch_map(c, ('dec', name, errors, kind, j, tuple(sorted(m.items()))),
                                  lambda v, m=m, fill=fill: m.get(v, fill)))
    return mk(False, out)


def decode_utf8(cs, errors):
    e = eng()
    out = []
    i, n = 0, len(cs)

    def between(c, a, b):
        return e.branch(ch_pred(c, ('rng', a, b), lambda v: a <= v <= b))

    def bad(start, end):
        if errors == 'strict':
            raise UnicodeDecodeError('utf-8', b'?' * n, start, end, 'invalid byte')
        if errors == 'ignore':
            return
        if errors == 'replace':
            out.append(0xfffd)
        elif errors == 'surrogateescape':
            for c in cs[start:end]:
                out.append(ch_map(c, 'surr', lambda v: 0xdc00 + v))
        elif errors == 'surrogatepass':
            raise UnicodeDecodeError('utf-8', b'?' * n, start, end, 'invalid byte')
        else:
            raise Inconclusive('utf-8 error handler ' + str(errors))

    def bits(c, mask):
        if type(c) is int:
            return z3.BitVecVal(c & mask, CW)
        return c.bv() & z3.BitVecVal(mask, CW)

    while i < n:
        c = cs[i]
        if between(c, 0, 0x7f):
            out.append(c)
            i += 1
            continue
        if between(c, 0xc2, 0xdf):
            need = [(0x80, 0xbf)]
        elif between(c, 0xe0, 0xef):
            lo, hi = 0x80, 0xbf
            if e.branch(ch_eq(c, 0xe0)):
                lo = 0xa0
            elif e.branch(ch_eq(c, 0xed)):
                if errors != 'surrogatepass':
                    hi = 0x9f
            need = [(lo, hi), (0x80, 0xbf)]
        elif between(c, 0xf0, 0xf4):
            lo, hi = 0x80, 0xbf
            if e.branch(ch_eq(c, 0xf0)):
                lo = 0x90
            elif e.branch(ch_eq(c, 0xf4)):
                hi = 0x8f
            need = [(lo, hi), (0x80, 0xbf), (0x80, 0xbf)]
        else:
            bad(i, i + 1)
            i += 1
            continue
        k = 0
        while k < len(need) and i + 1 + k < n and between(cs[i + 1 + k], *need[k]):
            k += 1
        if k < len(need):
            bad(i, i + 1 + k)
            i += 1 + k
            continue
        seq = cs[i:i + 1 + k]
        if all(type(norm(x)) is int for x in seq):
            out.extend(ord(x) for x in bytes(norm(x) for x in seq).decode('utf-8', errors))
        else:
            v = bits(seq[0], {1: 0x1f, 2: 0x0f, 3: 0x07}[k])
            for x in seq[1:]:
                v = (v << 6) | bits(x, 0x3f)
            out.append(BChar(v))
        i += 1 + k
    return out


def native_text(s):
    """A concrete text of this path: gives up completeness unless the text is
    determined."""
    if not is_sym(s):
        return s
    e = eng()
    if type(s) in (SymStr, SymBytes):
        out = []
        for c in s.cs:
            c = norm(c)
            if type(c) is not int:
                c = pick_char(c)
            out.append(c)
        return bytes(out) if s.B else ''.join(map(chr, out))
    raise Inconclusive('not a text')


def pick_char(c):
    e = eng()
    e.incomplete.append('character concretised'); import traceback, os; os.environ.get('SX_PICK') and traceback.print_stack()

    def value():
        if type(c) is UChar and c.var.name not in e.related:
            vals = mk_values(c)
            return vals[len(vals) // 2]
        r, m = e.query()
        if r != z3.sat:
            raise Inconclusive('no value for a character')
        return m.eval(c.bv(), model_completion=True).as_long()

    v, _ = e.pick(value, lambda v: ch_eq(c, v), pin=True)
    return v
