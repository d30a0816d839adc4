"""Calls from instrumented code: models of builtins and C functions that
accept symbolic values, and containers with symbolic keys."""
import binascii
import collections
import os
import builtins
import functools
import hashlib
import io
import math
import re
import string as _string
import struct
import sys
import types
import unicodedata

import z3

from . import core, regex
from .core import Control, Inconclusive
from .values import (SYM, SymBool, SymBytes, SymFP, SymInt, SymReal, SymStr,
                     EChar, UChar, UInt, SymBV, IntBase, ch_eq, ch_map, ch_pred,
                     char_to_int, chars_of, chars_to_int, concretize,
                     digits_of, encode, decode, eng, int_to_char, int_to_byte, int_to_chars,
                     is_sym, mk, mk_values, native_text, norm, num, r_exp, r_frexp, r_log,
                     to_real, fp_concretize)

MODELS = {}


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[id(f)] = (f, m)
        return m
    return deco


BUILTIN = types.BuiltinFunctionType
CMETHOD = type(re.compile('').match)
METHOD_DESC = (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)
PATTERN = re.Pattern


def anysym(a, k):
    for x in a:
        if type(x) in SYM:
            return True
    for x in k.values():
        if type(x) in SYM:
            return True
    return False


def call(f, /, *a, **k):
    m = MODELS.get(id(f))
    if m is not None:
        return m[1](*a, **k)
    t = type(f)
    if t is BUILTIN or t is CMETHOD:
        o = f.__self__
        to = type(o)
        if to in (str, bytes, PATTERN) or o is str or o is bytes:
            return mcall(o, f.__name__, *a, **k)
        if f.__name__ == 'issuperset' and to in (frozenset, set) and len(a) == 1 and not k and anysym(a, k):
            return all(contains(x, o) for x in a[0])
        if anysym(a, k) and not isinstance(o, (list, dict, set, types.GeneratorType)) and \
                type(o) is not _deque:
            return native(f, a, k)
        return f(*a, **k)
    if t in METHOD_DESC:
        if a and (type(a[0]) in SYM or anysym(a, k)):
            if f.__objclass__ in (str, bytes, int, float, object):
                return mcall(a[0], f.__name__, *a[1:], **k)
        return f(*a, **k)
    if t is LRU:
        if not f.__module__.startswith(('sbclassifier', 'props')):
            # (what the standard library caches has no state)
            if anysym(a, k):
                return f.__wrapped__(*a, **k)
        else:
            return cached(f, a, k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **dict(f.keywords, **k))
    return f(*a, **k)


from collections import deque as _deque

LRU = type(functools.lru_cache(lambda: 0))


def cached(f, a, k):
    """A call of a cached function of the code under test: the cache is that
    of this path, and its size is not limited."""
    cache = eng().caches.setdefault(id(f), [])
    for b, j, r in cache:
        if len(a) == len(b) and k.keys() == j.keys() and all(x == y for x, y in zip(a, b)) and all(k[n] == j[n] for n in k):
            return r
    r = f.__wrapped__(*a, **k)
    cache.append((a, k, r))
    return r

NATIVE_OK = {id(x) for x in (len, isinstance, iter, next, getattr, hasattr, setattr,
                             id, callable, print, list, tuple, zip, enumerate, sorted,
                             reversed, any, all, min, max, sum, abs, divmod, pow, range,
                             issubclass, slice, object, super, hash, bool, delattr, vars)}


def native(f, a, k):
    """A native function without a model: concretise its symbolic arguments
    (this gives up completeness) and call it."""
    if id(f) in NATIVE_OK:
        return f(*a, **k)
    try:
        return f(*[conc(x, f) for x in a], **{n: conc(x, f) for n, x in k.items()})
    except Control:
        raise


def conc(x, why=None):
    t = type(x)
    if t not in SYM:
        return x
    eng().notes.append('native call: %s' % getattr(why, '__name__', why))
    if t in (SymStr, SymBytes):
        return native_text(x)
    if t is SymBool:
        return bool(x)
    if t is SymFP:
        return fp_concretize(x)
    if t is SymReal:
        raise Inconclusive('native call with a symbolic real: %r' % (why,))
    return concretize(x)


STRM = frozenset(n for n in dir(SymStr) if not n.startswith('__'))
BYTESM = frozenset(n for n in dir(SymBytes) if not n.startswith('__'))


def lift(o):
    if type(o) is bytes:
        return SymBytes(list(o))
    return SymStr([ord(c) for c in o])


def mcall(o, name, /, *a, **k):
    t = type(o)
    if t is str:
        if name == 'join':
            return join(False, o, *a)
        if name == 'format':
            if anysym(a, k) or any(needs_format(x) for x in a):
                return str_format(o, a, k)
            return o.format(*a, **k)
        if anysym(a, k) and name in STRM:
            return getattr(lift(o), name)(*a, **k)
        if name == 'startswith' or name == 'endswith':
            if a and type(a[0]) is tuple and anysym(a[0], {}):
                return getattr(lift(o), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is bytes:
        if name == 'join':
            return join(True, o, *a)
        if anysym(a, k) and name in BYTESM:
            return getattr(lift(o), name)(*a, **k)
        if name == 'startswith' or name == 'endswith':
            if a and type(a[0]) is tuple and anysym(a[0], {}):
                return getattr(lift(o), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is PATTERN:
        return regex.pattern_call(o, name, a, k)
    if o is str or o is bytes:
        if a and type(a[0]) in SYM or anysym(a, k):
            if name == 'maketrans':
                return native(getattr(o, name), a, k)
            if name == 'fromhex':
                return native(o.fromhex, a, k)
            return mcall(a[0], name, *a[1:], **k)
        if name == 'maketrans' and len(a) == 1 and isinstance(a[0], SDict):
            return str.maketrans(dict(a[0].items()))
        return getattr(o, name)(*a, **k)
    if o is int and name == 'from_bytes':
        return int_from_bytes(*a, **k)
    if o is dict and name == 'fromkeys':
        return SDict((x, a[1] if len(a) > 1 else None) for x in a[0])
    return call(getattr(o, name), *a, **k)


def join(is_bytes, sep, it):
    it = list(it)
    for x in it:
        if type(x) in SYM:
            return (SymBytes if is_bytes else SymStr)(
                list(sep) if is_bytes else [ord(c) for c in sep]).join(it)
    return sep.join(it)


# -- operators ----------------------------------------------------------------
def contains(a, b):
    """a in b"""
    t = type(b)
    if t is str or t is bytes:
        if type(a) in SYM:
            if t is str and type(a) is not SymStr:
                raise TypeError("'in <string>' requires string as left operand")
            if t is str and len(a) == 1:
                c = a.cs[0]
                s = frozenset(ord(x) for x in b)
                return eng().branch(ch_pred(c, ('in', s), s.__contains__))
            if t is bytes and isinstance(a, int):
                s = frozenset(b)
                if type(a) is UInt:
                    return any(bool(a == v) for v in sorted(s))
                return any(bool(a == v) for v in sorted(s))
            return a in lift(b)
        return a in b
    return a in b


def mod(a, b):
    t = type(a)
    if (t is str or t is bytes):
        if type(b) in SYM or type(b) is tuple and anysym(b, {}) or isinstance(b, dict) and anysym(b.values(), {}):
            return percent(a, b)
        if t is str and (type(b) is tuple and any(needs_format(x) for x in b) or
                         not hasattr(type(b), '__getitem__') and needs_format(b)):
            return percent(a, b)
        return a % b
    return a % b


_fmt = re.compile(r'%(?:\((.*?)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def percent(fmt, args):
    """fmt % args"""
    is_bytes = type(fmt) in (bytes, SymBytes)
    if is_sym(fmt):
        fmt = native_text(fmt)
    f = fmt.decode('latin-1') if is_bytes else fmt
    out = []
    pos = 0
    vals = list(args) if type(args) is tuple else [args]
    used = 0
    for m in _fmt.finditer(f):
        out.extend(ord(c) for c in f[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(ord('%'))
            continue
        if key is not None:
            v = args[key]
        else:
            if width == '*':
                width = '%d' % concretize(vals[used])
                used += 1
                if width[0] == '-':
                    flags, width = flags + '-', width[1:]
            if prec == '*':
                prec = '%d' % max(concretize(vals[used]), 0)
                used += 1
            if used >= len(vals):
                raise TypeError('not enough arguments for format string')
            v = vals[used]
            used += 1
        if conv == 'b' and is_bytes:
            conv = 's'
        spec = '%' + flags + (width or '') + ('.' + prec if prec else '') + conv
        if conv in 'sr' and not is_bytes and not is_sym(v) and needs_format(v):
            v = to_str(v) if conv == 's' else to_repr(v)
            spec = spec[:-1] + 's'
            conv = 's'
        if not is_sym(v):
            if is_bytes:
                out.extend(spec.encode() % (v,))
            else:
                out.extend(ord(c) for c in spec % (v,))
            continue
        if conv in 'sr' and isinstance(v, (str, bytes)):
            if is_bytes or conv == 'r':
                if type(v) is SymBytes and conv == 's':
                    cs = v.cs
                else:
                    cs = chars_of(to_repr(v) if conv == 'r' else v, is_bytes)
            else:
                cs = chars_of(to_str(v), False)
            if prec:
                cs = cs[:int(prec)]
        elif conv == 'c':
            cs = [int_to_char(v)] if isinstance(v, int) else chars_of(v, is_bytes)
        elif conv in 'diu' or conv in 'sr' and isinstance(v, int) and type(v) is not SymBool:
            cs = digits_of(v)
            if '0' in flags and width and '-' not in flags:
                neg = cs[:1] == [45]
                body = cs[1:] if neg else cs
                body = [48] * (int(width) - len(cs)) + body
                cs = ([45] if neg else []) + body
        elif conv in 'xXo':
            cs = [ord(c) for c in spec % (concretize(v),)]
        else:
            c = conc(v, '%' + conv)
            cs = [ord(x) for x in spec % (c,)]
        if width:
            w = int(width)
            cs = cs + [32] * (w - len(cs)) if '-' in flags else [32] * (w - len(cs)) + cs
        out.extend(cs)
    if key_unused(vals, used, args, f):
        raise TypeError('not all arguments converted during string formatting')
    out.extend(ord(c) for c in f[pos:])
    return mk(is_bytes, out)


def key_unused(vals, used, args, f):
    return type(args) is tuple and used < len(vals)


def to_str(x):
    t = type(x)
    if t not in SYM:
        if t is bytes or t is str:
            return str(x)
        s = getattr(type(x), '__str__', None)
        if isinstance(s, types.FunctionType):
            return s(x)
        if t in (list, tuple, SSet) or t in DICTS or isinstance(s, types.WrapperDescriptorType) and \
                isinstance(getattr(type(x), '__repr__', None), types.FunctionType):
            return to_repr(x)
        if isinstance(x, BaseException):
            if not x.args:
                return ''
            return to_str(x.args[0]) if len(x.args) == 1 and not isinstance(x, KeyError) \
                else (to_repr(x.args[0]) if len(x.args) == 1 else str(x))
        return str(x)
    if t is SymStr:
        return x
    if t is SymBytes:
        return to_repr(x)
    if t is SymBool:
        return 'True' if x else 'False'
    if isinstance(x, int):
        return mk(False, digits_of(x))
    if t is SymFP:
        return str(fp_concretize(x))
    raise Inconclusive('str of a symbolic real')


def to_repr(x):
    t = type(x)
    if t in (SymStr, SymBytes):
        e = eng()
        quote = 39
        if x.count(b"'" if x.B else "'") and not x.count(b'"' if x.B else '"'):
            quote = 34
        out = [98, quote] if x.B else [quote]
        for c in x.cs:
            vals = [c] if type(c) is int else None
            if type(c) is int:
                out.extend(ord(z) for z in repr_char(c, x.B, quote))
                continue
            plain = (lambda v: repr_char(v, x.B, quote) == chr(v))
            if e.branch(ch_pred(c, ('plain', x.B, quote), plain)):
                out.append(c)
            elif type(c) is UChar:
                # one path for every length of the escape
                lens = sorted({len(repr_char(v, x.B, quote)) for v in mk_values(c)})
                for n in lens:
                    if n == lens[-1] or e.branch(ch_pred(c, ('reprlen', x.B, quote, n),
                                                         lambda v: len(repr_char(v, x.B, quote)) == n)):
                        break
                for j in range(n):
                    out.append(ch_map(c, ('repr', x.B, quote, j), lambda v: ord((repr_char(v, x.B, quote) + ' ' * 10)[j])))
            else:
                from .values import pick_char
                for v in mk_values(c):
                    if not plain(v) and e.branch(ch_eq(c, v)):
                        out.extend(ord(z) for z in repr_char(v, x.B, quote))
                        break
        return mk(False, out + [quote])
    if t in SYM:
        return to_str(x)
    if t in DICTS[1:]:
        d = to_repr(SDict(x.most_common() if t is SCounter else x))
        if t is SDefault:
            return mcall('', 'join', ['defaultdict(', to_repr(x.default_factory), ', ', d, ')'])
        return mcall('', 'join', [m_type(x).__name__, '(', d if len(x) else '', ')'])
    if t is tuple or t is list or isinstance(x, (SSet, SDict)):
        if t is tuple:
            parts = [to_repr(v) for v in x]
            return mcall('', 'join', ['(', mcall(', ', 'join', parts), ',)' if len(parts) == 1 else ')'])
        if t is list:
            return mcall('', 'join', ['[', mcall(', ', 'join', [to_repr(v) for v in x]), ']'])
        if isinstance(x, SSet):
            if not x:
                return 'set()'
            return mcall('', 'join', ['{', mcall(', ', 'join', [to_repr(v) for v in x]), '}'])
        return mcall('', 'join', ['{', mcall(', ', 'join', [
            mcall('', 'join', [to_repr(k), ': ', to_repr(v)]) for k, v in x.items()]), '}'])
    r = getattr(type(x), '__repr__', None)
    if isinstance(r, types.FunctionType):
        return r(x)
    return repr(x)


def repr_char(v, is_bytes, quote):
    if v == quote:
        return '\\' + chr(v)
    if is_bytes:
        r = repr(bytes([v]))[2:-1]
    else:
        r = repr(chr(v))[1:-1]
    if v in (34, 39):
        return chr(v)
    return r


def needs_format(x):
    return type(x) in (list, tuple, SSet) or type(x) in DICTS or isinstance(x, BaseException) or \
        isinstance(getattr(type(x), '__str__', None), types.FunctionType) or \
        isinstance(getattr(type(x), '__format__', None), types.FunctionType) or \
        isinstance(getattr(type(x), '__repr__', None), types.FunctionType)


def fmt_value(v, conv, spec):
    if conv == 'r':
        v = to_repr(v)
    elif conv == 's':
        v = to_str(v)
    elif conv == 'a':
        v = ascii(conc(v))
    if type(v) not in SYM:
        if spec == '' or spec is None:
            f = getattr(type(v), '__format__', None)
            if isinstance(f, types.FunctionType):
                return f(v, '')
            return to_str(v) if needs_format(v) else format(v)
        return format(v, spec)
    if spec in ('', None):
        return to_str(v)
    m = re.fullmatch(r'(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?(.?)', spec, re.S)
    if not m:
        raise Inconclusive('format specification %r' % spec)
    fill, align, sgn, alt, zero, width, comma, prec, ty = m.groups()
    if isinstance(v, str):
        if prec:
            v = v[:int(prec)]
        cs = chars_of(v, False)
        align = align or '<'
    elif isinstance(v, int) and ty in ('', 'd') and not comma and not sgn:
        if type(v) is SymBool:
            v = v.as_int()
        cs = digits_of(v)
        align = align or '>'
        if zero:
            fill, align = '0', '='
    else:
        return format(conc(v, 'format'), spec)
    w = int(width or 0)
    pad = [ord(fill or ' ')] * (w - len(cs))
    if align == '<':
        cs = cs + pad
    elif align == '>':
        cs = pad + cs
    elif align == '=':
        cs = cs[:1] + pad + cs[1:] if cs[:1] == [45] else pad + cs
    else:
        h = len(pad) // 2
        cs = pad[:h] + cs + pad[h:]
    return mk(False, cs)


_formatter = _string.Formatter()


def str_format(fmt, a, k):
    if is_sym(fmt):
        fmt = native_text(fmt)
    out = []
    auto = 0
    for lit, field, spec, conv in _formatter.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            first, rest = auto, _string._string.formatter_field_name_split('0' + field)[1]
            auto += 1
        else:
            first, rest = _string._string.formatter_field_name_split(field)
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else v[i]
        if spec and '{' in spec:
            spec = str_format(spec, a, k)
        out.append(fmt_value(v, conv, spec))
    return join(False, '', out)


def fstring(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.append(fmt_value(v, conv, spec))
        else:
            out.append(p)
    return join(False, '', out)


# -- containers -----------------------------------------------------------------
class SDict(dict):
    """A dict that may have symbolic keys (and be asked for symbolic keys)."""
    __slots__ = ('nsym',)

    def __new__(cls, *a, **k):
        self = dict.__new__(cls)
        self.nsym = 0
        return self

    def __init__(self, *a, **k):
        self.update(*a, **k)

    def _canon(self, key):
        if type(key) not in SYM and type(key) is not tuple:
            if not self.nsym:
                return key
            if type(key) not in (str, bytes, int):
                if not isinstance(key, (str, bytes, int, tuple)):
                    return key
        elif type(key) is tuple and not self.nsym and not has_sym(key):
            return key
        # identity first
        for x in dict.__iter__(self):
            if x is key:
                return x
        for x in dict.__iter__(self):
            if compatible(x, key) and same(x, key):
                return x
        return key

    def _set(self, key, value):
        key = self._canon(key)
        n = dict.__len__(self)
        dict.__setitem__(self, key, value)
        if dict.__len__(self) != n and has_sym(key):
            self.nsym += 1

    __setitem__ = _set

    def __getitem__(self, key):
        c = self._canon(key)
        if dict.__contains__(self, c):
            return dict.__getitem__(self, c)
        missing = getattr(type(self), '__missing__', None)
        if missing is not None:
            return missing(self, key)
        raise KeyError(key)

    def __contains__(self, key):
        return dict.__contains__(self, self._canon(key))

    def __delitem__(self, key):
        c = self._canon(key)
        if not dict.__contains__(self, c):
            raise KeyError(key)
        dict.__delitem__(self, c)
        if has_sym(c):
            self.nsym -= 1

    def get(self, key, default=None):
        return dict.get(self, self._canon(key), default)

    def setdefault(self, key, default=None):
        c = self._canon(key)
        if not dict.__contains__(self, c):
            self._set(c, default)
        return dict.__getitem__(self, c)

    def pop(self, key, *d):
        c = self._canon(key)
        if dict.__contains__(self, c):
            if has_sym(c):
                self.nsym -= 1
            return dict.pop(self, c)
        if d:
            return d[0]
        raise KeyError(key)

    def popitem(self):
        k, v = dict.popitem(self)
        if has_sym(k):
            self.nsym -= 1
        return k, v

    def clear(self):
        dict.clear(self)
        self.nsym = 0

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for key in o:
                    self[key] = o[key]
            elif hasattr(o, 'keys'):
                for key in o.keys():
                    self[key] = o[key]
            else:
                for key, v in o:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def copy(self):
        return SDict(self)

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        if not isinstance(o, SDict):
            o = SDict(o)
        for k in self:
            if k not in o or not bool(self[k] == o[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __reduce_ex__(self, p):
        return (SDict, (list(self.items()),))

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls((x, v) for x in it)


class SDefault(SDict):
    """collections.defaultdict"""
    def __init__(self, factory=None, *a, **k):
        if factory is not None and not callable(factory):
            raise TypeError('first argument must be callable or None')
        self.default_factory = factory
        self.update(*a, **k)

    __class__ = property(lambda self: collections.defaultdict)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = call(self.default_factory)
        self[key] = v
        return v

    def copy(self):
        return SDefault(self.default_factory, self)

    __copy__ = copy

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __reduce_ex__(self, p):
        return (SDefault, (self.default_factory, list(self.items())))


class SOrdered(SDict):
    """collections.OrderedDict"""
    __class__ = property(lambda self: collections.OrderedDict)

    def move_to_end(self, key, last=True):
        c = self._canon(key)
        v = dict.pop(self, c)       # a KeyError as it should be
        rest = [] if last else list(dict.items(self))
        for k, _ in rest:
            dict.__delitem__(self, k)
        dict.__setitem__(self, c, v)
        for k, w in rest:
            dict.__setitem__(self, k, w)

    def popitem(self, last=True):
        if not len(self):
            raise KeyError('dictionary is empty')
        k = next(dict.__reversed__(self) if last else dict.__iter__(self))
        v = dict.pop(self, k)
        if has_sym(k):
            self.nsym -= 1
        return k, v

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def __eq__(self, o):
        r = SDict.__eq__(self, o)
        if r is True and isinstance(o, collections.OrderedDict):
            return all(compatible(x, y) and same(x, y) for x, y in zip(self, o))
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __reduce_ex__(self, p):
        return (type(self), (list(self.items()),))


class SCounter(SDict, collections.Counter):
    """collections.Counter"""
    def __init__(self, *a, **k):
        self.update(*a, **k)

    def update(self, *a, **k):
        o = a[0] if a else None
        if isinstance(o, dict):
            for key, n in o.items():
                self[key] = n + self.get(key, 0)
        elif o is not None:
            for key in native_iter(o):
                self[key] = self.get(key, 0) + 1
        if k:
            self.update(k)

    def subtract(self, *a, **k):
        o = a[0] if a else None
        if isinstance(o, dict):
            for key, n in o.items():
                self[key] = self.get(key, 0) - n
        elif o is not None:
            for key in native_iter(o):
                self[key] = self.get(key, 0) - 1
        if k:
            self.subtract(k)

    def __missing__(self, key):
        return 0

    def __delitem__(self, key):
        if key in self:
            SDict.__delitem__(self, key)

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda x: x[1], reverse=True)
        return items if n is None else items[:max(n, 0)]

    def elements(self):
        return iter([k for k, n in self.items() for _ in range(n)])

    def total(self):
        return sum(self.values())

    def copy(self):
        return SCounter(self)

    __copy__ = copy

    def _arith(self, o, f):
        if not isinstance(o, collections.Counter):
            return NotImplemented
        r = SCounter()
        for key in list(self) + [k for k in o if k not in self]:
            n = f(self.get(key, 0), o.get(key, 0))
            if n > 0:
                r[key] = n
        return r

    def __add__(self, o):
        return self._arith(o, lambda x, y: x + y)

    def __sub__(self, o):
        return self._arith(o, lambda x, y: x - y)

    def __or__(self, o):
        return self._arith(o, lambda x, y: x if x >= y else y)

    def __and__(self, o):
        return self._arith(o, lambda x, y: x if x <= y else y)

    def _inplace(self, r):
        if r is not NotImplemented:
            self.clear()
            self.update(r)
            r = self
        return r

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __ior__(self, o):
        return self._inplace(self | o)

    def __iand__(self, o):
        return self._inplace(self & o)

    def __pos__(self):
        return self + SCounter()

    def __neg__(self):
        return SCounter() - self

    def __eq__(self, o):
        if not isinstance(o, collections.Counter):
            return NotImplemented
        return all(bool(self.get(k, 0) == o.get(k, 0)) for k in list(self) + list(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __reduce_ex__(self, p):
        return (SCounter, (dict(self.items()) if not self.nsym else SDict(self.items()),))


def native_iter(o):
    return o if not isinstance(o, (str, bytes)) else list(o)


BASES = {dict: SDict, collections.defaultdict: SDefault,
         collections.OrderedDict: SOrdered, collections.Counter: SCounter}
DICTS = (SDict, SDefault, SOrdered, SCounter)


def base(t):
    """The class to use where the code derives one from t."""
    try:
        return BASES.get(t, t)
    except TypeError:
        return t


def has_sym(x):
    t = type(x)
    if t in SYM:
        return True
    if t is tuple or isinstance(x, tuple):
        return any(has_sym(y) for y in x)
    return False


def compatible(a, b):
    ta, tb = isinstance(a, str), isinstance(b, str)
    if ta or tb:
        return ta and tb
    ta, tb = isinstance(a, (bytes, tuple)), isinstance(b, (bytes, tuple))
    if ta or tb:
        return ta and tb
    return True


def same(a, b):
    return bool(a == b)


class SSet(set):
    """A set that may have symbolic elements."""
    __slots__ = ('nsym', 'order')

    def __new__(cls, *a, **k):
        self = set.__new__(cls)
        self.nsym = 0
        return self

    def __init__(self, it=()):
        set.__init__(self)
        for x in it:
            self.add(x)

    _canon = SDict._canon

    def _canon(self, key):
        if not self.nsym and not has_sym(key):
            return key
        for x in set.__iter__(self):
            if x is key:
                return x
        for x in sorted_items(self):
            if compatible(x, key) and same(x, key):
                return x
        return key

    def __iter__(self):
        return iter(sorted_items(self))

    def add(self, x):
        c = self._canon(x)
        n = set.__len__(self)
        if c is x and not (not self.nsym and not has_sym(x)):
            # a new element, or the identical one
            for y in set.__iter__(self):
                if y is c:
                    return
        elif c is not x:
            return
        set.add(self, c)
        if set.__len__(self) != n and has_sym(c):
            self.nsym += 1

    def __contains__(self, x):
        if not self.nsym and not has_sym(x):
            return set.__contains__(self, x)
        c = self._canon(x)
        for y in set.__iter__(self):
            if y is c:
                return True
        return False

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def discard(self, x):
        if not self.nsym and not has_sym(x):
            set.discard(self, x)
            return
        c = self._canon(x)
        for y in set.__iter__(self):
            if y is c:
                set.discard(self, c)
                if has_sym(c):
                    self.nsym -= 1
                return

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        set.clear(self)
        self.nsym = 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def union(self, *its):
        r = SSet(self)
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, SSet) else SSet(o)
            r = [x for x in r if x in o]
        return SSet(r)

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def difference(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, SSet) else SSet(o)
            r = [x for x in r if x not in o]
        return SSet(r)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection_update(self, *os):
        keep = self.intersection(*os)
        self.clear()
        self.update(keep)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def symmetric_difference(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return self.difference(o).union(o.difference(self))

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return all(x in o for x in self)

    __le__ = issubset

    def issuperset(self, o):
        return all(x in self for x in o)

    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def isdisjoint(self, o):
        return not len(self.intersection(o))

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(SSet(o)) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __reduce_ex__(self, p):
        return (SSet, (list(self),))


def sorted_items(s):
    """Elements in a deterministic order (equal hashes keep insertion order)."""
    return list(set.__iter__(s))


class SFrozen(SSet):
    __slots__ = ()

    def __hash__(self):
        return 0x56


def mkdict(*pairs):
    """A dict display; a pair is (key, value) or (None, mapping) for **."""
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


# -- builtins -------------------------------------------------------------------
@model(dict)
def m_dict(*a, **k):
    return SDict(*a, **k)


@model(collections.defaultdict)
def m_defaultdict(*a, **k):
    return SDefault(*a, **k)


@model(collections.OrderedDict)
def m_ordereddict(*a, **k):
    return SOrdered(*a, **k)


@model(collections.Counter)
def m_counter(*a, **k):
    return SCounter(*a, **k)


BASES[set] = SSet


@model(set)
def m_set(*a):
    return SSet(*a)


@model(frozenset)
def m_frozenset(*a):
    it = list(a[0]) if a else []
    if any(has_sym(x) for x in it):
        return SFrozen(it)
    return frozenset(it)


@model(str)
def m_str(*a, **k):
    if not a:
        return str(**k) if not anysym((), k) else mcall(k['object'], 'decode', k.get('encoding', 'utf-8'), k.get('errors', 'strict'))
    x = a[0]
    if len(a) > 1 or k:
        if type(x) is SymBytes:
            enc = a[1] if len(a) > 1 else k.get('encoding', 'utf-8')
            err = a[2] if len(a) > 2 else k.get('errors', 'strict')
            return decode(x, enc, err)
        if type(x) is bytes and anysym(a, k):
            return decode(lift(x), a[1] if len(a) > 1 else k.get('encoding', 'utf-8'),
                          a[2] if len(a) > 2 else k.get('errors', 'strict'))
        if anysym(a, k):
            return native(str, a, k)
        return str(*a, **k)
    return to_str(x)


@model(repr)
def m_repr(x):
    return to_repr(x)


@model(ascii)
def m_ascii(x):
    return native(ascii, (x,), {})


@model(bytes)
def m_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    if type(x) is SymBytes:
        return x
    if type(x) is SymStr:
        enc = a[1] if len(a) > 1 else k['encoding'] if 'encoding' in k else _no_enc()
        err = a[2] if len(a) > 2 else k.get('errors', 'strict')
        return encode(x, enc, err)
    if isinstance(x, SymBuf):
        return x.getvalue()
    if isinstance(x, int) and is_sym(x):
        return bytes(concretize(x))
    if isinstance(x, (str, bytes, bytearray, int, memoryview)) or k or len(a) > 1:
        return bytes(*a, **k)
    if hasattr(x, '__bytes__'):
        return x.__bytes__()
    items = list(x)
    if any(is_sym(i) for i in items):
        out = []
        for i in items:
            if bool(i < 0) or bool(i > 255):
                raise ValueError('bytes must be in range(0, 256)')
            out.append(int_to_byte(i))
        return mk(True, out)
    return bytes(items)


def _no_enc():
    raise TypeError('string argument without an encoding')


class SymBuf(object):
    """bytearray"""

    def __init__(self, cs=()):
        self.cs = list(cs)

    def getvalue(self):
        return mk(True, self.cs)

    def append(self, x):
        self.cs.append(int_to_char(x))

    def extend(self, x):
        self.cs.extend(chars_of(x, True) if isinstance(x, (bytes, SymBuf)) else [int_to_char(i) for i in x])

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __len__(self):
        return len(self.cs)

    def __getattr__(self, n):
        v = self.getvalue()
        return lambda *a, **k: mcall(v, n, *a, **k)

    def __getitem__(self, i):
        return self.getvalue()[i]

    def __iter__(self):
        return iter(self.getvalue())

    def __eq__(self, o):
        return self.getvalue() == o

    def __add__(self, o):
        return SymBuf(self.cs + chars_of(o, True))


@model(bytearray)
def m_bytearray(*a, **k):
    if a and isinstance(a[0], str):
        return SymBuf(chars_of(m_bytes(*a, **k), True))
    if a and is_sym(a[0]) and isinstance(a[0], bytes):
        return SymBuf(a[0].cs)
    if a and isinstance(a[0], bytes):
        return SymBuf(list(a[0]))
    if not a:
        return SymBuf()
    return bytearray(*a, **k)


@model(int)
def m_int(*a, **k):
    if len(a) == 1 and not k and isinstance(getattr(type(a[0]), '__int__', None), types.FunctionType) and not is_sym(a[0]):
        return a[0].__int__()
    if not a or not is_sym(a[0]):
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymBool:
        return x.as_int()
    if isinstance(x, int):
        return x
    if t in (SymStr, SymBytes):
        base = a[1] if len(a) > 1 else k.get('base', 10)
        return parse_int(x, concretize(base))
    if t is SymFP:
        return int(fp_concretize(x))
    if t is SymReal:
        from .values import p_const
        c = p_const(x.n)
        raise Inconclusive('int of a symbolic real')
    raise Inconclusive('int')


def parse_int(x, base):
    e = eng()
    s = x.strip()
    cs = list(chars_of(s, type(x).B))
    neg = False
    bad = lambda: ValueError('invalid literal for int() with base %d' % base)
    if base not in (10, 16, 8, 2):
        return int(native_text(x), base)
    if cs and e.branch(ch_pred(cs[0], ('in', frozenset(b'+-')), frozenset(b'+-').__contains__)):
        neg = e.branch(ch_eq(cs[0], 45))
        cs = cs[1:]
    if base == 16 and len(cs) >= 2 and e.branch(ch_eq(cs[0], 48)) and \
            e.branch(ch_pred(cs[1], ('in', frozenset(b'xX')), frozenset(b'xX').__contains__)):
        cs = cs[2:]
    if not cs:
        raise bad()
    total = 0
    digit_ok = lambda v: v < 0x110000 and digit_val(v, base) is not None
    prev_us = True
    for n, c in enumerate(cs):
        if e.branch(ch_pred(c, ('digit', base), digit_ok)):
            total = total * base + char_to_int(ch_map(c, ('dval', base), lambda v: digit_val(v, base) or 0))
            prev_us = False
        elif not prev_us and n < len(cs) - 1 and e.branch(ch_eq(c, 95)):
            prev_us = True
        else:
            raise bad()
    return -total if neg else total


def digit_val(v, base):
    ch = chr(v)
    if ch.isdecimal():
        import unicodedata
        d = unicodedata.decimal(ch)
    elif ch.isascii() and ch.isalpha():
        d = ord(ch.lower()) - 87
    else:
        return None
    return d if d < base else None


@model(float)
def m_float(*a):
    if not a or not is_sym(a[0]):
        return float(*a)
    x = a[0]
    if type(x) in (SymReal, SymFP):
        return x
    if isinstance(x, (int, bool)):
        return to_real(x)
    return float(native_text(x))


@model(bool)
def m_bool(*a):
    return bool(*a)


@model(ord)
def m_ord(c):
    if type(c) in (SymStr, SymBytes):
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return char_to_int(c.cs[0])
    return ord(c)


@model(chr)
def m_chr(n):
    if is_sym(n):
        if bool(n < 0) or bool(n >= 0x110000):
            raise ValueError('chr() arg not in range(0x110000)')
        return mk(False, [int_to_char(n)])
    return chr(n)


@model(type)
def m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in SYM:
            return a[0].__class__
        if t in DICTS:
            return next(k for k, v in BASES.items() if v is t)
        if t is SSet:
            return set
        return t
    return type(*a)


@model(map)
def m_map(f, *its):
    return map(lambda *x: call(f, *x), *its)


@model(filter)
def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda x: call(f, x), it)


class SHash(object):
    """A hash of symbolic bytes: as if there were no collisions."""
    def __init__(self, name, data=b''):
        self.name = name
        self.data = data

    def update(self, data):
        self.data = self.data + data

    def copy(self):
        return SHash(self.name, self.data)

    digest_size = property(lambda self: hashlib.new(self.name).digest_size)
    block_size = property(lambda self: hashlib.new(self.name).block_size)

    def _hash(self):
        known = eng().caches.setdefault(('hash', self.name), [])
        for data, h in known:
            if type(data) in SYM or type(self.data) in SYM:
                if bool(data == self.data):
                    return h
        h = hashlib.new(self.name, self.data if type(self.data) not in SYM else b'sx-%d' % len(known))
        known.append((self.data, h))
        return h

    def digest(self):
        return self._hash().digest()

    def hexdigest(self):
        return self._hash().hexdigest()


def m_hash(name, native):
    def m(data=b'', **k):
        if type(data) is SymStr:
            raise TypeError('Strings must be encoded before hashing')
        data = k.pop('string', data)
        if not eng().active or type(data) not in SYM and not isinstance(data, bytes):
            return native(data, **k)
        return SHash(name, data)
    return m


for _n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha3_256', 'blake2b', 'blake2s'):
    _f = getattr(hashlib, _n)
    MODELS[id(_f)] = (_f, m_hash(_n, _f))


@model(hashlib.new)
def m_hashlib_new(name, *a, **k):
    f = getattr(hashlib, name, None)
    if f is not None and id(f) in MODELS:
        return call(f, *a, **k)
    return native(hashlib.new, (name,) + a, k)


@model(functools.reduce)
def m_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


@model(format)
def m_format(v, spec=''):
    return fmt_value(v, None, spec)


@model(hash)
def m_hash(x):
    return hash(x)


@model(sum)
def m_sum(it, *a, **k):
    start = a[0] if a else k.get('start', 0)
    for x in it:
        start = start + x
    return start


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
    if key is not None:
        return sorted(it, key=lambda x: call(key, x), reverse=reverse)
    return sorted(it, reverse=reverse)


@model(min)
def m_min(*a, **k):
    if 'key' in k:
        key = k['key']
        k = dict(k, key=lambda x: call(key, x))
    return min(*a, **k)


@model(max)
def m_max(*a, **k):
    if 'key' in k:
        key = k['key']
        k = dict(k, key=lambda x: call(key, x))
    return max(*a, **k)


@model(isinstance)
def m_isinstance(x, t):
    return isinstance(x, t)


@model(divmod)
def m_divmod(a, b):
    return divmod(a, b) if not (is_sym(a) or is_sym(b)) else (a // b, a % b)


# -- math -------------------------------------------------------------------------
def numeric(f, m):
    def g(x, *a):
        if type(x) is SymFP:
            return f(fp_concretize(x), *a)
        if is_sym(x):
            return m(x, *a)
        return f(x, *a)
    MODELS[id(f)] = (f, g)


def m_log(x, *a):
    r = r_log(x)
    if a:
        return r / math.log(a[0])
    return r


numeric(math.log, m_log)
numeric(math.exp, r_exp)
numeric(math.frexp, r_frexp)


@model(math.isnan)
def m_isnan(x):
    if type(x) is SymFP:
        from .values import zbool
        return zbool(z3.simplify(z3.fpIsNaN(x.e)))
    return False if is_sym(x) else math.isnan(x)


@model(math.ldexp)
def m_ldexp(x, n):
    if is_sym(x) or is_sym(n):
        n = concretize(n)
        from fractions import Fraction
        return to_real(x) * (Fraction(2) ** n)
    return math.ldexp(x, n)


@model(math.log2)
def m_log2(x):
    return m_log(x, 2) if is_sym(x) else math.log2(x)


@model(math.log10)
def m_log10(x):
    return m_log(x, 10) if is_sym(x) else math.log10(x)


@model(math.fsum)
def m_fsum(it):
    it = list(it)
    if any(is_sym(x) for x in it):
        return m_sum(it, 0.0)
    return math.fsum(it)


@model(math.prod)
def m_prod(it, *, start=1):
    for x in it:
        start = start * x
    return start


# -- struct, binascii ------------------------------------------------------------
_sizes = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4,
          'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def _fields(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt[:1] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    out = []
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', fmt):
        n, c = m.groups()
        if c == 's':
            out.append((c, int(n or 1)))
        else:
            out.extend([(c, _sizes.get(c))] * int(n or 1))
    return order, out


@model(struct.pack)
def m_pack(fmt, *vals):
    if not anysym(vals, {}):
        return struct.pack(fmt, *vals)
    order, fields = _fields(fmt)
    if order == '@':
        raise Inconclusive('native struct layout')
    cs = []
    vals = list(vals)
    for c, n in fields:
        if c == 'x':
            cs.append(0)
            continue
        v = vals.pop(0)
        if c == 's':
            x = chars_of(v, True)[:n]
            cs.extend(x + [0] * (n - len(x)))
            continue
        if not is_sym(v):
            cs.extend(struct.pack(order + c, v))
            continue
        if c in 'bhilq':
            v = concretize(v)
            cs.extend(struct.pack(order + c, v))
            continue
        if n is None or c not in 'BHILQ':
            raise Inconclusive('struct ' + c)
        if bool(v < 0) or bool(v >= 256 ** n):
            raise struct.error('argument out of range')
        x = int_to_chars(v, n)
        cs.extend(x[::-1] if order in '>!' else x)
    if vals:
        raise struct.error('too many items for pack')
    return mk(True, cs)


@model(struct.unpack)
def m_unpack(fmt, buf):
    if not is_sym(buf):
        return struct.unpack(fmt, buf)
    order, fields = _fields(fmt)
    if order == '@':
        raise Inconclusive('native struct layout')
    if len(buf) != sum(n for _, n in fields):
        raise struct.error('unpack requires a buffer of %d bytes' % sum(n for _, n in fields))
    out = []
    pos = 0
    for c, n in fields:
        x = buf.cs[pos:pos + n]
        pos += n
        if c == 'x':
            continue
        if c == 's':
            out.append(mk(True, x))
        elif all(type(norm(y)) is int for y in x):
            out.append(struct.unpack(order + c, bytes(norm(y) for y in x))[0])
        elif c in 'BHILQ':
            out.append(chars_to_int(x[::-1] if order in '>!' else x))
        else:
            raise Inconclusive('struct ' + c)
    return tuple(out)


@model(struct.unpack_from)
def m_unpack_from(fmt, buf, offset=0):
    n = struct.calcsize(fmt)
    return m_unpack(fmt, buf[offset:offset + n])


def int_from_bytes(b, byteorder='big', *, signed=False):
    if is_sym(b) and not signed:
        cs = list(b.cs)
        return chars_to_int(cs if byteorder == 'little' else cs[::-1])
    if not isinstance(b, (bytes, bytearray, memoryview)):
        b = list(b)
        if anysym(b, {}):
            return int_from_bytes(m_bytes(b), byteorder, signed=signed)
    return int.from_bytes(b, byteorder, signed=signed)


@model(operator_itemgetter := __import__('operator').itemgetter)
def m_itemgetter(*a):
    return __import__('operator').itemgetter(*a)


# -- binascii: base64 ---------------------------------------------------------------
_B64 = {c: i for i, c in enumerate(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')}


def _strict_excess():
    try:
        binascii.a2b_base64(b'AAAA=', strict_mode=True)
    except binascii.Error:
        return True
    return False


_STRICT_EXCESS = _strict_excess()


@model(binascii.a2b_base64)
def m_a2b_base64(data, *, strict_mode=False):
    if not is_sym(data):
        return binascii.a2b_base64(data, strict_mode=strict_mode)
    e = eng()
    if type(data) is SymStr:
        for c in data.cs:
            if not e.branch(ch_pred(c, 'ascii', lambda v: v < 128)):
                raise ValueError('string argument should contain only ASCII characters')
    from .values import char_to_int
    bits = []       # 6 bit z3 values
    quad = 0
    pads = 0
    left = None
    out = []
    valid = frozenset(_B64)
    cs = data.cs
    i = 0
    n = len(cs)
    padded = False
    while i < n:
        if quad == 0 and type(cs[i]) is EChar and not padded:
            k = _group(cs, i, () if strict_mode else _NOT_B64)
            if k:
                out.extend(cs[i].src)
                quad = (len(cs[i].src) + 1) & 3
                left = 0
                i = k
                continue
        c = norm(cs[i])
        i += 1
        if e.branch(ch_eq(c, 61)):
            padded = True
            if strict_mode and (i == 1 or quad == 0 and _STRICT_EXCESS):
                raise binascii.Error('Excess padding not allowed')
            pads += 1
            if quad >= 2 and quad + pads >= 4:
                # a pad sequence means we should not parse more input
                if strict_mode and i < n:
                    raise binascii.Error('Excess data after padding')
                return mk(True, out)
            continue
        if not e.branch(ch_pred(c, ('in', valid), valid.__contains__)):
            if strict_mode:
                raise binascii.Error('Only base64 data is allowed')
            continue
        if strict_mode and padded:
            raise binascii.Error('Discontinuous padding not allowed')
        pads = 0
        v = _six(c)
        if quad == 0:
            left = v
        elif quad == 1:
            out.append(_bits(left, 2, v, 4))
            left = v
        elif quad == 2:
            out.append(_bits(left, 4, v, 2))
            left = v
        else:
            out.append(_bits(left, 6, v, 0))
        quad = (quad + 1) & 3
    if quad != 0:
        if quad == 1:
            raise binascii.Error('Invalid base64-encoded string: number of data characters cannot be 1 more than a multiple of 4')
        raise binascii.Error('Incorrect padding')
    return mk(True, out)


_NOT_B64 = frozenset(range(256)) - frozenset(_B64) - {61}


def _group(cs, i, skip):
    """The characters from the ith on are the code of some bytes: where the
    significant ones of it end, else None."""
    src = cs[i].src
    for pos in range(len(src) + 1):
        while i < len(cs) and cs[i] in skip:
            i += 1
        if i == len(cs) or type(cs[i]) is not EChar or cs[i].src is not src or cs[i].pos != pos:
            return None
        i += 1
    return i


def _encode_group(src, alphabet):
    """The characters that stand for one to three bytes.  alphabet: the
    character of every 6 bit value."""
    k = len(src)
    bits = z3.Concat(*[z3.BitVecVal(c, 8) if type(c) is int else c.bv(8) for c in list(src) + [0, 0][:3 - k]])
    out = []
    src = tuple(src)
    for pos in range(k + 1):
        six = z3.simplify(z3.Extract(23 - 6 * pos, 18 - 6 * pos, bits))
        # (the bits known to be zero or determined)
        may = [v for v in range(64)]
        if z3.is_bv_value(six):
            may = [six.as_long()]
        elif pos == k:
            may = [v for v in may if not v & (15 if k == 1 else 3 if k == 2 else 0)]
        x = z3.BitVecVal(alphabet[may[-1]], 8)
        for v in may[:-1]:
            x = z3.If(six == v, z3.BitVecVal(alphabet[v], 8), x)
        vals = 0
        for v in may:
            vals |= 1 << alphabet[v]
        out.append(EChar(x, vals, src, pos))
    return out


@model(binascii.b2a_base64)
def m_b2a_base64(data, *, newline=True):
    if type(data) is not SymBytes:
        return binascii.b2a_base64(data, newline=newline)
    alphabet = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    cs = [norm(c) for c in data.cs]
    out = []
    for i in range(0, len(cs), 3):
        src = cs[i:i + 3]
        if all(type(c) is int for c in src):
            out.extend(binascii.b2a_base64(bytes(src), newline=False))
        else:
            out.extend(_encode_group(src, alphabet))
            out.extend(b'=' * (3 - len(src)))
    if newline:
        out.append(10)
    return mk(True, out)


@model(binascii.b2a_uu)
def m_b2a_uu(data, *, backtick=False):
    if type(data) is not SymBytes:
        return binascii.b2a_uu(data, backtick=backtick)
    if len(data.cs) > 45:
        raise binascii.Error('At most 45 bytes at once')
    zero = 96 if backtick else 32
    alphabet = [zero] + list(range(33, 96))
    cs = [norm(c) for c in data.cs]
    out = [32 + len(cs)]
    for i in range(0, len(cs), 3):
        src = cs[i:i + 3]
        if all(type(c) is int for c in src):
            out.extend(binascii.b2a_uu(bytes(src), backtick=backtick)[1:-1])
        else:
            out.extend(_encode_group(src, alphabet))
            out.extend([zero] * (3 - len(src)))
    out.append(10)
    return mk(True, out)


def _six(c):
    if type(c) is int:
        return _B64[c]
    m = ch_map(c, 'b64', lambda v: _B64.get(v, 0))
    return m


def _bits(a, sh, b, shr):
    """byte = (a << sh | b >> shr) & 255"""
    from .values import BChar
    if type(a) is int and type(b) is int:
        return (a << sh | b >> shr) & 255
    za = z3.BitVecVal(a, 8) if type(a) is int else a.bv(8)
    zb = z3.BitVecVal(b, 8) if type(b) is int else b.bv(8)
    r = z3.simplify((za << sh) | z3.LShR(zb, shr))
    return r.as_long() if z3.is_bv_value(r) else BChar(r)


@model(unicodedata.normalize)
def m_normalize(form, s):
    if type(s) is not SymStr:
        return unicodedata.normalize(form, s)
    e = eng()
    cs = [norm(c) for c in s.cs]
    if any((c > 255 if type(c) is int else type(c) is not UChar or max(mk_values(c)) > 255) for c in cs):
        return unicodedata.normalize(form, native_text(s))
    if form in ('NFC', 'NFKC') or form in ('NFD', 'NFKD'):
        # (no two of the results of characters below U+0100 combine)
        out = []
        for c in cs:
            vals = [c] if type(c) is int else mk_values(c)
            changed = frozenset(v for v in vals if unicodedata.normalize(form, chr(v)) != chr(v))
            if not changed or type(c) is not int and not e.branch(ch_pred(c, ('in', changed), changed.__contains__)):
                out.append(c)
                continue
            left = sorted(changed)
            while len(left) > 1 and not e.branch(ch_eq(c, left[0])):
                del left[0]
            out.extend(map(ord, unicodedata.normalize(form, chr(left[0]))))
        return mk(False, out)
    return unicodedata.normalize(form, native_text(s))


@model(os.path.commonprefix)
def m_commonprefix(m):
    if not any(is_sym(x) for x in m):
        return os.path.commonprefix(m)
    m = [x if is_sym(x) else x.__fspath__() if hasattr(x, '__fspath__') else x for x in m]
    first = m[0]
    e = eng()
    n = 0
    cs = [chars_of(x, type(first) in (SymBytes, bytes)) for x in m]
    if any(c is None for c in cs):
        raise TypeError("Can't mix strings and bytes in path components")
    while all(len(c) > n for c in cs) and all(e.branch(ch_eq(norm(c[n]), norm(cs[0][n]))) for c in cs[1:]):
        n += 1
    return first[:n]


# -- re ---------------------------------------------------------------------------
def _re_fn(name):
    f = getattr(re, name)

    def g(pattern, *a, **k):
        flags = k.pop('flags', 0)
        if is_sym(pattern):
            pattern = native_text(pattern)
        a = list(a)
        nargs = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
        if len(a) > nargs:
            flags = a.pop()
        p = re.compile(pattern, flags)
        return regex.pattern_call(p, name, tuple(a), k)
    MODELS[id(f)] = (f, g)


for _n in ('search', 'match', 'fullmatch', 'finditer', 'findall', 'split', 'sub', 'subn'):
    _re_fn(_n)


@model(re.compile)
def m_compile(pattern, flags=0):
    if is_sym(pattern):
        p = regex.sym_compile(pattern, flags) if type(pattern) is SymStr else None
        if p is not None:
            return p
        pattern = native_text(pattern)
    return re.compile(pattern, flags)


@model(re.escape)
def m_escape(s):
    if not is_sym(s):
        return re.escape(s)
    out = []
    for c in s.cs:
        special = frozenset(i for i in range(256) if len(re.escape(chr(i))) == 2)
        if eng().branch(ch_pred(c, ('in', special), special.__contains__)):
            out.append(92)
        out.append(c)
    return mk(s.B, out)


# -- io ---------------------------------------------------------------------------
class SymIO(object):
    """StringIO / BytesIO over possibly symbolic text."""

    def __init__(self, is_bytes, initial=None, newline='\n'):
        self.B = is_bytes
        self.newline = newline
        self.cs = []
        self.pos = 0
        self.closed = False
        if initial is not None:
            self.write(initial)
            self.pos = 0

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def write(self, s):
        self._check()
        cs = chars_of(s, self.B)
        if cs is None:
            if isinstance(s, SymBuf):
                cs = s.cs
            else:
                raise TypeError('a %s is required' % ('bytes-like object' if self.B else 'str'))
        if not self.B and self.newline is None:
            s = mcall(mcall(s, 'replace', '\r\n', '\n'), 'replace', '\r', '\n')
            cs = chars_of(s, False)
        if self.pos > len(self.cs):
            self.cs.extend([0] * (self.pos - len(self.cs)))
        self.cs[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        return len(cs)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        return mk(self.B, self.cs)

    def getbuffer(self):
        return self.getvalue()

    def read(self, n=-1):
        self._check()
        n = -1 if n is None else concretize(n)
        r = self.cs[self.pos:] if n < 0 else self.cs[self.pos:self.pos + n]
        self.pos = max(self.pos, 0) + len(r)
        return mk(self.B, r)

    def readline(self, n=-1):
        self._check()
        e = eng()
        i = self.pos
        cs = self.cs
        universal = not self.B and self.newline in ('', None)
        while i < len(cs):
            c = cs[i]
            i += 1
            if e.branch(ch_eq(c, 10)):
                break
            if universal and e.branch(ch_eq(c, 13)):
                if i < len(cs) and e.branch(ch_eq(cs[i], 10)):
                    i += 1
                break
        r = cs[self.pos:i]
        self.pos = i
        return mk(self.B, r)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            x = self.readline()
            if not len(x):
                return
            yield x

    def __next__(self):
        x = self.readline()
        if not len(x):
            raise StopIteration
        return x

    def seek(self, pos, whence=0):
        pos = concretize(pos)
        self.pos = pos if whence == 0 else (self.pos if whence == 1 else len(self.cs)) + pos
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else concretize(size)
        del self.cs[size:]
        return size

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def readable(self):
        return True

    writable = seekable = readable

    def isatty(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@model(io.StringIO)
def m_stringio(initial_value='', newline='\n'):
    return SymIO(False, initial_value, newline)


@model(io.BytesIO)
def m_bytesio(initial_bytes=b''):
    return SymIO(True, initial_bytes)


@model(io.TextIOWrapper)
def m_textiowrapper(buf, encoding=None, errors=None, *a, **k):
    if isinstance(buf, SymIO):
        return SymIO(False, mcall(buf.read(), 'decode', encoding or 'utf-8', errors or 'strict'), newline=None)
    return io.TextIOWrapper(buf, encoding, errors, *a, **k)


@model(__import__('os').fspath)
def m_fspath(p):
    if type(p) in (SymStr, SymBytes):
        return p
    f = getattr(type(p), '__fspath__', None)
    if isinstance(f, types.FunctionType):
        return f(p)
    return os.fspath(p)


# -- quoted-printable and uuencode ------------------------------------------------
_HEX = frozenset(b'0123456789abcdefABCDEF')


@model(binascii.a2b_qp)
def m_a2b_qp(data, header=False):
    if not is_sym(data):
        return binascii.a2b_qp(data, header=header)
    e = eng()

    def is_(c, v):
        return e.branch(ch_eq(c, v))

    def is_hex(c):
        return e.branch(ch_pred(c, ('in', _HEX), _HEX.__contains__))

    def digit(c):
        return int(chr(c), 16) if type(c) is int else ch_map(c, 'hexdigit', lambda v: int(chr(v), 16) if v in _HEX else 0)
    cs = [norm(c) for c in data.cs]
    if type(data) is SymStr:
        for c in cs:
            if not e.branch(ch_pred(c, 'ascii', lambda v: v < 128)):
                raise ValueError('string argument should contain only ASCII characters')
    n = len(cs)
    i = 0
    out = []
    while i < n:
        c = cs[i]
        if is_(c, 61):
            i += 1
            if i >= n:
                break
            if is_(cs[i], 10):
                i += 1
            elif is_(cs[i], 13):
                while i < n and not is_(cs[i], 10):
                    i += 1
                i += 1
            elif is_(cs[i], 61):
                out.append(61)
                i += 1
            elif i + 1 < n and is_hex(cs[i]) and is_hex(cs[i + 1]):
                out.append(_bits(digit(cs[i]), 4, digit(cs[i + 1]), 0))
                i += 2
            else:
                out.append(61)
        elif header and is_(c, 95):
            out.append(32)
            i += 1
        else:
            out.append(c)
            i += 1
    return mk(True, out)


@model(binascii.a2b_uu)
def m_a2b_uu(data):
    if not is_sym(data) or not len(data.cs):
        return binascii.a2b_uu(data if not is_sym(data) else b'')
    e = eng()
    cs = [norm(c) for c in data.cs]
    if type(data) is SymStr:
        for c in cs:
            if not e.branch(ch_pred(c, 'ascii', lambda v: v < 128)):
                raise ValueError('string argument should contain only ASCII characters')
    if type(cs[0]) is int:
        length = (cs[0] - 32) & 63
    else:
        length = 63
        for v in range(63):
            sel = frozenset(x for x in range(256) if (x - 32) & 63 == v)
            if e.branch(ch_pred(cs[0], ('in', sel), sel.__contains__)):
                length = v
                break
    out = []
    left = 0        # a 6 bit value
    bits = 0
    i = 1
    n = len(cs)
    legal = frozenset(range(32, 97))
    blank = frozenset(b'\r\n')
    while len(out) < length:
        c = cs[i] if i < n else 10
        if bits == 0 and type(c) is EChar and len(out) + len(c.src) <= length:
            k = _group(cs, i, ())
            if k and (len(c.src) == 3 or len(out) + len(c.src) == length):
                out.extend(c.src)
                i = k
                continue
        i += 1
        if e.branch(ch_pred(c, ('in', blank), blank.__contains__)):
            v = 0
        elif not e.branch(ch_pred(c, ('in', legal), legal.__contains__)):
            raise binascii.Error('Illegal char')
        elif type(c) is int:
            v = (c - 32) & 63
        else:
            v = ch_map(c, 'uudigit', lambda v: (v - 32) & 63)
        if bits == 0:
            left = v
            bits = 6
        else:
            # 6 + bits >= 8 for bits = 2, 4, 6
            bits -= 2
            out.append(_bits(left, 6 - bits, v, bits))
            left = v
    junk = frozenset(b' `\r\n')
    while i < n:
        if not e.branch(ch_pred(cs[i], ('in', junk), junk.__contains__)):
            raise binascii.Error('Trailing garbage')
        i += 1
    return mk(True, out)
