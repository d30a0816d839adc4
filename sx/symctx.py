"""The symbolic context."""
import math
import random

import z3

from . import core, models, values
from .core import (Inconclusive, Infeasible, Stop, c_and, c_formula, c_not, c_or,
                   mask_of)
from .harness import Base, plain
from .values import (SYM, SymBool, SymBytes, SymFP, SymInt, SymReal, SymStr, UChar,
                     UInt, SymBV, BChar, IDENT, Table, mk, mkbool, mkuint, to_cond,
                     is_sym, eng, real_cmp, to_real)


class SymCtx(Base):

    symbolic = True

    def __init__(self, e, max_candidates=3):
        Base.__init__(self)
        self.e = e
        self.inputs = []
        self.candidates = []
        self.nchecks = 0
        self.scratch_n = 0
        self.unknown = 0
        self.made = {}

    def memo(fn):
        """The same input again if the name is used again."""
        def get(self, name, *a, **k):
            if name not in self.made:
                self.made[name] = fn(self, name, *a, **k)
            return self.made[name]
        return get

    @memo
    def int(self, name, lo, hi):
        z = z3.Int(name)
        self.e.ints[name] = (lo, hi)
        self.inputs.append((name, 'int', z))
        n = SymInt(z, lo, hi)
        self.e.assume(('z', z3.And(z >= lo, z <= hi)))
        return n

    @memo
    def real(self, name, lo, hi):
        r = values.new_real(name, lo, hi)
        self.inputs.append((name, 'real', z3.Real(name)))
        self.e.assume(('z', z3.And(z3.Real(name) >= str(values.Fraction(lo)), z3.Real(name) <= str(values.Fraction(hi)))))
        return r

    @memo
    def small(self, name, lo, hi):
        """An integer with few values."""
        assert hi - lo < 256
        m = (1 << (hi - lo + 1)) - 1
        v = self.e.var(name, m)
        t = Table([lo + min(i, hi - lo) for i in range(256)])
        self.inputs.append((name, 'tab', (v, t)))
        return mkuint(v, t)

    def pick(self, name, n):
        """A concrete index, one path for each."""
        if n == 1:
            return 0
        return values.concretize(self.small(name, 0, n - 1))

    @memo
    def float(self, name):
        z = z3.FP(name, z3.Float64())
        self.inputs.append((name, 'fp', z))
        return SymFP(z)

    @memo
    def _text(self, name, n, alphabet, is_bytes):
        cs = []
        vs = []
        if alphabet is None:
            t, m = IDENT, core.FULL
        else:
            pts = [c if isinstance(c, int) else ord(c) for c in alphabet]
            if is_bytes or max(pts) < 256:
                t, m = IDENT, 0
                for c in pts:
                    m |= 1 << c
            else:
                pts = sorted(set(pts))
                assert len(pts) <= 256
                m = (1 << len(pts)) - 1
                t = Table([pts[min(i, len(pts) - 1)] for i in range(256)])
        for i in range(n):
            v = self.e.var('%s[%d]' % (name, i), m)
            vs.append(v)
            cs.append(UChar(v, t))
        self.inputs.append((name, 'text', (vs, t)))
        return mk(is_bytes, cs)

    def bytes(self, name, n, alphabet=None):
        return self._text(name, n, alphabet, True)

    def str(self, name, n, alphabet=None):
        return self._text(name, n, alphabet, False)

    def assume(self, cond):
        self.e.assume(to_cond(cond))

    def check(self, cond, label, info=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        e = self.e
        c = to_cond(cond)
        e.stats['checks'] += 1
        pos = len(e.trace)
        replaying = pos < len(e.prefix)
        if c is not True and not replaying:
            # a prefix is replayed: the assertion was decided there
            r, m = e.query(c_not(c))
            if r == z3.sat:
                self.candidates.append((label, self.assignment(m), pos))
            elif r == z3.unknown:
                self.unknown += 1
                e.stats['check_unknown'] = e.stats.get('check_unknown', 0) + 1
        if c is False:
            self.failures.append((label, ''))
            raise Stop()
        if c is not True:
            e.assume(c)

    def observe(self, name, value):
        self.obs.append((name, value))

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def restart(self):
        """As if the process were new: the modules have their first state."""
        from . import state
        state.restore()

    def scratch(self):
        from . import fs
        self.scratch_n += 1
        fs.S.root.entries[str(self.scratch_n)] = fs.Dir()
        return '/sxvfs/%d' % self.scratch_n

    def all(self, conds):
        return mkbool(c_and([to_cond(c) for c in conds]))

    def any(self, conds):
        return mkbool(c_or([to_cond(c) for c in conds]))

    def implies(self, a, b):
        return mkbool(c_or([c_not(to_cond(a)), to_cond(b)]))

    def close(self, a, b, tol=None):
        return a == b

    def ge(self, a, b, tol=None):
        return a >= b

    def near_boundary(self, a, b, tol=None):
        return False

    # -- models --------------------------------------------------------------
    def assignment(self, model, rng=None):
        e = self.e
        rng = rng or random.Random(e.seed)
        idx = e.full_model(model, rng)
        out = {}
        for name, kind, p in self.inputs:
            if kind == 'int':
                out[name] = model.eval(p, model_completion=True).as_long()
            elif kind == 'real':
                out[name] = values.real_value(model.eval(p, model_completion=True))
            elif kind == 'fp':
                v = values.fp_value(model.eval(p, model_completion=True))
                out[name] = v if v == v and abs(v) != math.inf else str(v)
            elif kind == 'tab':
                out[name] = p[1].vals[idx[p[0].name]]
            else:
                vs, t = p
                out[name] = [t.vals[idx[v.name]] for v in vs]
        self.last_idx = idx
        return out

    def value(self, v, model, idx):
        """The concrete value of v under a model."""
        t = type(v)
        if t in (SymStr, SymBytes):
            cs = [self.char(c, model, idx) for c in v.cs]
            return bytes(c & 255 for c in cs) if v.B else ''.join(map(chr, cs))
        if t is SymBool:
            return all(self.cond(c, model, idx) for c in v.cs)
        if t is UInt:
            return v.table.vals[idx[v.var.name]]
        if t in (SymInt, SymBV):
            return self.zval(v.e, model, idx)
        if t is SymReal:
            return self.real_value(v, model, idx)
        if t is SymFP:
            return values.fp_value(model.eval(v.e, model_completion=True))
        if isinstance(v, models.SymBuf):
            return self.value(v.getvalue(), model, idx)
        if isinstance(v, dict):
            return {self.key(k, model, idx): self.value(x, model, idx) for k, x in v.items()}
        if isinstance(v, (set, frozenset)):
            return {self.key(x, model, idx) for x in v}
        if isinstance(v, tuple):
            return tuple(self.value(x, model, idx) for x in v)
        if isinstance(v, list):
            return [self.value(x, model, idx) for x in v]
        return v

    key = value

    def zval(self, z, model, idx):
        sub = [(self.e.vars[n].z, z3.BitVecVal(i, 8)) for n, i in idx.items() if n in core.z_vars(z)]
        z = z3.substitute(z, *sub) if sub else z
        return model.eval(z, model_completion=True).as_long()

    def char(self, c, model, idx):
        if type(c) is int:
            return c
        if type(c) is UChar:
            return c.table.vals[idx[c.var.name]]
        return self.zval(c.e, model, idx)

    def cond(self, c, model, idx):
        if c is True or c is False:
            return c
        if c[0] == 'u':
            return bool((c[2] >> idx[c[1].name]) & 1)
        sub = [(self.e.vars[n].z, z3.BitVecVal(i, 8)) for n, i in idx.items() if n in core.z_vars(c[1])]
        f = z3.substitute(c[1], *sub) if sub else c[1]
        return z3.is_true(model.eval(f, model_completion=True))

    def real_value(self, v, model, idx):
        e = self.e

        def atom(name):
            a = e.atoms[name]
            if a.kind == 'int':
                return self.zval(a.arg, model, idx)
            if a.kind == 'real':
                return values.real_value(model.eval(a.z, model_completion=True))
            if a.kind in ('log', 'exp'):
                x = self.real_value(a.arg, model, idx)
                return math.log(x) if a.kind == 'log' else math.exp(x)
            raise Inconclusive('value of an atom')

        def poly(p):
            s = 0.0
            for m, c in p.items():
                t = float(c)
                for a, k in m:
                    t *= float(atom(a)) ** k
                s += t
            return s
        if not isinstance(v, SymReal):
            return float(v)
        return poly(v.n) / poly(v.d)
