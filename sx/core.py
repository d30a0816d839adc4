"""Path exploration: symbolic execution by re-execution, deciding with z3.

A run of a scenario is a sequence of *events*: a branch on a condition that
depends on symbolic inputs, or an assumption.  A path is given by the outcome
of its events.  The explorer runs the scenario again and again, each time with
a prefix of outcomes that selects a path not seen yet, until no path is left.

Conditions come in two forms:

  * unary conditions over one character variable: a 256 bit mask of the
    values that make it true.  The explorer keeps, for every character
    variable, the mask of values that the path still allows (its domain).
  * z3 formulas.  They are pushed on an incremental z3 solver; every query
    also asserts the domains of the character variables they involve.

Every property assertion and the path condition of every finished path is a
z3 query.
"""
import time
import z3

z3.set_param('model.compact', False)


class Control(BaseException):
    """Exceptions that steer the exploration; the code under test must not
    swallow them."""


class Infeasible(Control):
    pass


class Stop(Control):
    """The path is finished early (by the harness)."""


class Inconclusive(Control):
    """The path cannot be continued (unmodelled operation, limits)."""


FULL = (1 << 256) - 1


def mask_of(pred):
    m = 0
    for i in range(256):
        if pred(i):
            m |= 1 << i
    return m


def mask_values(m):
    out = []
    i = 0
    while m:
        if m & 1:
            out.append(i)
        m >>= 1
        i += 1
    return out


class Var(object):
    """A character variable: an 8 bit index."""
    __slots__ = ('name', 'z', 'idx')

    def __init__(self, name, idx):
        self.name = name
        self.idx = idx
        self.z = z3.BitVec(name, 8)


_range_cache = {}


def ranges(mask):
    out = []
    i = 0
    while mask >> i:
        if not (mask >> i) & 1:
            i += 1
            continue
        j = i
        while (mask >> (j + 1)) & 1:
            j += 1
        out.append((i, j))
        i = j + 1
    return out


def mask_formula(var, mask):
    key = (var.name, mask)
    r = _range_cache.get(key)
    if r is None:
        if mask == FULL:
            r = z3.BoolVal(True)
        elif mask == 0:
            r = z3.BoolVal(False)
        else:
            parts = []
            for a, b in ranges(mask):
                if a == b:
                    parts.append(var.z == a)
                elif a == 0:
                    parts.append(z3.ULE(var.z, b))
                elif b == 255:
                    parts.append(z3.UGE(var.z, a))
                else:
                    parts.append(z3.And(z3.UGE(var.z, a), z3.ULE(var.z, b)))
            r = parts[0] if len(parts) == 1 else z3.Or(*parts)
        if len(_range_cache) > 50000:
            _range_cache.clear()
        _range_cache[key] = r
    return r


# Conditions.  A condition is True, False, ('u', var, mask) or ('z', formula).
def c_not(c):
    if c is True or c is False:
        return not c
    if c[0] == 'u':
        return ('u', c[1], FULL & ~c[2])
    return ('z', z3.Not(c[1]))


def c_formula(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    if c[0] == 'u':
        return mask_formula(c[1], c[2])
    return c[1]


def c_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if all(c[0] == 'u' and c[1] is out[0][1] for c in out):
        m = FULL
        for c in out:
            m &= c[2]
        return ('u', out[0][1], m)
    return ('z', z3.And(*[c_formula(c) for c in out]))


def c_or(cs):
    return c_not(c_and([c_not(c) for c in cs]))


_ZV = {}


def z_vars(f):
    """Names of the 8 bit variables in a formula."""
    cache = _ZV
    r = cache.get(f.get_id())
    if r is not None and r[0].eq(f):
        return r[1]
    if len(cache) > 200000:
        cache.clear()
    todo = [f]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in cache and cache[i][0].eq(x):
            todo.pop()
            continue
        kids = x.children()
        if not kids:
            names = frozenset()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names = frozenset([x.decl().name()])
        else:
            miss = [k for k in kids if k.get_id() not in cache or not cache[k.get_id()][0].eq(k)]
            if miss:
                todo.extend(miss)
                continue
            names = cache[kids[0].get_id()][1]
            for k in kids[1:]:
                n = cache[k.get_id()][1]
                if n is not names and not n <= names:
                    names = names | n
        cache[i] = (x, names)
        todo.pop()
    return cache[f.get_id()][1]


class Explorer(object):

    def __init__(self, timeout_ms=4000, seed=1, max_events=200000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.seed = seed
        self.max_events = max_events
        self.pending = []       # prefixes (tuples of outcomes) to explore
        self.stats = dict(paths=0, branches=0, forks=0, queries=0, sat=0,
                          unsat=0, unknown=0, solver_s=0.0, domain=0,
                          checks=0, infeasible=0, inconclusive=0,
                          relaxed_unsat=0)
        self.solver_trace = []  # outcomes whose scope is on the solver
        self.active = False

    # -- one path -----------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        k = 0
        n = min(len(self.solver_trace), len(prefix))
        while k < n and self.solver_trace[k] == prefix[k]:
            k += 1
        # Events beyond the common prefix leave the solver.
        while len(self.solver_trace) > k:
            self.solver.pop()
            self.solver_trace.pop()
        self.keep = k
        self.dom = {}
        self.vars = {}
        self.related = set()
        self.model = None       # {name: int} for related variables, plus z3 model
        self.known = {}
        self.inputs = []        # (name, kind, payload)
        self.names = {}
        self.nonlinear = False
        self.int_atoms = {}
        self.fresh_n = 0
        self.notes = []
        self.caches = {}        # of functions with a functools.lru_cache
        self.incomplete = []
        self.path_checks = []
        self.t0 = time.time()
        self.ints = {}
        self.active = True

    def var(self, name, mask=FULL):
        v = Var(name, len(self.vars))
        self.vars[name] = v
        self.dom[name] = mask
        return v

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    # -- solver ---------------------------------------------------------------
    def _scope(self, outcome, cond):
        """Records an event, pushing its condition on the solver."""
        i = len(self.trace)
        if i >= self.max_events:
            raise Inconclusive('too many events on one path')
        self.trace.append(outcome)
        if cond is not True and cond is not False and cond[0] == 'u':
            name = cond[1].name
            self.dom[name] &= cond[2]
            if self.model is not None and name in self.related and not self._model_ok(cond):
                self.model = None
            f = None
        else:
            f = cond if cond is True else c_formula(cond)
            if cond is not True:
                self.related |= (z_vars(f) & self.vars.keys())
                if self.model is not None and not self._model_ok(cond):
                    self.model = None
        if i < self.keep:
            return
        self.solver.push()
        self.solver_trace.append(outcome)
        if f is not None and f is not True:
            self.solver.add(f)

    def _model_ok(self, cond):
        """Does the cached model also satisfy `cond` (and the domains of the
        variables that `cond` would relate)?"""
        try:
            if cond[0] == 'u':
                val = self.model.eval(cond[1].z, model_completion=True).as_long()
                return bool((cond[2] >> val) & (self.dom[cond[1].name] >> val) & 1)
            for n in z_vars(cond[1]):
                if n in self.vars and n not in self.related:
                    val = self.model.eval(self.vars[n].z, model_completion=True).as_long()
                    if not (self.dom[n] >> val) & 1:
                        return False
            return z3.is_true(self.model.eval(cond[1], model_completion=True))
        except z3.Z3Exception:
            return False

    def query(self, cond=True, want_model=True, timeout=None):
        """Is the path condition and `cond` satisfiable?"""
        s = self.solver
        extra = []
        names = self.related
        if cond is not True:
            f = c_formula(cond)
            extra.append(f)
            names = names | (z_vars(f) & self.vars.keys())
        for n in names:
            if self.dom[n] != FULL:
                extra.append(mask_formula(self.vars[n], self.dom[n]))
        t = time.time()
        s.push()
        if extra:
            s.add(*extra)
        if timeout:
            s.set('timeout', timeout)
        r = s.check()
        model = None
        if r == z3.sat:
            model = s.model()
        s.pop()
        if timeout:
            s.set('timeout', self.timeout_ms)
        if r == z3.unknown:
            r, model = self._hard(extra, timeout or self.timeout_ms)
        st = self.stats
        st['queries'] += 1
        st['solver_s'] += time.time() - t
        if r == z3.sat:
            st['sat'] += 1
        elif r == z3.unsat:
            st['unsat'] += 1
        else:
            st['unknown'] += 1
        return r, model

    def _hard(self, extra, timeout):
        """Non-incremental attempts for (nonlinear) queries: integers relaxed
        to reals first (unsat carries over), then small integer values."""
        fs = list(self.solver.assertions()) + list(extra)
        ints = {}
        for f in fs:
            collect_ints(f, ints)
        sub = [(v, z3.Real('r!' + n)) for n, v in ints.items()]
        rs = z3.SolverFor('QF_NRA')
        rs.set('timeout', timeout)
        try:
            for f in fs:
                rs.add(relax(f, sub))
            r = rs.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            self.stats['relaxed_unsat'] += 1
            return r, None
        s2 = z3.Solver()
        s2.set('timeout', timeout)
        s2.add(*fs)
        if r == z3.sat:
            m = rs.model()
            # keep the relaxed values that are integers
            for v, rv in sub:
                val = m.eval(rv, model_completion=True)
                if z3.is_rational_value(val) and val.denominator_as_long() == 1:
                    s2.push()
                    s2.add(v == val.numerator_as_long())
            q = s2.check()
            if q == z3.sat:
                return q, s2.model()
            while s2.num_scopes():
                s2.pop()
        q = s2.check()
        if q == z3.sat:
            return q, s2.model()
        if q == z3.unsat:
            return q, None
        for bound in (3, 8):
            s3 = z3.Solver()
            s3.set('timeout', timeout)
            s3.add(*fs)
            for v, _ in sub:
                s3.add(v >= -bound, v <= bound)
            q = s3.check()
            if q == z3.sat:
                return q, s3.model()
        return z3.unknown, None

    def feasible(self, cond):
        """True, False or None (unknown)."""
        if cond is True:
            return True
        if cond is False:
            return False
        if cond[0] == 'u':
            name = cond[1].name
            d = self.dom[name] & cond[2]
            if not d:
                self.stats['domain'] += 1
                return False
            if d == self.dom[name]:
                return True
            if name not in self.related:
                self.stats['domain'] += 1
                return True
        if self.model is not None and self._model_ok(cond):
            return True
        r, m = self.query(cond)
        if r == z3.sat:
            self.model = m
            return True
        if r == z3.unsat:
            return False
        return None

    # -- events -----------------------------------------------------------------
    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        if cond[0] == 'u':
            d = self.dom[cond[1].name]
            if not d & cond[2]:
                return False
            if not d & ~cond[2]:
                return True
        else:
            k = cond[1].get_id()
            hit = self.known.get(k)
            if hit is not None and hit[0].eq(cond[1]):
                return hit[1]
            if z3.is_true(cond[1]):
                return True
            if z3.is_false(cond[1]):
                return False
        i = len(self.trace)
        self.stats['branches'] += 1
        if i < len(self.prefix):
            o = self.prefix[i]
            if o not in (0, 1, 2, 3):
                raise Inconclusive('nondeterministic replay (branch expected)')
            out = (o & 1) == 1
        else:
            # 0/1: both sides possible; 2/3: forced
            neg = c_not(cond)
            # Keep the cached model usable: remember it across both checks.
            m0 = self.model
            t = self.feasible(cond)
            mt = self.model
            if t is False:
                out, o = False, 2
                self.model = m0
            else:
                self.model = m0
                f = self.feasible(neg)
                if f is False:
                    out, o = True, 3
                    self.model = mt
                else:
                    out, o = True, 1
                    self.model = mt
                    self.stats['forks'] += 1
                    self.pending.append(tuple(self.trace) + (0,))
        c = cond if out else c_not(cond)
        if o in (2, 3) and c[0] == 'z':
            # Implied by the path: no need to burden the solver.
            self._scope(o, True)
        else:
            self._scope(o, c)
        if cond[0] == 'z':
            self.known[cond[1].get_id()] = (cond[1], out)
        return out

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        i = len(self.trace)
        if i < len(self.prefix):
            o = self.prefix[i]
            if o != 9:
                raise Inconclusive('nondeterministic replay (assume expected)')
            self._scope(9, cond)
            return
        f = self.feasible(cond)
        if f is False:
            raise Infeasible()
        self._scope(9, cond)

    def pick(self, value, cond_of, pin=False):
        """Branches on "the value is v" for a value v of some model.  The
        outcome carries v, so that the prefix alone determines the path.
        With `pin` the other values are not explored."""
        i = len(self.trace)
        if i < len(self.prefix):
            o = self.prefix[i]
            if type(o) is not tuple:
                raise Inconclusive('nondeterministic replay (value expected)')
        else:
            v = value()
            o = ('c', v)
            if not pin:
                m0 = self.model
                if self.feasible(c_not(cond_of(v))) is not False:
                    self.pending.append(tuple(self.trace) + (('n', v),))
                    self.stats['forks'] += 1
                self.model = m0
        self.stats['branches'] += 1
        c = cond_of(o[1])
        if o[0] == 'n':
            c = c_not(c)
        if c is False:
            raise Infeasible()
        self._scope(o, c)
        return o[1], o[0] == 'c'

    def pin(self, cond):
        """An assumption that gives up completeness (concretisation)."""
        self.assume(cond)

    # -- models ------------------------------------------------------------------
    def full_model(self, model, rng):
        """Values for all character variables and integers."""
        out = {}
        for n, v in self.vars.items():
            val = None
            if n in self.related:
                val = model.eval(v.z, model_completion=True).as_long()
            if val is None or not (self.dom[n] >> val) & 1:
                vals = mask_values(self.dom[n])
                val = vals[rng.randrange(len(vals))]
            out[n] = val
        return out


def collect_ints(f, out, seen=None):
    todo = [f]
    seen = set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort().kind() == z3.Z3_INT_SORT:
                out[x.decl().name()] = x
        else:
            todo.extend(x.children())
    return out


def relax(f, sub):
    """Replaces integer variables by real ones (sound for unsat)."""
    table = {v.get_id(): r for v, r in sub}
    cache = {}

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        k = x.decl().kind()
        if i in table:
            r = table[i]
        elif k == z3.Z3_OP_TO_REAL:
            r = go(x.arg(0))
        elif z3.is_int_value(x):
            r = z3.RealVal(x.as_long())
        elif x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if all(a is b or a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            elif k == z3.Z3_OP_ADD:
                r = ch[0]
                for c in ch[1:]:
                    r = r + c
            elif k == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]:
                    r = r * c
            elif k == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = r - c
            elif k == z3.Z3_OP_UMINUS:
                r = -ch[0]
            elif k == z3.Z3_OP_LE:
                r = ch[0] <= ch[1]
            elif k == z3.Z3_OP_LT:
                r = ch[0] < ch[1]
            elif k == z3.Z3_OP_GE:
                r = ch[0] >= ch[1]
            elif k == z3.Z3_OP_GT:
                r = ch[0] > ch[1]
            elif k == z3.Z3_OP_EQ:
                r = ch[0] == ch[1]
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*ch)
            elif k == z3.Z3_OP_NOT:
                r = z3.Not(ch[0])
            elif k == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            elif k == z3.Z3_OP_ITE:
                r = z3.If(ch[0], ch[1], ch[2])
            elif k == z3.Z3_OP_IMPLIES:
                r = z3.Implies(ch[0], ch[1])
            elif k == z3.Z3_OP_DIV:
                r = ch[0] / ch[1]
            else:
                raise z3.Z3Exception('cannot relax')
        cache[i] = r
        return r
    return go(f)


E = None    # the current explorer


def set_engine(e):
    global E
    E = e
