"""What harnesses see: scenarios and the context `ctx`, which makes inputs and
checks assertions, symbolically or with concrete values (replay)."""
import json
import math
import os
import random
import shutil
import struct
import tempfile

SCENARIOS = []


class Scenario(object):

    def __init__(self, fn, name, params, tiers, weight):
        self.fn = fn
        self.name = name
        self.params = params
        self.tiers = tiers
        self.weight = weight

    def id(self):
        return self.name + json.dumps(self.params, sort_keys=True)


def scenario(quick=({},), thorough=(), weight=1):
    """Declares a function of (ctx, **params) as a scenario, once for every
    parameter set; `thorough` adds parameter sets to those of `quick`."""
    def deco(fn):
        for p in quick:
            SCENARIOS.append(Scenario(fn, fn.__name__, p, ('quick', 'thorough'), weight))
        for p in thorough:
            SCENARIOS.append(Scenario(fn, fn.__name__, p, ('thorough',), weight))
        return fn
    return deco


class Stopped(Exception):
    """Concrete runs: the assumptions do not hold."""


class Failure(Exception):
    pass


class Base(object):

    symbolic = False

    def __init__(self):
        self.failures = []
        self.obs = []
        self.labels = {}
        self.data = {}

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.pick(name, len(seq))]

    def boolean(self, name):
        return self.pick(name, 2) == 1

    def raises(self, fn, *types):
        """(True, exception) if fn() raises one of the types, otherwise
        (False, result)."""
        try:
            return False, fn()
        except types as e:
            return True, e


class ConcreteCtx(Base):
    """Replays one assignment on the ordinary code."""

    def __init__(self, values):
        Base.__init__(self)
        self.values = values
        self.dirs = []

    def _get(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise Stopped()
        return v

    small = int

    def real(self, name, lo, hi):
        v = float(self._get(name, lo))
        if not lo <= v <= hi:
            raise Stopped()
        return v

    def pick(self, name, n):
        return self._get(name, 0)

    def float(self, name):
        v = self._get(name, 0.0)
        return float(v) if isinstance(v, str) else v

    def bytes(self, name, n, alphabet=None):
        return bytes(self._get(name, list(b'a' * n)))

    def str(self, name, n, alphabet=None):
        return ''.join(map(chr, self._get(name, list(b'a' * n))))

    def assume(self, cond):
        if not cond:
            raise Stopped()

    def check(self, cond, label, info=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self.failures.append((label, repr(info) if info is not None else ''))

    def observe(self, name, value):
        self.obs.append((name, plain(value)))

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def restart(self):
        """As if the process were new: the modules have their first state."""
        from sx import state
        state.restore()

    def scratch(self):
        d = tempfile.mkdtemp(prefix='sx-')
        self.dirs.append(d)
        return d

    def cleanup(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def implies(self, a, b):
        return (not a) or bool(b)

    def close(self, a, b, tol=1e-9):
        """Equality of computed probabilities (exact in the symbolic run,
        where arithmetic is exact)."""
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

    def ge(self, a, b, tol=1e-9):
        return a >= b - tol

    def near_boundary(self, a, b, tol=1e-9):
        """Concrete arithmetic rounds: is the comparison of a and b too close
        to be decided the same way as in exact arithmetic?"""
        return abs(a - b) <= tol


def plain(v):
    """A JSON form of a concrete value."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    if isinstance(v, str):
        return ['s'] + [ord(c) for c in v]
    if isinstance(v, (bytes, bytearray)):
        return ['b'] + list(v)
    if isinstance(v, dict):
        return ['d', sorted(([plain(k), plain(x)] for k, x in v.items()), key=repr)]
    if isinstance(v, (set, frozenset)):
        return ['S', sorted((plain(x) for x in v), key=repr)]
    if isinstance(v, (list, tuple)):
        return ['l', [plain(x) for x in v]]
    return repr(v)


def same_plain(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
            if a != a or b != b:
                return a != a and b != b
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_plain(x, y) for x, y in zip(a, b))
    return a == b
