"""The state kept in the modules under test: every path and every replay
starts with what importing them leaves."""
import collections
import enum
import sys
import types

SIMPLE = (type(None), bool, int, float, str, bytes, types.ModuleType, types.BuiltinFunctionType)


class State(object):

    def __init__(self, package='sbclassifier'):
        self.package = package
        self.seen = {}      # id -> object (kept alive)
        self.saved = []     # (object, kind, contents)
        for name, m in list(sys.modules.items()):
            if name == package or name.startswith(package + '.'):
                self.names(m.__dict__)

    def ours(self, t):
        return getattr(t, '__module__', '').split('.')[0] == self.package

    def names(self, d):
        """The names of a module."""
        c = {k: v for k, v in d.items() if not k.startswith('__')}
        self.saved.append((d, 'names', c))
        for v in c.values():
            self.visit(v)

    def visit(self, x):
        if isinstance(x, SIMPLE) or id(x) in self.seen:
            return
        self.seen[id(x)] = x
        if isinstance(x, type):
            if self.ours(x) and not issubclass(x, enum.Enum):
                c = {k: v for k, v in vars(x).items() if not k.startswith('__') and not isinstance(v, types.MemberDescriptorType)}
                self.saved.append((x, 'class', c))
                for v in list(c.values()) + [vars(x).get('__init__'), vars(x).get('__call__')]:
                    self.visit(v)
            return
        if isinstance(x, (tuple, frozenset)):
            for v in x:
                self.visit(v)
            return
        if isinstance(x, types.MethodType):
            self.visit(x.__self__)
            self.visit(x.__func__)
            return
        if isinstance(x, (staticmethod, classmethod)):
            self.visit(x.__func__)
            return
        if isinstance(x, types.FunctionType):
            if self.ours(x):
                self.visit(x.__defaults__)
                for v in (x.__kwdefaults__ or {}).values():
                    self.visit(v)
                if vars(x):
                    self.attributes(x)
                for cell in x.__closure__ or ():
                    if id(cell) not in self.seen:
                        self.seen[id(cell)] = cell
                        try:
                            v = cell.cell_contents
                        except ValueError:
                            continue
                        self.saved.append((cell, 'cell', v))
                        self.visit(v)
            return
        if hasattr(x, 'cache_clear') and hasattr(x, '__wrapped__'):
            self.saved.append((x, 'cache', None))
            self.visit(x.__wrapped__)
            return
        if isinstance(x, dict):
            c = dict(dict.items(x))
            self.saved.append((x, 'dict', c))
            for k, v in c.items():
                self.visit(v)
        elif isinstance(x, (list, collections.deque)):
            c = list(x)
            self.saved.append((x, 'list', c))
            for v in c:
                self.visit(v)
        elif isinstance(x, set):
            self.saved.append((x, 'set', list(x)))
        if self.ours(type(x)) and hasattr(x, '__dict__'):
            self.attributes(x)

    def attributes(self, x):
        c = dict(vars(x))
        self.saved.append((x, 'attributes', c))
        for v in c.values():
            self.visit(v)

    def restore(self):
        for x, kind, c in self.saved:
            if kind == 'names':
                self._names(x, c)
            elif kind == 'attributes':
                self._names(vars(x), c, True)
            elif kind == 'class':
                for k in [k for k in vars(x) if not k.startswith('__') and k not in c]:
                    if not isinstance(vars(x)[k], types.MemberDescriptorType):
                        delattr(x, k)
                for k, v in c.items():
                    if vars(x).get(k, restore) is not v:
                        setattr(x, k, v)
            elif kind == 'cell':
                try:
                    if x.cell_contents is c:
                        continue
                except ValueError:
                    pass
                x.cell_contents = c
            elif kind == 'cache':
                x.cache_clear()
            elif kind == 'dict':
                if len(x) != len(c) or any(a is not b for a, b in zip(dict.values(x), c.values())) or \
                        any(a is not b for a, b in zip(dict.keys(x), c.keys())):
                    dict.clear(x)
                    if hasattr(x, 'nsym'):
                        x.nsym = 0
                    for k, v in c.items():
                        dict.__setitem__(x, k, v)
            elif kind == 'list':
                if len(x) != len(c) or any(a is not b for a, b in zip(x, c)):
                    x.clear()
                    x.extend(c)
            elif kind == 'set':
                if len(x) != len(c) or not all(set.__contains__(x, v) for v in c):
                    x.clear()
                    for v in c:
                        x.add(v)

    def _names(self, d, c, dunder=False):
        if len(d) != len(c):
            for k in [k for k in d if k not in c and (dunder or not k.startswith('__'))]:
                del d[k]
        for k, v in c.items():
            if d.get(k, restore) is not v:
                d[k] = v


STATE = None


def restore():
    """Back to the state at the first call."""
    global STATE
    if STATE is None:
        STATE = State()
    else:
        STATE.restore()
