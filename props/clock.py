"""A clock and file times under the control of the checks."""
import os
import sys
import time

MAX = 10 ** 10


class Clock(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.value = 0
        self.steady = False

    def read(self):
        """A new reading, not before the last one."""
        if not self.steady:
            t = self.ctx.int('t%d' % self.n, 0, MAX)
            self.n += 1
            if not self.ctx.symbolic and t < self.value:
                # another number of readings than in the symbolic run (os.listdir's order)
                t = self.value
            self.ctx.assume(t >= self.value)
            self.value = t
        return self.value


class Stat(object):
    """os.stat's result with other times (ordinary runs)."""
    def __init__(self, st, ctime, mtime):
        self.st, self.st_ctime, self.st_mtime = st, ctime, mtime
        self.st_ctime_ns, self.st_mtime_ns = ctime * 10 ** 9, mtime * 10 ** 9

    def __getattr__(self, name):
        return getattr(self.st, name)

    def __getitem__(self, i):
        return {8: self.st_mtime, 9: self.st_ctime}.get(i, self.st[i])


class World(object):
    """The clock and the file times under our control."""

    def __init__(self, ctx, clock):
        self.ctx, self.clock = ctx, clock
        self.times = {}

    def __enter__(self):
        if self.ctx.symbolic:
            from sx import fs
            fs.S.now = self.clock.read
            return self
        self.saved = [(os, 'stat', os.stat), (time, 'time', time.time)]
        real_stat, real_time = os.stat, time.time

        def stat(path, *a, **k):
            st = real_stat(path, *a, **k)
            if isinstance(path, (str, os.PathLike)) and os.path.abspath(path) in self.times:
                return Stat(st, *self.times[os.path.abspath(path)])
            return st
        for name, m in list(sys.modules.items()):
            if name.startswith('sbclassifier'):
                for g, v in list(vars(m).items()):
                    if v is real_time:
                        self.saved.append((m, g, v))
                        setattr(m, g, self.clock.read)
        os.stat, time.time = stat, self.clock.read
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            from sx import fs
            fs.S.now = None
            return
        for m, g, v in self.saved:
            setattr(m, g, v)

    def set(self, path, ctime, mtime):
        if self.ctx.symbolic:
            from sx import fs
            n = fs.node(path)
            n.ctime, n.mtime = ctime, mtime
        else:
            self.times[os.path.abspath(path)] = (ctime, mtime)
