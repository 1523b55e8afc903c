"""Deterministic, practically tie-free time increments.

A tape is a short list of small integers that is cycled; a jitter that depends
on the call number and a salt makes exact ties between different events
impossible in practice (they are detected and the case is then cut short)."""
INF = float('inf')
M64 = (1 << 64) - 1


class Runaway(Exception):
    """The simulated code keeps asking for times: it does not stop."""


def jitter(c, salt):
    """1e-4 + 1.9e-3 * u, with u a hash of (c, salt) in [0, 1): sums of different
    jitters practically never coincide."""
    x = (c * 0x9E3779B97F4A7C15 + (salt + 1) * 0xD1B54A32D192ED03 + 0x1234567) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    x ^= x >> 31
    return 1e-4 + 1.9e-3 * ((x >> 11) * 2.0 ** -53)


class Tape(object):
    __slots__ = ('vals', 'unit', 'salt', 'c', 'limit', 'exact')

    def __init__(self, vals, unit=0.1, salt=0, limit=200000, exact=False):
        self.vals, self.unit, self.salt, self.c, self.limit, self.exact = list(vals), unit, salt, 0, limit, exact

    def next(self):
        c = self.c
        if c >= self.limit:
            raise Runaway('a time function was called {0} times'.format(c))
        self.c = c + 1
        if self.vals[c % len(self.vals)] is None:
            return INF                  # never
        if self.exact:
            return float(self.vals[c % len(self.vals)])
        return self.vals[c % len(self.vals)] * self.unit + jitter(c, self.salt) * min(1., self.unit * 10)


class Clock(object):
    """The time scale of a case: case['tick'] is the unit of the tapes (0.1 if not
    given), or 'exact' for whole numbers without jitter, where ties abound."""

    def __init__(self, case):
        t = case.get('tick', 0.1)
        self.exact = t == 'exact'
        self.unit = 1.0 if self.exact else t

    def tape(self, vals, salt, limit=200000):
        return Tape(vals, self.unit, salt, limit, self.exact)

    def span(self, x):
        """A time given for the default scale."""
        if self.exact:
            return float(round(x * 10))
        return x if self.unit == 0.1 else x * self.unit * 10


class Recorder(object):
    """A time function t -> t + increment that logs its calls."""

    def __init__(self, tape, log):
        self.tape, self.log = tape, log

    def __call__(self, t):
        r = t + self.tape.next()
        self.log.append((t, r))
        return r


def num(x):
    """JSON number or 'inf' -> float/int, with the library's own infinity."""
    import numpy as np
    return np.infty if x in ('inf', None) else x
