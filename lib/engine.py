"""A small property-based testing engine.

A generator is a function of a Source; every random choice is a bounded integer
drawn from it, so that a case is determined by its choice sequence. Failing
cases are shrunk by shrinking that sequence (delete / zero / minimise choices)
and re-generating, the way Hypothesis and minithesis do. Compared with
Hypothesis (used at first, see DESIGN.md) choices are independent and uniform,
which gives far more distinct cases per second here."""
import random


class Source(object):
    def __init__(self, rnd=None, prefix=None):
        self.rnd, self.prefix, self.choices = rnd, prefix, []

    def int(self, lo, hi):
        """An integer in [lo, hi]; shrinks towards lo."""
        if hi <= lo:
            return lo
        k = len(self.choices)
        if self.prefix is not None:
            v = min(self.prefix[k], hi - lo) if k < len(self.prefix) else 0
        else:
            v = self.rnd.randrange(hi - lo + 1)
        self.choices.append(v)
        return lo + v

    def choice(self, seq):
        """An element of seq; shrinks towards the first."""
        return seq[self.int(0, len(seq) - 1)]

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False."""
        return self.int(0, den - 1) >= den - num

    def weighted(self, table):
        """table: {value: weight} or [(value, weight)]; shrinks to the first."""
        items = list(table.items()) if isinstance(table, dict) else list(table)
        x = self.int(0, sum(w for _, w in items) - 1)
        for v, w in items:
            if x < w:
                return v
            x -= w

    def ints(self, lo, hi, nmin, nmax):
        n = self.int(nmin, nmax)
        return [self.int(lo, hi) for _ in range(n)]

    def perm(self, n):
        """A permutation of range(n); shrinks to the identity."""
        p = list(range(n))
        for i in range(n - 1):
            j = self.int(i, n - 1)
            p[i], p[j] = p[j], p[i]
        return p

    def subset(self, seq, nmin=0):
        out = [x for x in seq if self.bool()]
        rest = [x for x in seq if x not in out]
        while len(out) < nmin and rest:
            out.append(rest.pop(self.int(0, len(rest) - 1)))
        return out


def generate(gen, seed, index):
    """The index-th case of a run: independent of all others."""
    src = Source(random.Random('{0}/{1}'.format(seed, index)))
    return gen(src), src.choices


def shrink(gen, choices, fails, stop):
    """fails(case) -> bool. Returns nothing: fails() keeps the best case."""
    best = list(choices)

    def attempt(cand):
        src = Source(prefix=cand)
        try:
            case = gen(src)
        except Exception:
            return None
        key = (len(src.choices), src.choices)
        if key < (len(best), best) and fails(case):
            return src.choices
        return None

    improved = True
    while improved and not stop():
        improved = False
        for size in (16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0 and not stop():
                got = attempt(best[:i] + best[i + size:])
                if got is None and any(best[i:i + size]):
                    got = attempt(best[:i] + [0] * size + best[i + size:])
                if got is not None:
                    best, improved = list(got), True
                    i = min(i, len(best) - size)
                i -= 1 if size < 4 else size // 2
        for i in range(len(best)):
            if i >= len(best) or stop():
                break
            lo, hi = 0, best[i]
            while lo < hi and not stop():
                mid = (lo + hi) // 2
                got = attempt(best[:i] + [mid] + best[i + 1:])
                if got is not None:
                    best, improved = list(got), True
                    if i >= len(best):
                        break
                    hi = best[i]
                else:
                    lo = mid + 1
