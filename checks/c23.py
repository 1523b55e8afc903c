import bisect
import math

import numpy as np

import queueing_tool as qt

from lib.runner import Info, expect
from lib.stat import exponential, independent

ID = 'C23'
QUICK = 1500
THOROUGH = 120000
TECHNIQUE = 'property-based statistical testing: random time change to a unit Poisson process, Dvoretzky-Kiefer-Wolfowitz and Chernoff bounds'
NOTE = ('Random intensities (constant, sinusoidal, piecewise constant or linear with zero stretches, onset) at random scales, start times and slacks of the bound. '
        'The integral of the rate between start and returned time must be unit exponential and independent: each test has false alarm probability below 1e-12.')
RULE = 'a rate function, bound and start, and a chain (or repetition) of draws; non-trivial = at least 500 draws and a rate that is not constant or a slack above 1.2'
MIN_LABELS = {'chain': 0.3, 'repeat': 0.15, 'zero': 0.2, 'slack': 0.4, 'tight': 0.15, 'phase': 0.1, 'const': 0.04, 'sine': 0.08, 'steps': 0.15, 'linear': 0.08,
              'onset': 0.04, 'negative t': 0.08, 'large t': 0.06}


def gen(R, tier):
    kind = R.choice(['const', 'sine', 'sine', 'steps', 'steps', 'steps', 'linear', 'linear', 'onset'])
    c = {'kind': kind, 'scale': R.choice([1, 1, 1, 0.01, 0.2, 7, 300]), 'seed': R.int(0, 10 ** 6), 'mode': R.choice(['chain', 'chain', 'repeat'])}
    if kind == 'const':
        c['p'] = [R.int(1, 20) / 4.]
    elif kind == 'sine':
        c['p'] = [R.int(1, 12) / 4., R.choice([0.3, 0.8, 1.0]), R.choice([0.5, 1., 3., 20.]), R.int(0, 7) / 8.]
    elif kind in ('steps', 'linear'):
        k = R.int(2, 5)
        v = [R.choice([0, 0, 0.5, 1, 2, 3, 8]) for _ in range(k)]
        if not any(v):
            v[R.int(0, k - 1)] = 1
        c['p'] = [[R.choice([0.25, 0.5, 1, 1, 3]) for _ in range(k)], v]
    else:
        c['p'] = [R.choice([1, 10, 100, 1500]), R.int(1, 8) / 2.]
    c['slack'] = R.choice([1, 1, 1.1, 1.5, 2, 2, 5, 20, 500])
    c['t'] = R.choice([0, 0, 0.3, 0.9, 2.6, 7.1, -5.2, -130.4, 1e4, 123456.7])
    c['as'] = R.choice(['float', 'float', 'numpy', 'int'])
    c['n'] = R.choice([500, 1500, 3000]) if tier == 'quick' else R.choice([500, 3000, 10000])
    return c


def fixed_cases(tier):
    n = 30000 if tier == 'quick' else 400000
    base = {'scale': 1, 'slack': 1.5, 't': 0.3, 'as': 'float', 'n': n, 'big': True}
    out = []
    for seed, (kind, p) in enumerate([('sine', [1.0, 1.0, 2.0, 0.]), ('steps', [[1, 0.5, 1], [0, 3, 1]]), ('linear', [[1, 1, 0.5], [0, 2, 1]]), ('const', [2.0])]):
        for mode in ('chain', 'repeat'):
            out.append(dict(base, kind=kind, p=p, mode=mode, seed=seed))
    return out


class Rate(object):
    """An intensity, its maximum and its integral."""
    def __init__(self, case):
        self.kind, self.p, s = case['kind'], case['p'], float(case['scale'])
        self.s = s
        if self.kind == 'const':
            a = self.p[0]
            self.one, self.max, self.total, self.period = (lambda x: a), a, a, 1.0
            self.partial = lambda x: a * x
        elif self.kind == 'sine':
            a, b, period, phi = self.p
            w = 2 * math.pi / period
            self.one = lambda x: a * (1 + b * math.sin(w * x + phi * 2 * math.pi))
            self.max, self.total, self.period = a * (1 + b), a * period, period
            self.partial = lambda x: a * x - a * b / w * (np.cos(w * x + phi * 2 * math.pi) - math.cos(phi * 2 * math.pi))
        elif self.kind in ('steps', 'linear'):
            w, v = self.p
            knots = np.concatenate([[0.], np.cumsum(w)])
            self.period, self.max = float(knots[-1]), float(max(v))
            kl, period, k = list(knots), self.period, len(v)
            if self.kind == 'steps':
                self.one = lambda x: v[min(bisect.bisect_right(kl, x % period) - 1, k - 1)]
                cum = np.concatenate([[0.], np.cumsum(np.array(v) * np.array(w))])
                self.partial = lambda x: np.interp(x, knots, cum)
            else:
                ends = np.array(list(v) + [v[0]], float)
                el = list(ends)

                def one(x):
                    x = x % period
                    i = min(bisect.bisect_right(kl, x) - 1, k - 1)
                    f = (x - kl[i]) / (kl[i + 1] - kl[i])
                    return max(0.0, el[i] + f * (el[i + 1] - el[i]))
                self.one = one
                cum = np.concatenate([[0.], np.cumsum((ends[:-1] + ends[1:]) / 2 * np.array(w))])

                def partial(x):
                    i = np.clip(np.searchsorted(knots, x, 'right') - 1, 0, k - 1)
                    h = x - knots[i]
                    return cum[i] + h * ends[i] + h * h / 2 * (ends[i + 1] - ends[i]) / (knots[i + 1] - knots[i])
                self.partial = partial
            self.total = float(cum[-1])
        else:
            onset, a = self.p
            self.onset = onset
            self.one = lambda x: a if x > onset else 0
            self.max, self.total, self.period = a, a, None
        self.max *= s

    def at(self, t):
        return self.s * self.one(self.s * t)

    def integral(self, t):
        x = self.s * np.asarray(t, float)
        if self.period is None:
            return self.total * np.maximum(0., x - self.onset)
        k = np.floor(x / self.period)
        return k * self.total + self.partial(x - k * self.period)


def check(case):
    np.random.seed(case['seed'])
    labels = {case['kind'], case['mode']}
    rate = Rate(case)
    bound = rate.max * case['slack']
    cost = case['slack'] * rate.max / (rate.s * (rate.total / rate.period if rate.period else rate.total))
    n = int(case['n'] if case.get('big') else min(case['n'], max(60, 25000 / cost)))
    t0 = case['t'] / rate.s
    if rate.period is None and case['mode'] == 'repeat':
        wait = max(0., rate.onset - case['t']) * bound / rate.s
        n = int(max(1, min(n, 60000 / (wait + 1))))
    if rate.period is None and case['mode'] == 'chain' and (rate.onset - case['t']) * bound / rate.s > 1e6:
        t0 = (rate.onset - 1e6 / bound * rate.s) / rate.s
    kind = case['as']
    if kind == 'numpy':
        f, bound, t0 = (lambda t: np.float64(rate.at(t))), np.float64(bound), np.float64(t0)
    elif kind == 'int' and bound > 1:
        f, bound = rate.at, int(math.ceil(bound))
    else:
        f = rate.at
    what = 'poisson_random_measure({0}, {1}, {2})'.format(t0, (case['kind'], case['p'], case['scale']), bound)
    starts, ends, t = np.empty(n), np.empty(n), t0
    draw, repeat = qt.poisson_random_measure, case['mode'] == 'repeat'
    for k in range(n):
        x = draw(t, f, bound)
        expect(x > t and x < math.inf, '{0}: returned {1} from {2}', what, x, t)
        expect(f(x) > 0, '{0}: returned {1}, where the rate is zero', what, x)
        starts[k], ends[k] = t, x
        if not repeat:
            t = x
    inc = rate.integral(ends) - rate.integral(starts)
    if n >= 60:
        exponential(inc, what)
        independent(inc, what)
    if not repeat and n >= 400 and rate.period:
        # chosen by where the interval starts: still a sample of unit exponentials
        at = np.array([rate.at(x) for x in starts])
        mid = rate.s * rate.total / rate.period
        # and by how long the last one was
        for name, sel in (('low', at < mid), ('high', at > mid), ('after a long interval', np.concatenate([[False], inc[:-1] > math.log(2)])),
                          ('after a short interval', np.concatenate([[False], inc[:-1] < math.log(2)]))):
            some = inc[sel][:n // 3]
            if len(some) == n // 3:
                exponential(some, what + ' from points where the rate is ' * (len(name) < 5) + ' ' + name)
                if len(name) < 5:
                    labels.add('phase')
    if case['kind'] == 'onset' or case['kind'] in ('steps', 'linear') and 0 in case['p'][1] or case['kind'] == 'sine' and case['p'][1] == 1:
        labels.add('zero')
    labels.add('slack' if case['slack'] > 1.2 else 'tight')
    if case['t'] < 0:
        labels.add('negative t')
    if case['t'] >= 1e4:
        labels.add('large t')
    return Info(n >= 500 and (case['kind'] != 'const' or case['slack'] > 1.2), labels, n)
