"""Statistical oracles. Each fails a true hypothesis with probability below ALPHA, whatever the sample size."""
import math

import numpy as np

from lib.runner import expect

ALPHA = 1e-12


def kl_bernoulli(q, p):
    return (q * math.log(q / p) if q > 0 else 0.) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0.)


def exponential(inc, what, name='the integral of the rate', many='the integrals of the rate'):
    """The increments are a sample of independent unit exponentials."""
    n = len(inc)
    expect(np.all(inc >= -1e-6), '{0}: {1} decreased', what, name)
    u = np.sort(np.exp(-inc))
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    limit = math.sqrt(math.log(2 / ALPHA) / (2 * n))
    m = float(np.mean(inc))
    expect(d <= limit, '{0}: {5} over {1} intervals are not exponential with mean 1: mean {2:.4f}, their distribution function is off '
           'by {3:.4f} (at most {4:.4f} expected)', what, n, m, float(d), limit, many)
    expect(m > 0 and 2 * math.exp(-n * (m - 1 - math.log(m))) >= ALPHA, '{0}: {3} over {1} intervals has mean {2:.4f}, not 1', what, n, m, name)


def sides(inc):
    """On which side of the median of a unit exponential each increment lies."""
    return np.sign(inc - math.log(2))


def coin(a, b, what, *args):
    """The signs a and b are independent of each other, at least one of them symmetric."""
    n = len(a)
    same = int(np.sum(a * b > 0))
    expect(2 * math.exp(-n * kl_bernoulli(same / float(n), 0.5)) >= ALPHA, what + ' lie on the same side of the median in {0} of {1} cases'.format(same, n), *args)


def independent(inc, what, name='increments'):
    """Successive unit exponentials: the products of signs around the median are independent and symmetric."""
    s = sides(inc)
    for lag in (1, 2):
        coin(s[lag:], s[:-lag], '{0}: {1} {2} apart', what, name, lag)
