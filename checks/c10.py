from lib import netgen, netsim, retries
from lib.runner import Info

ID = 'C10'
QUICK = 8000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: random networks in lock step with a reference network simulator'
NOTE = ('Random small networks dominated by small-capacity queues, both blocking modes (given at construction or later); '
        'after every event clocks, counts, capacities and blocked counts are compared with an independent simulator; the '
        'retry time under BAS must lie within 1e-6 after the next departure of the full queue. Any order of simultaneous events is accepted; '
        'trusts the model. In a few larger runs the choices of blocked ordinary agents are compared with the transition probabilities (bounds a correct '
        'tree exceeds with probability below 1e-11).')
RULE = ('a random network of mostly loss queues with generated tapes, routes and operations; non-trivial = at least 3 '
        'blocked attempts inside the network')
MIN_LABELS = {'simultaneous': 0.05, 'blocked': 0.5, 'BAS': 0.2, 'RS': 0.2, 'blocked-then-moved': 0.1, 'choices': 0.005, 'choices after blocks': 0.002}


def gen(R, tier):
    if R.bool(1, 80):
        return retries.gen(R, tier)
    resource = R.bool(1, 5)
    c = netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 3, 'servers': 1, 'batch': 1, 'delay': 1}, classes='QLRRRI' if resource else 'QLLLLI', agents='RRP' if resource else 'P', sinks=R.bool(1, 3), loops=R.bool(1, 3),
                    bufs=(0, 0, 0, 1, 2), servers=(1, 1, 2), nmax=4 if tier == 'quick' else 6, dense=True,
                    caps=False, stops=False, nops=(3, 10) if tier == 'quick' else (3, 25))
    if c['block'].upper() == 'BAS':
        c['ops'] = [['sim', o[1]] if o[0] == 'batch' else o for o in c['ops']]
    return c


def fixed_cases(tier):
    return netgen.huge('QLLLLI')


def check(case):
    if case.get('part') == 'choices':
        labels, n = retries.check(case)
        return Info(n >= 300, labels, n)
    seen = {}

    def every(r, m, kind):
        if kind == 3:
            seen['b'] = seen.get('b', 0) + 1
        elif kind == 2 and m.asked and sum(1 for a in m.asked if a[0] == m.asked[-1][0]) > len(m.visits[m.asked[-1][0]]) - 1:
            seen['moved'] = True
    r, m, steps, labels = netsim.run(case, every=every)
    if 'moved' in seen:
        labels.add('blocked-then-moved')
    if any(q is not None and q.cls == 'R' and q.c == 0 for q in m.qs):
        labels.add('no servers')
    if m.stats.get('blocked'):
        labels.add(case['block'].upper())
    return Info(m.stats.get('blocked', 0) >= 3, labels, m.num_events)
