from lib import netgen, netsim, queuegen, queuesim
from lib.runner import Info

ID = 'C06'
QUICK = 12000
THOROUGH = 500000
TECHNIQUE = 'stateful property-based testing: generated histories in lock step with reference models that keep the records'
NOTE = ('Half of the cases are stand-alone queues, half random networks (agents come back, terminal edges, blocking); data '
        'collection starts and data are cleared at arbitrary moments, and all records are compared with independent models '
        'after every operation. Switching collection off again is a known finding. Any order of simultaneous events is accepted; trusts the models.')
RULE = ('a stand-alone queue or a random network with generated tapes and operations, collecting data at least part of the '
        'time; non-trivial = at least 8 rows of data were compared')
MIN_LABELS = {'simultaneous': 0.05, 'queue': 0.3, 'network': 0.3, 'blocked': 0.05, 'revisit': 0.1, 'terminal-rows': 0.05, 'cleardata': 0.1, 'collect': 0.2}


def gen(R, tier):
    if R.bool():
        c = queuegen.case(R, {'n1': 4, 'n': 4, 'nbig': 2, 't': 1, 'D': 1, 'servers': 1, 'delay': 1, 'on': 1, 'off': 1, 'collect': 2, 'cleardata': 1},
                          classes='QLI', stop=False, hi=16 if tier == 'quick' else 50, collect=True)
        c['part'] = 'queue'
        return c
    c = netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 2, 'collect': 4, 'cleardata': 1, 'servers': 1, 'delay': 1}, classes='QQLI',
                    nmax=4 if tier == 'quick' else 6, nops=(3, 10) if tier == 'quick' else (3, 25))
    c['collect'] = 'all' if R.bool(2, 3) else c.get('collect')
    c['part'] = 'network'
    return c


def fixed_cases(tier):
    for c in queuegen.huge():
        yield dict(c, part='queue')
    for c in netgen.huge():
        yield dict(c, part='network', collect='all')


def check(case):
    if case['part'] == 'queue':
        r, m, events, labels = queuesim.run(case, data=True)
        n = len(m.rows)
        labels = {x for x in labels if not x.startswith('sim-')}
        if ['cleardata'] in case['ops']:
            labels.add('cleardata')
    else:
        r, m, steps, labels = netsim.run(case, data=True)
        rows = [row for q in m.qs if q for row in q.rows]
        n = len(rows) + sum(len(x) for x in m.nulldata)
        if any(m.nulldata):
            labels.add('terminal-rows')
        for q in m.qs:
            if q and len({aid for aid, _ in q.rows}) < len(q.rows):
                labels.add('revisit')
    labels.add(case['part'])
    return Info(n >= 8, labels, n)
