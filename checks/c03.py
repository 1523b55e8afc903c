from lib import netgen, netsim, queuegen, queuesim
from lib.runner import Info

ID = 'C03'
QUICK = 28000
THOROUGH = 1000000
TECHNIQUE = 'stateful property-based testing: generated operation sequences in lock step with a reference model'
NOTE = ('Generated histories of loss and info queues of all small capacities, with changes of the number of servers, '
        'compared after every operation with an independent model. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a stand-alone loss or info queue with generated servers, buffer, time tapes and operations; non-trivial = '
        'at least one outside arrival was turned away and at least one admitted')
MIN_LABELS = {'simultaneous': 0.05, 'blocked': 0.35, 'blocked-several': 0.2, 'blocked-then-admitted': 0.2, 'network': 0.08, 'turned-away': 0.05, 'filled from inside': 0.03}


def gen(R, tier):
    if R.bool(1, 7):
        return netgen.part(R, {'sim1': 3, 'sim': 5, 'simbig': 2, 'servers': 1, 'delay': 1, 'batch': 1}, tier, classes='LLIQ', servers=(1, 1, 2), bufs=(0, 0, 1, 2, 3, None))
    return queuegen.case(R, {'n1': 5, 'n': 4, 'nbig': 2, 't': 1, 'D': 1, 'A': 1, 'servers': 2, 'on': 1, 'off': 1, 'delay': 1},
                         classes='LLI', stop=False, hi=25 if tier == 'quick' else 60, collect=True,
                         servers=(1, 1, 2, 3, 4, 'inf'), bufs=(0, 0, 1, 2, 3, None, 'inf'))


def fixed_cases(tier):
    for cls in 'LI':
        for c in (1, 2, 3):
            for b in (0, 1, 2):
                yield {'cls': cls, 'c': c, 'buf': b, 'arr': [0, 0, 9], 'ser': [20, 11], 'cap': None, 'stop': None,
                       'edge': 1, 'collect': False, 'ops': [['on']] + [['sim', 'n', 1]] * 50}
    for c in queuegen.huge():
        yield c
    for c in netgen.huge('LLI'):
        yield dict(c, part='network')


def network(case):
    seen = set()

    def every(r, m, kind):
        for k, q in enumerate(m.qs):
            if q is not None and q.loss and q.full() and any(a[0] != k for a in q.line + [a for _, a in q.insvc]):
                seen.add(k)
                if q.blocked:
                    seen.add('turned')
    r, m, steps, labels = netsim.run(case, data=case.get('collect') and 'limit' not in case, every=every)
    if 'turned' in seen:
        labels.add('filled from inside')
    return Info(m.lost and m.num_events >= 8, (labels | {'network'}) - {'batch'}, m.num_events)


def check(case):
    if case.get('part') == 'network':
        return network(case)
    r, m, events, labels = queuesim.run(case, data='end')
    k = [e for e in events if e in (1, 3)]
    if k.count(3) > 2:
        labels.add('blocked-several')
    if 3 in k and 1 in k[k.index(3):]:
        labels.add('blocked-then-admitted')
    return Info(3 in k and 1 in k, labels, len(events))
