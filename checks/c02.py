from lib import netgen, netsim, queuegen, queuesim
from lib.runner import Info

ID = 'C02'
QUICK = 28000
THOROUGH = 1000000
TECHNIQUE = 'stateful property-based testing: generated operation sequences in lock step with a reference model'
NOTE = ('Generated histories with set_num_servers calls (increases, decreases, infinity, invalid values) at arbitrary '
        'moments, compared after every operation with an independent model. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a stand-alone queue with generated time tapes and operations including changes of the number of servers; '
        'non-trivial = a change made waiting agents start, or went below the number in service')
MIN_LABELS = {'simultaneous': 0.05, 'resize-starts': 0.15, 'resize-below-busy': 0.15, 'rejected': 0.1, 'both': 0.05, 'network': 0.08, 'network-resized': 0.03}


def gen(R, tier):
    if R.bool(1, 7):
        return netgen.part(R, {'servers': 5, 'sim1': 3, 'sim': 4, 'simbig': 2, 'batch': 1}, tier, classes='QQLI', servers=(1, 1, 2, 3, 4), bufs=(2, 3, 5, None))
    return queuegen.case(R, {'servers': 6, 'n1': 3, 'n': 5, 'nbig': 2, 't': 1, 'D': 1, 'A': 1, 'bad': 1, 'on': 1, 'off': 1},
                         classes='QQLI', stop=False, hi=25 if tier == 'quick' else 60,
                         servers=(1, 1, 2, 3, 4, 'inf'), bufs=(2, 3, 5, 8, 'inf'))


def fixed_cases(tier):
    for a in (1, 2, 4, 'inf'):
        for b in (1, 2, 5, 'inf'):
            for cls in 'QL':
                yield {'cls': cls, 'c': a, 'buf': None if cls == 'Q' else 9, 'arr': [0], 'ser': [90, 70, 80], 'cap': 12, 'stop': None,
                       'edge': 0, 'collect': False,
                       'ops': [['on'], ['sim', 'n', 8], ['servers', b], ['sim', 'n', 1], ['servers', 2], ['sim', 'n', 3],
                               ['servers', 4], ['badservers', 'zero'], ['sim', 'n', 40]]}
    for c in queuegen.huge():
        yield c
    for c in netgen.huge():
        yield dict(c, part='network', ops=[['sim', 60], ['servers', 1, 4], ['sim', 30], ['servers', 1, 1]] + [['servers', k, 5] for k in range(0, 40, 3)] + [['sim', 60]])


def check(case):
    if case.get('part') == 'network':
        r, m, steps, labels = netsim.run(case)
        if 'resize-starts' in labels:
            labels.add('network-resized')
        return Info('resize-starts' in labels and m.num_events >= 5, (labels | {'network'}) - {'batch'}, m.num_events)
    r, m, events, labels = queuesim.run(case)
    hit = labels & {'resize-starts', 'resize-below-busy'}
    if len(hit) == 2:
        labels.add('both')
    return Info(hit, labels, len(events))
