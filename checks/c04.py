from lib import netgen, netsim, queuegen, queuesim
from lib.runner import Info

ID = 'C04'
QUICK = 28000
THOROUGH = 1000000
TECHNIQUE = 'stateful property-based testing: generated operation sequences in lock step with a reference model'
NOTE = ('Generated histories with caps, stop times, activations and deactivations at arbitrary moments; every call of '
        'the arrival function and of the agent factory is compared with an independent model. Any order of simultaneous events is accepted.')
RULE = ('a stand-alone queue with generated active_cap / deactive_t, time tapes and operations with many activations '
        'and deactivations; non-trivial = at least 3 agents created and the cap, the stop time or a deactivation acted')
MIN_LABELS = {'simultaneous': 0.05, 'cap-hit': 0.1, 'stop-hit': 0.1, 'off-while-pending': 0.2, 'reactivated': 0.1, 'reactivated-after-cap': 0.03, 'network': 0.08, 'cap-visited': 0.03}


def gen(R, tier):
    if R.bool(1, 7):
        c = netgen.part(R, {'sim1': 3, 'sim': 5, 'simbig': 2, 'init': 3, 'off': 2, 'batch': 1}, tier, classes='QQLI', stops=False)
        for q in c['queues']:
            if R.bool(2, 3):
                q['cap'] = R.int(1, 12)
            elif R.bool(1, 3):
                q['stop'] = round(R.int(0, 120) * 0.1, 1)
        return c
    c = queuegen.case(R, {'n1': 5, 'n': 5, 'nbig': 1, 't': 2, 'D': 1, 'A': 2, 'on': 4, 'off': 2},
                      classes='QQLI', cap=False, stop=False, hi=25 if tier == 'quick' else 60)
    c['cap'] = R.int(0, 15) if R.bool(1, 2) else None
    c['stop'] = round(R.int(0, 120) * 0.1, 1) if R.bool(1, 3) and ['clear'] not in c['ops'] else None
    return c


def fixed_cases(tier):
    for cap in (0, 1, 2, 3, None):
        for stop in (0, 0.05, 0.5, None):
            yield {'cls': 'Q', 'c': 1, 'buf': None, 'arr': [0, 2], 'ser': [1], 'cap': cap, 'stop': stop, 'edge': 2,
                   'collect': False, 'ops': [['on'], ['sim', 'n', 1], ['off'], ['on'], ['sim', 'n', 3], ['off'],
                                             ['sim', 'n', 20], ['on'], ['sim', 'n', 9], ['on'], ['sim', 'n', 9]]}
    for c in queuegen.huge():
        yield c
    for c in netgen.huge():
        yield dict(c, part='network', queues=[dict(q, cap=3 + k % 7 if k % 3 else None) for k, q in enumerate(c['queues'])])


def network(case):
    r, m, steps, labels = netsim.run(case)
    acted = False
    for q in m.qs:
        if q is None:
            continue
        if q.stopped:
            labels.add('stop-hit')
            acted = True
        if q.made >= q.cap > 0:
            labels.add('cap-hit')
            acted = True
        if q.cap < 2 ** 60 and q.made and q.arrived > q.made - len(q.pending) - q.blocked:
            labels.add('cap-visited')       # agents from other queues came as well
    return Info(acted and len(m.created) >= 3, (labels | {'network'}) - {'batch'}, m.num_events)


def check(case):
    if case.get('part') == 'network':
        return network(case)
    r, m, events, labels = queuesim.run(case)
    acted = m.stopped or (case['cap'] is not None and m.made >= case['cap'])
    if m.stopped:
        labels.add('stop-hit')
    if case['cap'] is not None and m.made >= case['cap'] > 0:
        labels.add('cap-hit')
        if ['on'] in case['ops'][3:]:
            labels.add('reactivated-after-cap')
    names = [o[0] for o in case['ops']]
    if 'off' in names:
        labels.add('off-while-pending')
        if 'on' in names[names.index('off'):]:
            labels.add('reactivated')
        acted = True
    return Info(acted and m.made >= 3, labels, len(events))
