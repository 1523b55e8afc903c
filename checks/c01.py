from lib import netgen, netsim, queuegen, queuesim
from lib.runner import Info

ID = 'C01'
QUICK = 32000
THOROUGH = 1200000
TECHNIQUE = 'stateful property-based testing: generated operation sequences in lock step with a reference model'
NOTE = ('Generated histories of a stand-alone queue (all classes but the resource queue) are compared after every '
        'operation with an independent list-based model: clocks, counts, calls of the time functions, agent hooks. '
        'Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a stand-alone queue (plain, loss or info class, any server count) with generated arrival and service '
        'tapes and a generated sequence of operations, compared in lock step with a reference model '
        '(clocks, counts, time function calls, agent hooks); non-trivial = some agent had to wait in line '
        'and at least 5 events were performed')
MIN_LABELS = {'simultaneous': 0.05, 'waited': 0.2, 'several-servers': 0.2, 'network': 0.08, 'network-waited': 0.03, 'blocked-waited': 0.01}


def gen(R, tier):
    if R.bool(1, 7):
        return netgen.part(R, {'sim1': 2, 'sim': 5, 'simbig': 3, 'servers': 1, 'batch': 1, 'time': 1}, tier, classes='QQLI', servers=(1, 1, 2, 3), bufs=(0, 1, 2, 4, None))
    return queuegen.case(R, {'n1': 4, 'n': 3, 'nbig': 2, 't': 1, 'D': 1, 'A': 1, 'on': 2, 'off': 1},
                         classes='QQLI', stop=False, hi=25 if tier == 'quick' else 60)


def fixed_cases(tier):
    for c in (1, 2, 3, 'inf'):
        yield {'cls': 'Q', 'c': c, 'buf': None, 'arr': [0, 3, 1], 'ser': [20, 1, 7], 'cap': None, 'stop': None,
               'edge': 0, 'collect': False, 'ops': [['on']] + [['sim', 'n', 1]] * 60}
    for c in queuegen.huge():
        yield c
    for c in netgen.huge():
        yield dict(c, part='network')


def network(case):
    r, m, steps, labels = netsim.run(case)
    waits = [(aid, t, k) for t, aid, stage, k in m.hooks if stage == 0]
    starts = {(aid, t, k) for t, aid, stage, k in m.hooks if stage == 1}
    waited = {w[0] for w in waits if w not in starts}
    labels = (labels | {'network'}) - {'batch', 'time'}
    if waited:
        labels |= {'waited', 'network-waited'}
        if any(m.agent_blocked[a] for a in waited):
            labels.add('blocked-waited')
    return Info(waited and m.num_events >= 5, labels, m.num_events)


def check(case):
    if case.get('part') == 'network':
        return network(case)
    r, m, events, labels = queuesim.run(case)
    started = {h[1]: h[0] for h in m.hooks if h[2] == 1}
    arrived = {h[1]: h[0] for h in m.hooks if h[2] == 0}
    waited = any(started[a] > arrived[a] for a in started) or bool(m.line)
    if waited:
        labels.add('waited')
        if case['c'] != 1:
            labels.add('several-servers')
    return Info(waited and len(events) >= 5, labels, len(events))
