from lib import netgen, netsim, queuegen, queuesim
from lib.runner import Info

ID = 'C28'
QUICK = 28000
THOROUGH = 1000000
TECHNIQUE = 'stateful property-based testing: generated operation sequences in lock step with a reference model'
NOTE = ('Generated histories of queues and of networks with delay_service calls (with and without a time) at arbitrary moments, compared after '
        'every operation and network event with an independent model. Any order of simultaneous events is accepted; assumes delay times not in the past; trusts the model.')
RULE = ('a queue or network with generated time tapes and operations including delay_service; non-trivial = a delay '
        'hit an agent in service and events followed')
MIN_LABELS = {'simultaneous': 0.05, 'delayed': 0.4, 'delayed-several': 0.15, 'network': 0.1, 'overtaken': 0.03, 'delayed blocked': 0.01}


def gen(R, tier):
    if R.bool(1, 5):
        c = netgen.case(R, {'sim1': 4, 'sim': 4, 'simbig': 1, 'delay': 6, 'servers': 1, 'batch': 1}, classes='QQLLIR', agents='PPPRG', nmax=4, nops=(4, 12),
                        servers=(1, 2, 2, 3, 'inf'))
        if c['block'].upper() == 'BAS':         # retry times are looked at event by event
            c['ops'] = [['sim', o[1]] if o[0] == 'batch' else o for o in c['ops']]
        return dict(c, part='network')
    return queuegen.case(R, {'delay': 6, 'n1': 5, 'n': 3, 'nbig': 1, 't': 1, 'D': 1, 'on': 1, 'off': 1, 'servers': 1},
                         classes='QQLI', stop=False, hi=25 if tier == 'quick' else 60, collect=True,
                         servers=(1, 2, 2, 3, 4, 'inf'))


def fixed_cases(tier):
    return queuegen.huge()


def check(case):
    if case.get('part') == 'network':
        r, m, steps, labels = netsim.run(case)
        return Info('delayed' in labels and m.num_events >= 10, labels | {'network'}, m.num_events)
    r, m, events, labels = queuesim.run(case, data='end')
    return Info('delayed' in labels and len(events) >= 5, labels, len(events))
