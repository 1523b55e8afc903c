from lib import netgen, netsim
from lib.runner import Info

ID = 'C07'
QUICK = 8000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: random networks in lock step with a reference network simulator'
NOTE = ('Random small networks with deterministic generated time and routing tapes; after every simulated event the clock, '
        'event count, next-event time and description and every queue are compared with an independent simulator that scans '
        'all queues for the earliest event. Any order of simultaneous events is accepted; trusts the model; networks up to 5 vertices.')
RULE = ('a random network (loops, cycles, sinks, plain/loss/info queues, both blocking modes) with generated tapes and '
        'operations; non-trivial = at least 15 events were performed and at least two queues took part')
MIN_LABELS = {'simultaneous': 0.05, 'drained': 0.1, 'batch': 0.2, 'time': 0.2, 'blocked': 0.1}


def gen(R, tier):
    c = netgen.case(R, {'sim1': 3, 'sim': 4, 'simbig': 2, 'batch': 4, 'time': 4, 'servers': 1, 'off': 1, 'delay': 1, 'init': 1}, classes='QQLI',
                    nmax=5 if tier == 'quick' else 7, nops=(3, 12) if tier == 'quick' else (3, 25))
    if c['block'].upper() == 'BAS' and any(q['cls'] != 'Q' for q in c['queues']):
        # the exact retry times under BAS are read off the network event by event
        c['ops'] = [['sim', o[1]] if o[0] == 'batch' else (['sim', 5] if o[0] == 'time' else o) for o in c['ops']]
    if R.bool(1, 3):
        for q in c['queues']:
            if q['cap'] is None:
                q['cap'] = R.int(1, 6)
        c['ops'] += [['sim', 30], ['sim', 40], ['sim', 40], ['sim', 5]]
    return c


def fixed_cases(tier):
    return netgen.huge('QQLI')


def check(case):
    r, m, steps, labels = netsim.run(case)
    took = sum(1 for q in m.qs if q and q.arrived)
    return Info(m.num_events >= 15 and took >= 2, labels, m.num_events)
