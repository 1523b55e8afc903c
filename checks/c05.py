from lib import queuegen, queuesim
from lib.runner import Info

ID = 'C05'
QUICK = 28000
THOROUGH = 1000000
TECHNIQUE = 'stateful property-based testing: generated operation sequences in lock step with a reference model'
NOTE = ('Generated histories made of simulate calls in all four modes (and operations that change the schedule in '
        'between), compared after every call with an independent model. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a stand-alone queue with generated time tapes and a sequence of simulate(n) / simulate(t) / simulate(nD) / '
        'simulate(nA) calls; non-trivial = at least two modes used, at least 8 events, in at least 3 calls')
MIN_LABELS = {'simultaneous': 0.05, 'sim-n': 0.3, 'sim-t': 0.3, 'sim-D': 0.3, 'sim-A': 0.3, 'drained': 0.05}


def gen(R, tier):
    c = queuegen.case(R, {'n': 3, 'n1': 2, 't': 4, 'D': 4, 'A': 4, 'on': 1, 'off': 1, 'servers': 1, 'delay': 1, 'clear': 1},
                      classes='QLI', stop=True, hi=16 if tier == 'quick' else 40)
    for o in c['ops']:
        if o[:2] == ['sim', 't']:
            o[2] = R.choice([0, 0.1, 0.5, 1, 2, 3, 4.5, 10])
    return c


def fixed_cases(tier):
    for cls in 'QLI':
        for mode, x in (('n', 0), ('n', 5), ('t', 0), ('t', 1.5), ('t', 7), ('D', 0), ('D', 4), ('A', 0), ('A', 4)):
            for on in (True, False):
                yield {'cls': cls, 'c': 1, 'buf': None if cls == 'Q' else 1, 'arr': [3, 9], 'ser': [8, 12], 'cap': 9,
                       'stop': None, 'edge': 0, 'collect': False,
                       'ops': ([['on']] if on else []) + [['sim', mode, x]] * 4 + [['sim', 'n', 50], ['sim', mode, x]]}
    for c in queuegen.huge():
        yield c


def check(case):
    r, m, events, labels = queuesim.run(case)
    modes = [x for x in labels if x.startswith('sim-')]
    ncalls = sum(1 for o in case['ops'] if o[0] == 'sim')
    return Info(len(modes) >= 2 and len(events) >= 8 and ncalls >= 3, labels, len(events))
