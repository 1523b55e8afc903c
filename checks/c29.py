from lib import netgen, netsim
from lib.runner import Info

ID = 'C29'
QUICK = 8000
THOROUGH = 400000
TECHNIQUE = 'stateful property-based testing: random networks in lock step with a reference network simulator'
NOTE = ('Random small networks with greedy (and other) agents; every choice a greedy agent makes is compared with the '
        'shortest line computed by an independent simulator. Any order of simultaneous events is accepted; trusts the model.')
RULE = ('a random network whose agents are mostly greedy, with generated tapes and operations; non-trivial = at least one '
        'choice among lines of different lengths, at least 15 events')
MIN_LABELS = {'simultaneous': 0.05, 'greedy-choice': 0.4, 'greedy-tie': 0.4, 'blocked': 0.05, 'several-out-edges': 0.4}


def gen(R, tier):
    n = 5 if tier == 'quick' else 7
    return netgen.case(R, {'sim1': 3, 'sim': 5, 'simbig': 4, 'servers': 1}, classes='QQQQLI', agents='GGGP', dense=True,
                       bufs=(1, 2, 3, 5, None), servers=(1, 1, 1, 2, 3), sinks=R.bool(1, 3), nmax=n, caps=False,
                       nops=(3, 12) if tier == 'quick' else (3, 25))


def fixed_cases(tier):
    return netgen.huge('QQQQLI', 'GGGP')


def check(case):
    r, m, steps, labels = netsim.run(case)
    if any(len(o) > 2 for o in m.out.values()):
        labels.add('several-out-edges')
    return Info(m.stats.get('greedy-choice') and m.num_events >= 15, labels, m.num_events)
