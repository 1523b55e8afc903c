"""Networks in which ordinary agents are blocked again and again: a statistical oracle for their choices."""
import math

import numpy as np
import queueing_tool as qt

from lib import routegen
from lib.runner import expect

LOG = math.log(2 / 1e-13)


def gen(R, tier):
    """A ring 0 -> 1 -> ... -> 0 with several parallel ways of small capacity from vertex 0 to the next vertices."""
    k = R.int(2, 5)
    return {'part': 'choices', 'k': k, 'w': routegen.weights(R, k), 'cap': R.ints(0, 2, k, k), 'cls': [R.choice('LLIRQ') for _ in range(k)],
            'agent': R.choice(['Agent', 'Agent', 'InfoAgent', 'ResourceAgent']), 'block': R.choice(['BAS', 'RS']),
            'seed': R.int(0, 10 ** 6), 'events': R.choice([3000, 8000]) if tier == 'quick' else R.choice([8000, 40000]), 'servers': R.int(1, 4)}


CLASSES = {'Q': qt.QueueServer, 'L': qt.LossQueue, 'I': qt.InfoQueue, 'R': qt.ResourceQueue}


def check(case):
    """Returns labels and the number of choices made by agents that had just been blocked."""
    k = case['k']
    log = []                # (agent, edge, times blocked before, chosen)

    class Agent(getattr(qt, case['agent'])):
        def desired_destination(self, network, edge):
            e = super(Agent, self).desired_destination(network, edge)
            if edge[1] == 0:
                log.append((self.agent_id, tuple(edge), self.blocked, int(e)))
            return e

    def make(aid, *rest):
        return Agent(aid, 2 * k) if case['agent'] == 'InfoAgent' else Agent(aid)

    # 0 -> 1..k (slow, small), each back to 0 by an edge with many fast servers
    adj = {0: {v: {'edge_type': v} for v in range(1, k + 1)}}
    for v in range(1, k + 1):
        adj[v] = {0: {'edge_type': k + 1}}
    args = {'num_servers': case['servers'], 'service_f': lambda t: t + np.random.exponential(0.2), 'arrival_f': lambda t: t + np.random.exponential(0.5),
            'AgentFactory': make}
    classes, qargs = {k + 1: qt.QueueServer}, {k + 1: args}
    for v in range(1, k + 1):
        cls = CLASSES[case['cls'][v - 1]]
        classes[v] = cls
        qargs[v] = {'num_servers': 1, 'service_f': lambda t: t + np.random.exponential(1.0 * k), 'arrival_f': lambda t: t + 1.0, 'AgentFactory': make}
        if cls is not qt.QueueServer:
            qargs[v]['qbuffer'] = case['cap'][v - 1]
        if cls is qt.InfoQueue:
            qargs[v]['net_size'] = 2 * k
    np.random.seed(case['seed'])
    net = qt.QueueNetwork(adj, q_classes=classes, q_args=qargs, blocking=case['block'], max_agents=12 * k, seed=case['seed'])
    p = routegen.probs(case['w'])
    net.set_transitions({0: dict(zip(range(1, k + 1), p))})
    ways = [net.g.edge_index[(0, v)] for v in range(1, k + 1)]
    pos = {e: i for i, e in enumerate(ways)}
    net.initialize(edge_type=k + 1)
    net.simulate(n=case['events'])
    total, again = np.zeros(k), np.zeros(k)
    same = n_again = 0
    var_same = expect_same = 0.
    late_same = n_late = 0
    expect_late = var_late = 0.
    last = {}
    for aid, edge, blocked, e in log:
        expect(e in pos, 'an agent at edge {0} chose edge {1}', edge, e)
        i = pos[e]
        expect(p[i] > 0, 'an agent at edge {0} chose edge {1}, which has probability 0', edge, e)
        total[i] += 1
        if aid in last and last[aid][0] < blocked:
            j = last[aid][1]
            again[i] += 1
            n_again += 1
            same += i == j
            expect_same += p[j]
            var_same += p[j] * (1 - p[j])
            if blocked > 3:
                late_same += i == j
                n_late += 1
                expect_late += p[j]
                var_late += p[j] * (1 - p[j])
        last[aid] = (blocked, i)

    def bound(var):
        return math.sqrt(2 * (var + LOG) * LOG) + LOG + 1

    what = '{0} choices made by {1}s'.format(len(log), case['agent'])
    for i in range(k):
        n = float(total.sum())
        expect(abs(total[i] - n * p[i]) <= bound(n * p[i] * (1 - p[i])), '{0}: the edge with probability {1} was chosen {2} times', what, p[i], total[i])
        expect(abs(again[i] - n_again * p[i]) <= bound(n_again * p[i] * (1 - p[i])),
               '{0}, {3} of them after having been blocked: the edge with probability {1} was chosen {2} times after a block', what, p[i], again[i], n_again)
    expect(abs(same - expect_same) <= bound(var_same), '{0}: after having been blocked the same edge as before was chosen {1} times of {2}, about {3:.0f} expected',
           what, same, n_again, expect_same)
    expect(abs(late_same - expect_late) <= bound(var_late), '{0}: after having been blocked more than three times the same edge as before was chosen {1} times of {2}, '
           'about {3:.0f} expected', what, late_same, n_late, expect_late)
    labels = {'choices'}
    if n_again >= 300:
        labels.add('choices after blocks')
    return labels, n_again
