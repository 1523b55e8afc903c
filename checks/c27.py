import numpy as np

import queueing_tool as qt

from lib import picture, world
from lib.runner import Info, expect, fail

ID = 'C27'
QUICK = 1100
THOROUGH = 60000
TECHNIQUE = 'differential property-based testing: animation against simulation of a twin, every frame against the picture the state requires'
NOTE = ('Twin random networks go through the same history; one is animated (matplotlib runs, a writer takes the frames), the other simulates as many events from the '
        'same random state: hook calls and complete states must agree. The artists of every frame are compared with the colors and places computed from the state.')
RULE = 'a random network with several animated stretches; non-trivial = at least 10 animated events and 4 edges'
MIN_LABELS = {'between': 0.3, 'blocking': 0.22, 'drained': 0.015, 'loop': 0.4, 'refused': 0.1, 'stopped': 0.2, 'terminal loops': 0.25}


def gen(R, tier):
    c = picture.gen_net(R)
    c['pre'] = [['sim', R.int(1, 50)]] if R.bool(3, 4) else []
    c['ops'] = []
    for _ in range(R.choice([1, 1, 2, 3])):
        if R.bool(1, 2):
            c['ops'] += [R.choice([world.gen_op(R, c, big=20), ['reset'], ['show', R.int(0, 4)], ['pos', R.int(0, 50)]])]
        c['ops'].append(['animate', R.choice([1, 2, 4, 8, 15, 30]), R.choice([None, None, None, 0.0, 0.5, 1.5, 4.0])])
    c['again'] = R.bool(1, 5)
    return c


def animate(net, frames, t, onframe):
    import matplotlib.pyplot as plt
    kw = {} if t is None else {'t': t}
    writer = world.NullWriter(onframe)
    try:
        net.animate(frames=frames, filename='unused', writer=writer, figsize=(1, 1), dpi=20, **kw)
    finally:
        plt.close('all')
    return writer.nframes


def refused(net, what):
    before = net.num_events
    try:
        animate(net, 2, None, None)
    except qt.QueueingToolError:
        expect(net.num_events == before, '{0}: events were simulated', what)
        return
    fail('{0}: a network that is not initialized was animated', what)


def perform(net, o, case):
    k = o[0]
    if k == 'reset':
        return net.reset_colors()
    if k == 'show':
        return world.observe(net, 'active', case) if o[1] == 0 else world.observe(net, 'type', case)
    if k == 'pos':
        return net.g.set_pos({v: np.array([v * 0.5, (v * o[1]) % 7]) for v in net.g.nodes()})
    return world.apply(net, o, case)


def check(case):
    labels = set()
    picture.pristine()
    a = world.build(case, init=False)
    if case['again']:
        refused(a, 'after construction')
        labels.add('refused')
    a = world.build(case)
    for o in case['pre']:
        perform(a, o, case)
    pal = picture.Palette(a, case)
    start = np.random.get_state()
    b = world.build(case)
    for o in case['pre']:
        perform(b, o, case)
    ra = rb = start
    total = 0
    for i, o in enumerate(case['ops']):
        what = 'operation {0} {1}'.format(i, o)
        if o[0] != 'animate':
            np.random.set_state(ra)
            perform(a, o, case)
            ra = np.random.get_state()
            np.random.set_state(rb)
            perform(b, o, case)
            rb = np.random.get_state()
            labels.add('between')
            continue
        frames, t = o[1], o[2]
        n0, now, m0 = a.num_events, a.current_time, sum(getattr(q, 'num_blocked', 0) for q in a.edge2queue)
        done = []

        def onframe(fig):
            pic = picture.Picture(fig)
            done.append(a.num_events)
            picture.match(a, pic, picture.expected(a, pal), '{0}, frame {1} after {2} events'.format(what, len(done), a.num_events - n0))

        world.LOG = []
        np.random.set_state(ra)
        animate(a, frames, t, onframe)
        ra, log = np.random.get_state(), world.LOG
        n = a.num_events - n0
        total += n
        expect(len(done) >= frames, '{0}: {1} frames were written', what, len(done))
        drained = a.time == world.INF
        late = a.current_time > now + (world.INF if t is None else t)
        expect(n >= frames or drained or late, '{0}: {1} events in {2} frames; time is {3}, was {4}', what, n, len(done), a.current_time, now)
        if drained:
            labels.add('drained')
        if t is not None and late:
            labels.add('stopped')
        if any(q.edge[0] == q.edge[1] and q.edge[3] != 0 for q in a.edge2queue):
            labels.add('loop')
        if sum(getattr(q, 'num_blocked', 0) for q in a.edge2queue) > m0:
            labels.add('blocking')
        # -- the twin
        world.LOG = []
        np.random.set_state(rb)
        if n:
            b.simulate(n=n - 1)
            expect(t is None or b.current_time <= now + t, '{0}: an event was simulated after {1} had passed since {2}', what, t, now)
            b.simulate(n=1)
        rb = np.random.get_state()
        if log != world.LOG:
            j = next((j for j, (p, q) in enumerate(zip(log, world.LOG)) if p != q), min(len(log), len(world.LOG)))
            fail('{0}: hook call {1} was {2} when animated and {3} when simulated', what, j, log[j:j + 1], world.LOG[j:j + 1])
        world.same(world.state(a, graph=False), world.state(b, graph=False), '{0}: the animated and the simulated network', what)
        world.same(list(world.plain(ra)), list(world.plain(rb)), '{0}: the random state when animated and when simulated', what)
    if case['again']:
        a.clear()
        refused(a, 'after clear')
    if case['adjust'] == 1:
        labels.add('terminal loops')
    return Info(total >= 10 and len(a.edge2queue) >= 4, labels, total)
