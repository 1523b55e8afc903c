"""Generators for stand-alone queue cases."""
BAD = ['zero', 'neg', 'float', 'str', 'none', 'ninf', 'whole', 'nan', 'list']
MIXED = {k: 1 for k in ('n1', 'n', 't', 'D', 'A', 'on', 'off', 'servers', 'bad', 'delay', 'collect', 'cleardata', 'clear')}
SERVERS = [1, 2, 3, 4, 5, 6, 'inf']


def op(R, kinds):
    kind = R.weighted(kinds)
    if kind == 'n1':
        return ['sim', 'n', 1]
    if kind == 'n':
        return ['sim', 'n', R.int(0, 12)]
    if kind == 'nbig':
        return ['sim', 'n', R.int(10, 60)]
    if kind == 't':
        return ['sim', 't', round(R.int(0, 60) * 0.1, 1)]
    if kind in ('D', 'A'):
        return ['sim', kind, R.int(0, 8)]
    if kind == 'servers':
        n = R.choice(SERVERS)
        return ['servers', n, R.choice(['np', 'py', 'f32'])] if R.bool(1, 4) else ['servers', n]
    if kind == 'bad':
        return ['badservers', R.choice(BAD)]
    if kind == 'delay':
        return ['delay', None if R.bool(1, 3) else R.int(0, 40)]
    return [kind]


def case(R, kinds, classes='QLI', cap=True, stop=True, collect=False, lo=3, hi=25,
         servers=(1, 2, 3, 4, 5, 'inf'), bufs=(0, 1, 2, 3, 4, 'inf'), on=7):
    cls = R.choice(classes)
    pace = R.choice([(4, 12), (12, 12), (3, 40), (10, 40), (12, 100)])
    c = {'cls': cls, 'c': R.choice(servers), 'buf': R.choice(bufs) if cls != 'Q' else None,
         'edge': R.int(0, 3),
         'arr': R.ints(0, pace[0], 1, 7), 'ser': R.ints(0, pace[1], 1, 7),
         'cap': R.int(0, 12) if cap and R.bool(1, 4) else None,
         'stop': round(R.int(0, 150) * 0.1, 1) if stop and R.bool(1, 4) else None,
         'collect': R.bool(3, 4) if collect else R.bool(1, 4)}
    c['tick'] = R.weighted([(0.1, 14), ('exact', 6), (5.0, 2), (1000.0, 2), (1e-9, 1), (1e9, 1)])
    if c['tick'] == 'exact':
        c['arr'] = [max(1, x) for x in c['arr']]
    if R.bool(1, 8):
        c['as'] = R.choice(['np', 'py', 'f32'])
    if R.bool(1, 6):                    # operations of every kind
        kinds = dict(MIXED, **kinds)
    n = R.int(lo, hi)
    c['ops'] = [['on']] if R.bool(on, 8) else []
    c['ops'] += [op(R, kinds) for _ in range(n)]
    if ['clear'] in c['ops']:
        c['stop'] = None
    size = R.int(0, 39)
    if size >= 38:
        # a long history; half of them with a long line
        c['ops'].insert(R.int(0, len(c['ops'])), ['sim', 'n', R.int(100, 500)])
        if size == 39:
            c['arr'] = [1 + x % 3 for x in c['arr']]
            c['ser'] = [10 + 3 * x for x in c['ser']]
            c['cap'] = c['stop'] = None
    elif size == 37:
        # many servers
        c['c'] = R.choice([8, 13, 20, 40])
        c['arr'] = [1 + x % 2 for x in c['arr']]
        c['ser'] = [20 + 7 * x for x in c['ser']]
        c['ops'].insert(R.int(0, len(c['ops'])), ['sim', 'n', R.int(30, 150)])
    never(R, c, 24)
    return c


def never(R, c, n):
    """Now and then a time function returns infinity."""
    k = R.int(0, n - 1)
    if k in (1, 2):
        name = 'ser' if k == 1 else 'arr'
        c[name][R.int(0, len(c[name]) - 1)] = None
        if k == 1 and 'ops' in c:       # there may be no further departure
            c['ops'] = [['sim', 'n', 3 * o[2]] if o[:2] == ['sim', 'D'] else o for o in c['ops']]


def huge():
    """Histories with long lines, many servers and many events."""
    base = {'cls': 'Q', 'c': 1, 'buf': None, 'edge': 0, 'arr': [1, 2], 'ser': [60, 47, 3], 'cap': None, 'stop': None, 'collect': True,
            'tick': 0.1, 'limit': 10 ** 5}
    for kw in ({'ops': [['on'], ['sim', 'n', 900], ['servers', 6], ['sim', 'n', 50], ['servers', 'inf'], ['sim', 'n', 100]]},
               {'cls': 'L', 'c': 3, 'buf': 700, 'ops': [['on'], ['sim', 'A', 800], ['servers', 90], ['sim', 'D', 200], ['sim', 'n', 100]]},
               {'c': 'inf', 'ser': [9000, 8000], 'ops': [['on'], ['sim', 'n', 700], ['servers', 2], ['sim', 'n', 700], ['servers', 600], ['sim', 'n', 50]]},
               {'cls': 'I', 'c': 600, 'ser': [9000, 8000], 'ops': [['on'], ['sim', 'n', 700], ['off'], ['sim', 'n', 500]]},
               {'cls': 'L', 'c': 3, 'buf': 1600, 'ser': [9000, 8000], 'ops': [['on'], ['sim', 'A', 1700], ['servers', 1500], ['sim', 'n', 5], ['servers', 'inf'], ['sim', 'A', 30]]},
               {'cls': 'L', 'ser': [4, 1], 'ops': [['on'], ['sim', 'n', 7000], ['sim', 'D', 5500], ['sim', 'A', 5500], ['sim', 't', 1500.0], ['sim', 'n', 1]]},
               {'c': 2, 'ser': [1, 2, 2], 'tick': 'exact', 'ops': [['on'], ['sim', 'n', 3000], ['delay', None], ['sim', 't', 50.0]]},
               {'c': 2, 'arr': [0, 5], 'ser': [7, 2], 'tick': 'exact', 'ops': [['on'], ['sim', 'n', 1], ['delay', 0], ['sim', 'n', 1], ['sim', 'n', 20]]},
               {'c': 1, 'arr': [0, 5], 'ser': [7, 2], 'tick': 'exact', 'ops': [['on'], ['sim', 'n', 1], ['delay', 0], ['sim', 'n', 1], ['delay', None], ['sim', 'n', 20]]}):
        yield dict(base, **kw)
