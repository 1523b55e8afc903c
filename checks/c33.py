import copy
import inspect
import io

import numpy as np

import queueing_tool as qt

from lib import picture, world
from lib.runner import Info, expect

ID = 'C33'
QUICK = 1400
THOROUGH = 100000
TECHNIQUE = 'stateful, metamorphic property-based testing: every drawing of a history with random options against a drawing matplotlib makes of the same options'
NOTE = ('Random networks and graphs are simulated and drawn in every way, each time with a random subset of the documented options. At the moment matplotlib would save or show '
        'the figure, its size, background and artists are compared with artists made directly from the options given then, all others as in a drawing without options.')
RULE = 'a random network and a history of drawings with random options; non-trivial = at least 3 drawings, with at least 4 options given, followed by one without some of them'
MIN_LABELS = {'draw': 0.4, 'active': 0.2, 'type': 0.2, 'graph': 0.2, 'bare': 0.1, 'lines': 0.2, 'animate': 0.2, 'saved': 0.6, 'shown': 0.3, 'line option': 0.5, 'point option': 0.5,
              'save option': 0.4, 'back to default': 0.5, 'movie': 0.1, 'own colors': 0.2, 'new background': 0.15}

SAVE = {'dpi': [20, 50, 'figure'], 'facecolor': ['red', [0.1, 0.2, 0.3, 1.0]], 'edgecolor': ['blue', 'none'], 'orientation': ['landscape', 'portrait'],
        'format': ['png', 'svg'], 'transparent': [True, False], 'bbox_inches': ['tight'], 'pad_inches': [0, 0.4]}
LINE = {'linewidths': [[2], [0.5], 3, None], 'linestyle': ['dashed', 'dotted', 'solid', 'dashdot'], 'antialiaseds': [[0], [1], None], 'zorder': [1, 5, -2], 'pickradius': [1, 9],
        'colors': ['red', [[0.5, 0.25, 0.125, 1.0]]], 'hatch': ['/', 'x'], 'facecolors': ['green']}
POINT = {'s': [7, 120, 0.5, None], 'marker': ['s', '^', 'o', 'd', None], 'zorder': [0, 1, 7], 'linewidths': [0.5, 3, None], 'alpha': [0.5, 0.25], 'c': ['b', 'red'], 'edgecolors': ['k', 'face'],
         'hatch': ['/', '+'], 'antialiaseds': [False, True], 'vmin': [0.1], 'vmax': [0.9]}
MOVIE = {'frames': [3, 5], 'interval': [1, 250], 'repeat': [True, False], 'repeat_delay': [10], 'blit': [False, True], 'save_count': [7]}
SAVEMOVIE = {'writer': ['pillow', 'ffmpeg'], 'fps': [5, 30], 'dpi': [20, 99], 'codec': ['h264'], 'bitrate': [1000], 'extra_args': [['-x']], 'metadata': [{'a': 'b'}],
             'savefig_kwargs': [{'facecolor': 'red'}]}
PLAIN = {}


def some(R, table, p):
    return {k: R.choice(v) for k, v in sorted(table.items()) if R.bool(*p)}


def gen(R, tier):
    c = picture.gen_net(R, nmax=4, caps=False)
    c['begin'] = R.bool(5, 6)
    if R.bool(1, 3):
        c['colors'] = dict(c.get('colors') or {}, bgcolor=picture.color(R))
    ops = []
    for _ in range(R.int(3, 9)):
        k = R.weighted({'sim': 3, 'draw': 4, 'old': 1, 'active': 2, 'type': 2, 'graph': 2, 'bare': 1, 'lines': 2, 'animate': 2, 'bgcolor': 1})
        if k == 'bgcolor':
            ops.append([k, picture.color(R)])
            continue
        if k == 'sim':
            ops.append([k, R.int(1, 30)])
            continue
        p = R.choice([(0, 1), (1, 5), (1, 3), (2, 3)])
        o = {'line': some(R, LINE, p) if R.bool() else None, 'point': some(R, POINT, p) if R.bool() else None}
        if k == 'type':
            o['t'] = R.choice([0, 1, 2, 3])
        if k != 'lines':
            o['size'] = R.choice([None, None, [3, 2], [1, 4.5]])
            o['bg'] = R.choice([None, None, picture.color(R)])
            o['to'] = R.choice(['file', 'file', 'show'])
            o['save'] = some(R, SAVE, p) if o['to'] == 'file' and k != 'animate' else {}
        if k == 'animate':
            o['movie'] = some(R, MOVIE, p)
            o['savemovie'] = some(R, SAVEMOVIE, p) if o['to'] == 'file' else {}
        ops.append([k, o])
    c['ops'] = ops
    return c


def style(a, b):
    """The arguments that have nothing to do with the network drawn."""
    return ({k: v for k, v in a.items() if k not in ('segments', 'colors')}, {k: v for k, v in b.items() if k not in ('x', 'y', 'c', 'edgecolors')})


class Canvas(object):
    """Records what happens instead of saving and showing."""
    def __enter__(self):
        import matplotlib.animation
        import matplotlib.figure
        import matplotlib.pyplot as plt
        self.did, self.figs, self.plt = [], [], plt
        fig, ani = matplotlib.figure.Figure, matplotlib.animation.FuncAnimation
        self.undo = [(fig, 'savefig', fig.savefig), (plt, 'show', plt.show), (ani, '__init__', ani.__init__), (ani, 'save', ani.save)]
        sig, ssig = inspect.signature(ani.__init__), inspect.signature(ani.save)

        def savefig(figure, fname, **kw):
            self.did.append(('save', fname, kw))
            self.figs.append(looks(figure))

        def show(*args, **kw):
            self.did.append(('show',))
            self.figs += [looks(plt.figure(k)) for k in plt.get_fignums()]

        def init(movie, *args, **kw):
            d = dict(sig.bind(movie, *args, **kw).arguments)
            d.update(d.pop('kwargs', {}))
            self.did.append(('movie', {k: v for k, v in d.items() if k not in ('self', 'fig', 'func')}))
            movie._draw_was_started = True
            movie.figure_drawn = d['fig']

        def save(movie, *args, **kw):
            d = dict(ssig.bind(movie, *args, **kw).arguments)
            d.pop('self')
            self.did.append(('save movie', d))
            self.figs.append(looks(movie.figure_drawn))
        fig.savefig, plt.show, ani.__init__, ani.save = savefig, show, init, save
        plt.close('all')
        return self

    def __exit__(self, *args):
        for where, name, what in self.undo:
            if name == 'save':
                del where.save                  # inherited
            else:
                setattr(where, name, what)
        self.plt.close('all')
        self.plt.ioff()


def looks(figure):
    """What can be seen of a figure."""
    from matplotlib.collections import LineCollection, PathCollection
    expect(len(figure.axes) == 1, 'the figure has {0} axes', len(figure.axes))
    ax = figure.axes[0]
    lines = [c for c in ax.collections if isinstance(c, LineCollection)]
    points = [c for c in ax.collections if isinstance(c, PathCollection)]
    expect(len(lines) == 1 and len(points) == 1, 'the figure has {0} line and {1} point collections', len(lines), len(points))
    d = {'size': [float(x) for x in figure.get_size_inches()], 'background': [float(x) for x in ax.get_facecolor()],
         'axes': [ax.get_xaxis().get_visible(), ax.get_yaxis().get_visible()], 'lines': attributes(lines[0]), 'points': attributes(points[0])}
    d['lines']['colors'] = np.array(lines[0].get_colors()).tolist()
    d['lines']['segments'] = len(lines[0].get_segments())
    d['points']['marker'] = [p.vertices.tolist() for p in points[0].get_paths()]
    d['points']['sizes'] = [float(x) for x in points[0].get_sizes()]
    d['points']['fill'] = np.array(points[0].get_facecolors()).tolist()
    d['points']['pen'] = np.array(points[0].get_edgecolors()).tolist()
    d['points']['places'] = np.array(points[0].get_offsets()).tolist()
    return d


def attributes(c):
    return {'linewidths': [float(x) for x in np.atleast_1d(c.get_linewidths())], 'linestyle': [[float(a), None if b is None else [float(x) for x in b]] for a, b in c.get_linestyle()],
            'antialiaseds': [bool(x) for x in np.atleast_1d(c.get_antialiaseds())], 'zorder': c.get_zorder(), 'pickradius': c.get_pickradius(), 'hatch': c.get_hatch(),
            'alpha': c.get_alpha(), 'limits': list(c.get_clim())}


def reference(lines, points):
    """The same artists made by matplotlib from these arguments."""
    from matplotlib.collections import LineCollection
    import matplotlib.figure
    fig = matplotlib.figure.Figure()
    ax = fig.add_subplot()
    ax.add_collection(LineCollection(**lines))
    ax.scatter(**points)
    return looks(fig)


def check(case):
    import warnings
    warnings.simplefilter('ignore')
    picture.pristine()
    labels = set()
    net = world.build(case, init=False)
    pal = picture.Palette(net, case)
    if case['begin']:
        world.initialize(net, case)
    bare = qt.QueueNetworkDiGraph({0: [1, 2], 1: [0], 2: [0]})
    bare.set_pos({v: np.array([v * 1.0, v % 2]) for v in range(3)})
    plain = style(*net.g.lines_scatter_args())
    if not PLAIN:
        PLAIN['style'] = copy.deepcopy(plain)
    same_style(plain, PLAIN['style'], 'without options')
    drawings, given, before, after = 0, 0, set(), False
    background = (case.get('colors') or {}).get('bgcolor', picture.pristine()['net']['bgcolor'])
    for i, (k, o) in enumerate(case['ops']):
        what = 'operation {0} {1}'.format(i, [k, o])
        if k == 'sim':
            if case['begin']:
                net.simulate(n=o)
            continue
        if k == 'bgcolor':
            net.colors['bgcolor'] = background = list(o)
            labels.add('new background')
            continue
        kw = {'line_kwargs': o['line'], 'scatter_kwargs': o['point']}
        kw = {n: v for n, v in kw.items() if v is not None}
        labels.update(['line option'] * bool(o['line']) + ['point option'] * bool(o['point']))
        mine = {('line', n) for n in o['line'] or ()} | {('point', n) for n in o['point'] or ()}
        g = bare if k == 'bare' else net.g
        if k == 'lines':
            snap = copy.deepcopy(kw)
            a, b = g.lines_scatter_args(**kw)
            expect(kw == snap, '{0}: the arguments became {1}', what, kw)
            for name, got, opt, base in (('lines', a, o['line'], plain[0]), ('points', b, o['point'], plain[1])):
                want = dict(base, **(opt or {}))
                for n, v in want.items():
                    expect(n in got and equal(got[n], v), '{0}: the {1} get {2} = {3!r}, expected {4!r}', what, name, n, got.get(n), v)
                expect(set(got) <= set(want) | {'segments', 'colors', 'x', 'y', 'c', 'edgecolors'}, '{0}: the {1} get {2}', what, name, sorted(got))
            for d in (a, b):                    # what was returned belongs to the caller
                for n in list(d):
                    d[n] = 'spoilt'
        else:
            if o['size']:
                kw['figsize'] = tuple(o['size'])
                mine.add('size')
            if o['bg']:
                kw['bgcolor'] = list(o['bg'])
                mine.add('bg')
            kw.update(o['save'])
            mine |= {('save', n) for n in o['save']}
            labels.update(['save option'] * bool(o['save']))
            target = None
            if o['to'] == 'file':
                target = 'unused.mp4' if k == 'animate' else io.BytesIO()
                kw['filename' if k == 'animate' else 'fname'] = target
            if k == 'animate':
                if not case['begin']:
                    continue
                kw.update(o['movie'])
                kw.update(o['savemovie'])
                labels.update(['movie'] * bool(o['movie'] or o['savemovie']))
            snap = {n: v if v is target else copy.deepcopy(v) for n, v in kw.items()}
            colors = [net.colors['bgcolor'], net.colors]
            keep = copy.deepcopy(colors)
            want_colors = picture.expected(net, pal) if k in ('draw', 'animate') else None
            with Canvas() as canvas:
                if k == 'draw':
                    net.draw(**kw)
                elif k == 'old':
                    net.draw(update_colors=False, **kw)
                elif k == 'active':
                    net.show_active(**kw)
                elif k == 'type':
                    net.show_type(o['t'], **kw)
                elif k == 'animate':
                    net.animate(**kw)
                else:
                    g.draw_graph(**kw)
            expect(kw == snap, '{0}: the arguments became {1}', what, kw)
            expect(colors == keep, '{0}: the colors of the network became {1}', what, colors)
            done(canvas.did, k, o, target, what, labels)
            expect(len(canvas.figs) == 1, '{0}: {1} figures were saved or shown', what, len(canvas.figs))
            fig = canvas.figs[0]
            expect(fig['size'] == list(map(float, o['size'] or (7, 7))), '{0}: the figure is {1} inches', what, fig['size'])
            bg = o['bg'] or ([1, 1, 1, 1] if k in ('graph', 'bare') else background)
            expect(picture.near(fig['background'], rgba(bg)), '{0}: the background is {1}, expected {2}', what, fig['background'], bg)
            expect(fig['axes'] == [False, False], '{0}: the axes are visible', what)
            # -- the artists: options given now, everything else as without options
            nV, nE = len(g.nodes()), len(g.edges())
            ln = dict(plain[0], segments=[[(0., 0.), (1., 1.)]] * nE, colors=[[0., 0., 0., 1.]] * nE)
            pt = dict(plain[1], x=np.zeros(nV), y=np.zeros(nV), c=[[0., 0., 0., 1.]] * nV, edgecolors=[[0., 0., 0., 1.]] * nV)
            own = {'colors': bool(o['line'] and 'colors' in o['line']), 'fill': bool(o['point'] and 'c' in o['point']),
                   'pen': bool(o['point'] and 'edgecolors' in o['point'])}
            own['alpha'] = bool(o['point'] and 'alpha' in o['point'])
            if own['pen'] and o['point']['edgecolors'] == 'face':
                own['pen'] = own['fill']        # as the colors of the state
            ref = reference(dict(ln, **(o['line'] or {})), dict(pt, **(o['point'] or {})))
            for part in ('lines', 'points'):
                for n, v in ref[part].items():
                    if n in ('fill', 'pen', 'colors') and not own[n] or n in ('places', 'segments'):
                        continue
                    expect(equal(fig[part][n], v), '{0}: {1} of the {2} is {3}, expected {4}', what, n, part, fig[part][n], v)
            if any(own.values()):
                labels.add('own colors')
            # -- colors that were not given are those of the state
            if want_colors is not None:
                for part, n, want in (('lines', 'colors', want_colors[0]), ('points', 'fill', want_colors[1]), ('points', 'pen', want_colors[2])):
                    if own[n] or own['alpha'] and part == 'points' or o['point'] and o['point'].get('edgecolors') == 'face' and n == 'pen':
                        continue
                    for x, y in zip(fig[part][n], want):
                        expect(picture.near(x, y), '{0}: {1} of the {2} is {3}, expected {4}', what, n, part, x, y)
            drawings += 1
            labels.add(k)
        if k == 'lines':
            labels.add('lines')
        if before - mine:
            labels.add('back to default')
            after = True
        given += len(mine)
        before |= mine
    return Info(drawings >= 3 and given >= 4 and after, labels, drawings)


def rgba(c):
    return list(c) + [1.] * (4 - len(c))


def equal(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (float, int)):
        return abs(a - b) <= 1e-9
    return type(a) is type(b) and a == b if isinstance(a, str) or isinstance(b, str) else a is b or bool(a == b)


def same_style(a, b, what):
    for x, y in zip(a, b):
        expect(set(x) == set(y) and all(equal(x[n], y[n]) for n in x if n != 'cmap'), '{0}: lines and points get {1}, they first got {2}', what, x, y)


def done(did, k, o, target, what, labels):
    kinds = [d[0] for d in did]
    if k == 'animate':
        expect(kinds == ['movie', 'save movie' if target else 'show'], '{0}: did {1}', what, kinds)
        labels.add('saved' if target else 'shown')
        got = did[0][1]
        for n, v in o['movie'].items():
            expect(equal(got.get(n), v), '{0}: the animation got {1} = {2!r}', what, n, got.get(n))
        for n in MOVIE:
            if n not in o['movie']:
                first = PLAIN.setdefault(n, [got.get(n)])
                expect(got.get(n) == first[0], '{0}: the animation got {1} = {2!r}, without options {3!r}', what, n, got.get(n), first[0])
        if target:
            got = did[1][1]
            expect(got.get('filename') == target, '{0}: saved as {1!r}', what, got.get('filename'))
            for n in SAVEMOVIE:
                expect(equal(got.get(n), o['savemovie'].get(n)), '{0}: saving the animation got {1} = {2!r}, expected {3!r}', what, n, got.get(n), o['savemovie'].get(n))
        return
    if target is None:
        expect(kinds == ['show'], '{0}: did {1}, expected to show the figure', what, kinds)
        labels.add('shown')
        return
    expect(kinds == ['save'], '{0}: did {1}, expected to save the figure', what, kinds)
    labels.add('saved')
    expect(did[0][1] is target, '{0}: saved to {1!r}', what, did[0][1])
    expect(did[0][2] == o['save'], '{0}: savefig got {1}, expected {2}', what, did[0][2], o['save'])
