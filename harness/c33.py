from common import *
import numpy as np
import causets.causetplotting as cplt
from causets.spacetimes import Spacetime, FlatSpacetime

CASES = [
    dict(fn='fading', params=dict(name='linear', dim=2), tier='quick'),
    dict(fn='fading', params=dict(name='intensity', dim=2), tier='quick'),
    dict(fn='fading', params=dict(name='intensity', dim=3), tier='quick'),
    dict(fn='exponential', params=dict(), tier='quick'),
    dict(fn='slice', params=dict(n=2, dims=[1, 0], d=2, name='linear'),
         tier='quick'),
    dict(fn='slice', params=dict(n=2, dims=[1, 0], d=2, name='intensity'),
         tier='quick'),
    dict(fn='slice', params=dict(n=2, dims=[1, 0], d=2, name='exponential'),
         tier='quick'),
    dict(fn='slice', params=dict(n=2, dims=[0, 2, 1], d=3, name='linear'),
         tier='quick'),
    dict(fn='slice', params=dict(n=2, dims=[0, 2, 1], d=3, name='intensity'),
         tier='quick'),
    dict(fn='slice', params=dict(n=3, dims=[1, 0], d=2, name='linear'),
         tier='quick'),
    dict(fn='cones', params=dict(), tier='quick'),
    dict(fn='again', params=dict(n=2, dims=[1, 0], d=2), tier='quick'),
    dict(fn='again', params=dict(n=2, dims=[2, 1], d=3), tier='thorough'),
]
EPS = 1e-6


def near(a, b):
    return -EPS <= a - b <= EPS


def faded(name, dim, v, depth, full):
    """expected opacity or width at time difference v"""
    if v < 0.0 < depth or v > 0.0 > depth:
        return 0.0
    if name == 'linear':
        return full * (1.0 - v / depth)
    if name == 'exponential':
        return full * np.exp((-1.0 / depth) * v)
    w = 1.0 + abs(v)
    return full / (w * w if dim == 3 else w)


def fading(name, dim):
    v = vh.real(-3.0, 3.0)
    depth = vh.real(-2.0, 2.0)
    full = vh.real(0.0, 4.0)
    vh.assume(depth >= 0.25 or depth <= -0.25)
    x = cplt.dynamic_parameter(name, dim, depth, full)(v)
    vh.check(near(x, faded(name, dim, v, depth, full)), 'fading')


def exponential():
    """constant ratios for constant differences, decreasing with the depth"""
    v = vh.real(0.0, 2.0)
    w = vh.real(0.0, 2.0)
    depth = vh.real(0.25, 2.0)
    full = vh.real(0.1, 4.0)
    back = vh.boolean()
    dim = vh.integer(2, 4)
    s = -1.0 if back else 1.0
    f = cplt.dynamic_parameter('exponential', dim, s * depth, full)
    vh.check(near(f(0.0), full), 'full at the time slice')
    a, b = f(s * v), f(s * w)
    vh.check(a > 0.0 and a <= full + EPS, 'visible')
    if v > 0.01:
        vh.check(f(-s * v) == 0.0, 'nothing on the other side')
        vh.check(a < full, 'fades')
    vh.check(near(a * b, full * f(s * (v + w))), 'exponential')


class Screen:
    """records events, and lines with the expected ends"""

    def __init__(self, points, lines, alphas, width):
        self.points, self.lines, self.alphas = points, lines, alphas
        self.width = width
        self.dots = [0] * len(points)
        self.texts = [0] * len(points)
        self.drawn = [0] * len(lines)

    def plot(self, *XYZ, **options):
        d = len(self.points[0])
        vh.check(len(XYZ) == d, 'dimensions of the plot')
        if len(XYZ[0]) == 1:
            p = [X[0] for X in XYZ]
            for i, q in enumerate(self.points):
                if all([p[k] == q[k] for k in range(d)]):
                    self.dots[i] += 1
                    vh.check(near(options['alpha'], self.alphas[i]),
                             'opacity of events')
            return ['event']
        vh.check(all([len(X) == 2 for X in XYZ]), 'vertices')
        p, q = [X[0] for X in XYZ], [X[1] for X in XYZ]
        found = 0
        for i, (a, b, cut, fade, want) in enumerate(self.lines):
            there = all([near(p[k], a[k]) and near(q[k], b[k])
                         for k in range(d)])
            back = all([near(p[k], b[k]) and near(q[k], a[k])
                        for k in range(d)])
            if want and (there or back and not cut):
                found += 1
                self.drawn[i] += 1
                vh.check(near(options['alpha'], fade), 'opacity of links')
                vh.check(near(options['linewidth'], self.width * fade),
                         'width of links')
                vh.check(len(options['markevery']) == (1 if cut else 0),
                         'marked where it is cut')
                if cut:
                    vh.check(options['markevery'][0] == 1,
                             'marked where it is cut')
        vh.check(found == 1, 'links')
        return ['link']

    def text(self, *args, **options):
        p = args[:-1]
        for i, q in enumerate(self.points):
            if all([p[k] == q[k] for k in range(len(q))]):
                self.texts[i] += 1
                vh.check(args[-1].strip() == str(i + 1), 'label')
        return 'label'

    def set(self, **options):
        pass

    def set_aspect(self, *args):
        pass


def slice(n, d, dims, name):
    """a chain of events at a time"""
    c = [[vh.real(-2.0, 2.0) for k in range(d)] for i in range(n)]
    if n > 2:
        # separate links
        c = [[p[0], 0.3 * i * i] for i, p in enumerate(c)]
    t = vh.real(-2.0, 2.0)
    # the second time is for cones only
    late = vh.real(-2.0, 2.0)
    depth = vh.real(-2.0, 2.0)
    linked = vh.boolean()
    width = vh.real(0.5, 3.0)
    show = [vh.boolean() for i in range(3)]
    vh.assume(depth >= 0.25 or depth <= -0.25)
    for p in c:
        vh.assume(abs(p[0] - t) >= 0.01)
        vh.assume(abs(p[0] - t - depth) >= 0.01)
    for i in range(n):
        for j in range(i):
            # one behind another
            vh.assume(any([abs(c[i][k] - c[j][k]) >= 0.1 for k in dims]))
            vh.assume(abs(c[i][0] - c[j][0]) >= 0.1)
    E = []
    for i in range(n):
        E.append(CausetEvent(label=i + 1, coordinates=c[i],
                             past=[a for a in E if linked]))
    draw(E, d, dims, c, t, late, depth, name, linked, width, show)


def draw(E, d, dims, c, t, late, depth, name, linked, width, show):
    points = [[p[k] for k in dims] for p in c]
    fade, lines = expected(c, points, t, depth, name)
    A = Screen(points, lines, fade, width)
    H = cplt.plot(E, A, FlatSpacetime(d), dims=list(dims), time=[t, late],
                  timedepth=depth, timefade=name,
                  links=dict(linewidth=width) if show[0] else False,
                  events=show[1], labels=show[2])
    check_slice(A, H, linked, show)


def expected(c, points, t, depth, name):
    """opacity of the events and all possible lines between them"""
    n = len(c)
    dim = len(points[0])
    D = [p[0] - t for p in c]
    fade = [faded(name, dim, v, depth, 1.0) for v in D]
    lines = []
    for i in range(n - 1):
        j = i + 1
        a, b = points[i], points[j]
        # where the link passes the time
        x = D[i] / (D[i] - D[j])
        m = [a[k] + x * (b[k] - a[k]) for k in range(dim)]
        both = fade[i] > 0.0 and fade[j] > 0.0
        first = D[i] * depth > 0.0 > D[j] * depth and fade[i] > 0.0
        second = D[j] * depth > 0.0 > D[i] * depth and fade[j] > 0.0
        lines.append((a, b, False, fade[i] if abs(D[i]) > abs(D[j])
                      else fade[j], both))
        lines.append((a, m, True, fade[i], first))
        lines.append((b, m, True, fade[j], second))
    return fade, lines


def check_slice(A, H, linked, show):
    n, lines, fade = len(A.points), A.lines, A.alphas
    total = 0
    for i in range(len(lines)):
        k = 1 if linked and show[0] and lines[i][4] else 0
        vh.check(A.drawn[i] == k, 'links up to the time slice')
        total += k
    for i in range(n):
        vh.check(A.dots[i] == (1 if show[1] and fade[i] > 0.0 else 0),
                 'visible events')
        vh.check(A.texts[i] == (1 if show[2] and fade[i] > 0.0 else 0),
                 'visible labels')
    vh.check(('links' in H) == show[0] and ('events' in H) == show[1]
             and ('labels' in H) == show[2], 'what is returned')
    if show[0]:
        vh.check(sum([0 if x is None else 1 for x in H['links']]) == total,
                 'lines are returned')
    if show[1]:
        vh.check(all([(H['events'][i] is not None) == (fade[i] > 0.0)
                      for i in range(n)]), 'markers are returned')
    if show[2]:
        vh.check(all([(H['labels'][i] is not None) == (fade[i] > 0.0)
                      for i in range(n)]), 'labels are returned')


def again(n, d, dims):
    """one plotter for several times"""
    c = [[vh.real(-2.0, 2.0) for k in range(d)] for i in range(n)]
    T = [vh.real(-2.0, 2.0), vh.real(-2.0, 2.0)]
    depth = vh.real(-2.0, 2.0)
    linked = vh.boolean()
    vh.assume(depth >= 0.25 or depth <= -0.25)
    for p in c:
        for t in T:
            vh.assume(abs(p[0] - t) >= 0.01)
            vh.assume(abs(p[0] - t - depth) >= 0.01)
    for i in range(n):
        for j in range(i):
            vh.assume(any([abs(c[i][k] - c[j][k]) >= 0.1 for k in dims]))
            vh.assume(abs(c[i][0] - c[j][0]) >= 0.1)
    E = []
    for i in range(n):
        E.append(CausetEvent(label=i + 1, coordinates=c[i],
                             past=[a for a in E if linked]))
    points = [[p[k] for k in dims] for p in c]
    A = Screen(points, [], [], 1.0)
    P = cplt.Plotter(E, A, spacetime=FlatSpacetime(d), dims=list(dims),
                     timedepth=depth, timefade='linear',
                     links=dict(linewidth=1.0))
    results = []
    for t in T:
        fade, lines = expected(c, points, t, depth, 'linear')
        A.__init__(points, lines, fade, 1.0)
        H = P([t, t])
        check_slice(A, H, linked, [True] * 3)
        results.append((H, fade))
    for H, fade in results:
        vh.check(all([(H['events'][i] is not None) == (fade[i] > 0.0)
                      for i in range(n)]), 'results stay')


class Spy(Spacetime):

    def __init__(self):
        super().__init__()
        self._dim = 3
        self.alpha = {}

    def ConePlotter(self, dims, plotting_params, timesign, axes=None,
                    dynamicAlpha=None, samplingsize=-1):
        self.alpha[timesign] = (dynamicAlpha, dict(plotting_params))
        return lambda origin, timeslice: None


def cones():
    """opacity of cones"""
    r = vh.real(0.0, 4.0)
    depth = vh.real(-2.0, 2.0)
    a = vh.real(0.1, 1.0)
    name = vh.integer(0, 3)
    space = vh.boolean()
    past = vh.boolean()
    vh.assume(depth >= 0.25 or depth <= -0.25)
    D = [0, 1, 2] if space else [2, 0]
    S = Spy()
    fade = ['', 'linear', 'intensity', None][name]
    options = dict(dims=D)
    if fade is not None:
        options.update(conetimefade=fade, conetimedepth=depth)
    options['pastcones' if past else 'futurecones'] = dict(alpha=a)
    cplt.plot([], Screen([], [], [], 0.0), S, **options)
    vh.check(len(S.alpha) == 1, 'one kind of cones')
    f, p = S.alpha[-1 if past else 1]
    vh.check(near(p['alpha'], a), 'opacity')
    if name == 0:
        vh.check(f is None, 'no fading')
    else:
        vh.check(near(f(r), faded('linear' if name == 1 else 'intensity',
                                  len(D), r, abs(depth), a)), 'fading')
