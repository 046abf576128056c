from common import *
import numpy as np
import causets.causetplotting as cplt
from causets.embeddedcauset import EmbeddedCauset
from causets.shapes import CoordinateShape
from causets.spacetimes import Spacetime, FlatSpacetime

CASES = [
    dict(fn='static', params=dict(n=3, d=2, dims=[[1, 0], [0, 1]]),
         tier='quick'),
    dict(fn='static', params=dict(n=3, d=3, dims=[[2, 1], [0, 2]]),
         tier='quick'),
    dict(fn='static', params=dict(n=3, d=3, dims=[[1, 2, 0], [2, 0, 1]]),
         tier='quick'),
    dict(fn='listed', params=dict(n=4), tier='quick'),
    dict(fn='embedded', params=dict(n=3), tier='quick'),
    dict(fn='through', params=dict(d=2, dims=[1, 0]), tier='quick'),
    dict(fn='through', params=dict(d=3, dims=[0, 2, 1]), tier='quick'),
    dict(fn='row', params=dict(n=4, steps=[[1, 0], [0, 1], [1, -1]]),
         tier='quick'),
    dict(fn='row', params=dict(n=4, steps=[[1, 0, 0], [0, 1, 0], [0, 0, 1],
                                           [-1, 1, 2]]),
         tier='quick', extra=True),
    dict(fn='diagram', params=dict(n=4), tier='quick'),
    dict(fn='cones', params=dict(n=2), tier='quick'),
    dict(fn='axes', params=dict(), tier='quick'),
    dict(fn='static', params=dict(n=4, d=4, dims=[[3, 1], [3, 0, 2]]),
         tier='thorough'),
    dict(fn='listed', params=dict(n=5), tier='thorough'),
    dict(fn='diagram', params=dict(n=6), tier='thorough'),
    dict(fn='cones', params=dict(n=3), tier='thorough'),
]
EPS = 1e-6


class Artist:
    """something drawn: its kind, the events at its ends, its options"""

    def __init__(self, kind, a, b, options):
        self.kind, self.a, self.b, self.options = kind, a, b, options


class Canvas:
    """records what is drawn at which of the events"""

    def __init__(self, points, dims, labels=None):
        self.points = [[p[k] for k in dims] for p in points]
        n = len(points)
        self.labels = labels or [str(i + 1) for i in range(n)]
        self.lines = [[0] * n for i in range(n)]
        self.dots = [0] * n
        self.texts = [0] * n
        self.limits = {}
        self.aspect = None
        self.off = 0

    def number(self, p):
        """number of the event at p"""
        for i, q in enumerate(self.points):
            if all([p[k] == q[k] for k in range(len(q))]):
                return i
        vh.check(False, 'drawn at an event')
        return 0

    def plot(self, *XYZ, **options):
        d = len(self.points[0])
        vh.check(len(XYZ) == d, 'dimensions of the plot')
        m = len(XYZ[0])
        vh.check(all([len(X) == m for X in XYZ]), 'vertices')
        a = self.number([X[0] for X in XYZ])
        if m == 1:
            self.dots[a] += 1
            return [Artist('event', a, a, options)]
        b = self.number([X[-1] for X in XYZ])
        if a == b:
            vh.check(False, 'line between two events')
        p, q = self.points[a], self.points[b]
        for k in range(1, m):
            vh.check(all([p[i] <= XYZ[i][k - 1] <= XYZ[i][k] <= q[i] or
                          p[i] >= XYZ[i][k - 1] >= XYZ[i][k] >= q[i]
                          for i in range(d)]), 'along the line in order')
        for k in range(1, m - 1):
            r = [X[k] for X in XYZ]
            self.number(r)
            vh.check(all([p[i] <= r[i] <= q[i] or p[i] >= r[i] >= q[i]
                          for i in range(d)]), 'between the ends')
            for i in range(d):
                j = (i + 1) % d
                vh.check(-EPS <= (r[i] - p[i]) * (q[j] - r[j])
                         - (r[j] - p[j]) * (q[i] - r[i]) <= EPS,
                         'along the straight line')
        self.lines[a][b] += 1
        return [Artist('link', a, b, options)]

    def text(self, *args, **options):
        p, s = args[:-1], args[-1]
        vh.check(len(p) == len(self.points[0]), 'dimensions of the plot')
        i = self.number(p)
        vh.check(s.strip() == self.labels[i], 'label')
        self.texts[i] += 1
        return Artist('label', i, i, options)

    def set(self, **options):
        self.limits.update(options)

    def set_aspect(self, *args):
        self.aspect = list(args)

    def set_axis_off(self):
        self.off += 1


def apart(c, D):
    n = len(c)
    return all([any([c[i][k] - c[j][k] >= 0.01 or c[j][k] - c[i][k] >= 0.01
                     for k in D]) for i in range(n) for j in range(i)])


def check_plot(A, H, L, S, show):
    """lines for the links L, markers and labels for the events S"""
    n = len(L)
    count = 0
    for i in range(n):
        for j in range(i):
            k = 1 if show[0] and S[i] and S[j] and (L[i][j] or L[j][i]) else 0
            vh.check(A.lines[i][j] + A.lines[j][i] == k,
                     'one line for every link')
            count += k
        vh.check(A.dots[i] == (1 if show[1] and S[i] else 0),
                 'one marker for every event')
        vh.check(A.texts[i] == (1 if show[2] and S[i] else 0),
                 'one label for every event')
    vh.check(('links' in H) == show[0] and ('events' in H) == show[1]
             and ('labels' in H) == show[2], 'what is returned')
    if show[0]:
        vh.check(len(H['links']) == count and all([
            h is not None and h[0].kind == 'link' for h in H['links']]),
            'lines are returned')
    vh.check('pastcones' not in H and 'futurecones' not in H, 'no cones')


def check_events(H, show, numbers):
    """artists are returned in the order of the events"""
    if show[1]:
        vh.check([h[0].a for h in H['events']] == numbers,
                 'markers are returned')
    if show[2]:
        vh.check([h.a for h in H['labels']] == numbers,
                 'labels are returned')


def static(n, d, dims):
    R = vh.poset(n, natural=True)
    c = [[vh.real(-2.0, 2.0) for k in range(d)] for i in range(n)]
    show = [vh.boolean() for i in range(3)]
    case = vh.integer(0, len(dims) - 1)
    for i, D in enumerate(dims):
        if case == i:
            draw(n, d, R, c, show, D)


def beside(c, D):
    """no event within the box of two others (see `through`)"""
    n = len(c)
    return all([any([c[i][k] < c[j][k] and c[i][k] < c[h][k]
                     or c[i][k] > c[j][k] and c[i][k] > c[h][k] for k in D])
                for i in range(n) for j in range(n) for h in range(j)
                if i != j and i != h])


def draw(n, d, R, c, show, D):
    vh.assume(apart(c, D))
    if len(D) > 2 or n > 3:
        vh.assume(beside(c, D))
    E = events(R)
    for i in range(n):
        E[i].embed(c[i], reembed=True)
    A = Canvas(c, D)
    dims = list(D)
    H = cplt.plot(E, A, FlatSpacetime(d), dims=dims, links=show[0],
                  events=show[1], labels=show[2])
    check_plot(A, H, links(R), [True] * n, show)
    check_events(H, show, list(range(n)))
    vh.check(dims == D and all([list(E[i].Coordinates) == c[i]
                                for i in range(n)]), 'inputs')


def listed(n):
    """some of the events of a causal set in any order, at their positions"""
    R = vh.poset(n, natural=True)
    S = subset(n)
    show = [vh.boolean() for i in range(3)]
    back = vh.boolean()
    c = [[0.5 * i, 1.0 * (i * i % 5)] for i in range(n)]
    # any labels
    names = [[0, '', -1, 'a', 2.5][i] for i in range(n)]
    E = []
    for j in range(n):
        E.append(CausetEvent(label=names[j],
                             past={E[i] for i in range(j) if R[i][j]}))
    for i in range(n):
        E[i].Position = c[i]
    F = [E[i] for i in range(n) if S[i]]
    if back:
        F = F[::-1]
    names = [str(s) for s in names]
    A = Canvas(c, [1, 0], names)
    H = cplt.Plotter(F, A, links=show[0], events=show[1],
                     labels=show[2])([0.0])
    check_plot(A, H, links(R), S, show)
    one = vh.integer(0, n - 1)
    A = Canvas(c, [0, 1], names)
    H = cplt.plot(E[one], A, dims=[0, 1], links=show[0], events=show[1],
                  labels=show[2])
    check_plot(A, H, links(R), [i == one for i in range(n)], show)


def embedded(n):
    """causal sets with coordinates"""
    c = [[vh.real(-1.0, 1.0), vh.real(-1.0, 1.0)] for i in range(n)]
    show = [vh.boolean() for i in range(3)]
    vh.assume(apart(c, [0, 1]))
    for i in range(n):
        for j in range(i):
            t, x = c[i][0] - c[j][0], c[i][1] - c[j][1]
            vh.assume(abs(abs(t) - abs(x)) >= 0.001)
    C = EmbeddedCauset(coordinates=c)
    A = Canvas(c, [1, 0])
    H = cplt.plot(C, A, links=show[0], events=show[1], labels=show[2])
    R = [[c[j][0] - c[i][0] >= abs(c[j][1] - c[i][1]) and i != j
          for j in range(n)] for i in range(n)]
    check_plot(A, H, links(R), [True] * n, show)


def through(d, dims):
    """links through other events"""
    R = vh.poset(4, natural=True)
    c = [[vh.integer(0, 2) for k in range(d)] for i in range(4)]
    vh.assume(apart(c, dims))
    E = events(R)
    for i in range(4):
        E[i].embed([float(x) for x in c[i]], reembed=True)
    A = Canvas(c, dims)
    show = [True, True, True]
    H = cplt.plot(E, A, FlatSpacetime(d), dims=list(dims))
    check_plot(A, H, links(R), [True] * 4, show)


def row(n, steps):
    """events on a straight line, in any order"""
    R = vh.poset(n, natural=True)
    p = vh.perm(n)
    way = vh.integer(0, len(steps) - 1)
    for k, s in enumerate(steps):
        if way == k:
            draw_row(n, R, p, s)


def draw_row(n, R, p, s):
    d = len(s)
    E = events(R)
    c = [[float(p[i] * x) for x in s] for i in range(n)]
    for i in range(n):
        E[i].embed(c[i], reembed=True)
    A = Canvas(c, list(range(d)))
    H = cplt.plot(E, A, FlatSpacetime(d), dims=list(range(d)))
    check_plot(A, H, links(R), [True] * n, [True, True, True])


def diagram(n):
    """Hasse diagrams of 2D orders"""
    P = [p + 1 for p in vh.perm(n)]
    E = Causet.FromPermutation(P).sortedByLabels()
    # light cone coordinates
    u = list(range(n))
    v = [P.index(i + 1) for i in range(n)]
    w = [(i, P.index(i + 1)) for i in range(n)]
    A = Hasse(n)
    H = cplt.plotDiagram(E, P, A)
    vh.check(A.off == 1, 'no axes')
    vh.check(len(A.dots) == n and len(H['events']) == n, 'markers')
    for i in range(n):
        x, t = A.dots[i]
        vh.check(list(E[i].Position) == [t, x], 'position')
        for j in range(n):
            y, s = A.dots[j]
            vh.check((t < s and abs(x - y) < s - t)
                     == (E[i] < E[j]), 'order of the diagram')
    count = 0
    for i in range(n):
        for j in range(n):
            if E[i].isFutureLink(E[j]):
                count += 1
                vh.check(any([l == (A.dots[i], A.dots[j]) or
                              l == (A.dots[j], A.dots[i])
                              for l in A.lines]), 'links')
    vh.check(len(A.lines) == count, 'number of links')


class Hasse:

    def __init__(self, n):
        self.dots = []
        self.lines = []
        self.off = 0

    def plot(self, X, Y, **options):
        if len(X) == 1:
            self.dots.append((X[0], Y[0]))
        else:
            self.lines.append(((X[0], Y[0]), (X[-1], Y[-1])))
        return [0]

    def text(self, x, y, s, **options):
        vh.check((x, y) == self.dots[int(s.strip()) - 1], 'labels')
        return 0

    def set(self, **options):
        vh.check(len(options) == 0, 'limits')

    def set_aspect(self, *args):
        pass

    def set_axis_off(self):
        self.off += 1


class Spy(Spacetime):
    """records the cones that are requested"""

    def __init__(self, past, future):
        super().__init__()
        self._dim = 3
        self.cones = []
        self.none = {-1: past, 1: future}

    def ConePlotter(self, dims, plotting_params, timesign, axes=None,
                    dynamicAlpha=None, samplingsize=-1):
        def cone(origin, timeslice):
            if self.none[timesign]:
                return None
            self.cones.append((timesign, list(dims), list(origin), timeslice,
                               axes, plotting_params, dynamicAlpha))
            return (timesign, len(self.cones) - 1)
        return cone


def cones(n):
    """cones of all events up to the requested times"""
    c = [[vh.real(-2.0, 2.0) for k in range(3)] for i in range(n)]
    t0 = vh.real(-2.0, 2.0)
    t1 = vh.real(-2.0, 2.0)
    kind = vh.integer(0, 4)
    past = vh.boolean()
    future = vh.boolean()
    hide = [vh.boolean(), vh.boolean()]
    space = vh.boolean()
    vh.assume(apart(c, [0, 1, 2]))
    E = [CausetEvent(label=i + 1, coordinates=c[i]) for i in range(n)]
    S = Spy(hide[0], hide[1])
    if space:
        D = [1, 0, 2]
        A = Canvas(c, D)
    else:
        D = [2, 0]
        A = Canvas(c, [0, 1, 2])
    options = dict(dims=D, links=False, events=False, labels=False,
                   pastcones=past, futurecones=future)
    if kind == 0:
        H = cplt.Plotter(E, A, S, **options)([t0, t1])
    elif kind == 1:
        H = cplt.Plotter(E, A, S, **options)(np.array([t0, t1]))
    elif kind == 2:
        vh.assume(t0 == t1)
        H = cplt.Plotter(E, A, S, **options)([t0])
    elif kind == 3:
        H = cplt.plot(E, A, S, time=[t0, t1], **options)
    else:
        vh.assume(t0 == t1)
        H = cplt.plot(E, A, S, time=t0, **options)
    vh.check(('pastcones' in H) == past and ('futurecones' in H) == future,
             'what is returned')
    for sign, on, none, t, key in ((-1, past, hide[0], t0, 'pastcones'),
                                   (1, future, hide[1], t1, 'futurecones')):
        L = [x for x in S.cones if x[0] == sign]
        vh.check(len(L) == (n if on and not none else 0), 'number of cones')
        if on:
            vh.check(len(H[key]) == len(L) and all([
                h[0] == sign for h in H[key]]), 'cones are returned')
        for i, x in enumerate(L):
            vh.check(x[1] == D and x[4] is A, 'plot')
            vh.check(x[2] == c[i], 'origin')
            vh.check(x[3] == t, 'time slice')


def axes():
    """limits of the plot"""
    given = vh.boolean()
    box = vh.boolean()
    space = vh.boolean()
    x = [vh.real(-2.0, 2.0) for i in range(6)]
    asp = vh.boolean()
    embed = vh.boolean()
    S = CoordinateShape(3, 'cuboid', center=x[:3],
                        edges=[2.0, 4.0, 3.0])
    D = [1, 0, 2] if space else [2, 0]
    options = dict(dims=D)
    if given:
        options['axislim'] = dict(xlim=(x[0], x[1]), ylim=(x[2], x[3]),
                                  zlim=(x[4], x[5]))
    elif box:
        options['axislim'] = 'shape'
        options['shape'] = S
    if asp:
        options['aspect'] = ['auto']
    A = Canvas([[0.0] * 3], D)
    if embed and space and not given and not box:
        C = EmbeddedCauset(shape=S, coordinates=[[0.0, 0.0, 0.0]])
        options['axislim'] = 'shape'
        cplt.plot(C, A, labels=False, events=False, **options)
        box = True
    else:
        cplt.plot([], A, FlatSpacetime(3), **options)
    if given:
        want = [(x[0], x[1]), (x[2], x[3]), (x[4], x[5])]
    elif space:
        want = [(x[k] - 2.0, x[k] + 2.0) for k in D]
    else:
        want = [(x[2] - 1.5, x[2] + 1.5), (x[0] - 1.0, x[0] + 1.0)]
    if given or box:
        vh.check(len(A.limits) == len(D), 'limits')
        for k, key in enumerate(('xlim', 'ylim', 'zlim')[:len(D)]):
            a, b = A.limits[key]
            vh.check(abs(a - want[k][0]) <= EPS and
                     abs(b - want[k][1]) <= EPS, 'limits')
    else:
        vh.check(len(A.limits) == 0, 'limits')
    if space:
        vh.check(A.aspect is None, 'aspect')
    else:
        vh.check(A.aspect == (['auto'] if asp else ['equal', 'box']),
                 'aspect')
