from common import *
from outlines import *
import numpy as np
import causets.shapes as shp
import causets.calculations as calc
import causets.spacetimes as st
from causets.spacetimes import (BlackHoleSpacetime, FlatSpacetime,
                                deSitterSpacetime)

CASES = [
    dict(fn='flat', params=dict(d=2, dims=[[0, 1], [1, 0]], s=4),
         tier='quick'),
    dict(fn='flat', params=dict(d=3, dims=[[0, 2], [1, 0], [0, 1], [2, 0]],
                                s=4), tier='quick'),
    dict(fn='flat', params=dict(d=3, dims=[[1, 2]], s=4), tier='quick'),
    dict(fn='flat', params=dict(d=3, dims=[[2, 1]], s=4), tier='quick'),
    dict(fn='flat', params=dict(d=3, dims=[[1, 2], [2, 1]], s=6),
         tier='thorough'),
    dict(fn='flat', params=dict(d=3, dims=[[0, 1, 2], [1, 0, 2], [2, 1, 0]],
                                s=4), tier='quick'),
    dict(fn='flat', params=dict(d=4, dims=[[3, 1, 0], [2, 0, 3], [0, 3, 1],
                                           [1, 2, 0]], s=4),
         tier='thorough'),
    dict(fn='flat', params=dict(d=4, dims=[[1, 2, 3], [3, 1, 2]], s=4),
         tier='thorough'),
    dict(fn='ball', params=dict(s=4), tier='quick'),
    dict(fn='uniform', params=dict(d=3, s=4), tier='quick'),
    dict(fn='de_sitter', params=dict(alpha=1.0, s=3), tier='quick'),
    dict(fn='de_sitter', params=dict(alpha=0.5, s=4), tier='quick'),
    dict(fn='de_sitter', params=dict(alpha=2.0, s=5), tier='thorough'),
    dict(fn='centre', params=dict(d=3, D=[1, 2], alpha=0.5, s=4),
         tier='quick'),
    dict(fn='centre', params=dict(d=3, D=[2, 0], alpha=1.0, s=4),
         tier='quick'),
    dict(fn='centre', params=dict(d=3, D=[1, 0, 2], alpha=0.5, s=4),
         tier='quick'),
    dict(fn='centre', params=dict(d=4, D=[3, 1, 0], alpha=2.0, s=4),
         tier='thorough'),
] + [
    dict(fn='black_hole', params=dict(metric=m, r_S=0.5, k=k, z=z, s=3),
         tier='quick')
    for m, k, z in (('Eddington-Finkelstein', 0, 0),
                    ('Eddington-Finkelstein', 1, 1),
                    ('Eddington-Finkelstein', 2, 1),
                    ('Schwarzschild', 0, 1), ('Schwarzschild', 2, 0))
] + [
    dict(fn='black_hole', params=dict(metric=m, r_S=1.0, k=k, z=z, s=4),
         tier='thorough')
    for m, k, z in (('Eddington-Finkelstein', 0, 1),
                    ('Eddington-Finkelstein', 1, 0),
                    ('Eddington-Finkelstein', 2, 0),
                    ('Schwarzschild', 0, 0), ('Schwarzschild', 2, 1))
]


class Opacity:
    """records the sizes of cones"""

    def __init__(self, alpha):
        self.alpha = alpha
        self.sizes = []

    def of(self, r):
        self.sizes.append(r)
        return self.alpha


def flat(d, dims, s):
    o = [vh.real(-2.0, 2.0) for i in range(d)]
    t = vh.real(-4.0, 4.0)
    k = [vh.real(0.25, 2.0) for i in range(d - 1)]
    flags = [vh.boolean() for i in range(d - 1)]
    future = vh.boolean()
    dyn = vh.boolean()
    alpha = vh.real(-1.0, 1.0)
    case = vh.integer(0, len(dims) - 1)
    vh.assume(t - o[0] >= 0.01 or o[0] - t >= 0.01)
    for i, D in enumerate(dims):
        if case == i:
            split(lambda P: draw(d, o, t, P, future, dyn, alpha, D, s),
                  k, flags, D, ())


def split(f, k, flags, D, P):
    """case distinction on the periodic directions that are drawn"""
    i = len(P)
    if i == len(k):
        f(P)
    elif i + 1 in D:
        if flags[i]:
            split(f, k, flags, D, P + (k[i],))
        else:
            split(f, k, flags, D, P + (0.0,))
    else:
        split(f, k, flags, D, P + (k[i],))


def draw(d, o, t, P, future, dyn, alpha, D, s):
    S = FlatSpacetime(d, period=P)
    axes = Axes()
    A = Opacity(alpha)
    sign = 1.0 if future else -1.0
    f = S.ConePlotter(list(D), {'alpha': 0.25}, sign, axes,
                      A.of if dyn else None, s)
    check_cones(f, axes, A, d, o, t, P, future, dyn, alpha, D, s)


def check_cones(f, axes, A, d, o, t, P, future, dyn, alpha, D, s):
    O = np.array(o)
    L = f(O, t)
    vh.check(same(O, o), 'the origin is left alone')
    r = t - o[0] if future else o[0] - t
    n = len(D)
    if r <= 0.0 or dyn and alpha <= 0.0:
        vh.check(L is None, 'no cone')
        vh.check(len(axes.patches) + len(axes.surfaces) == 0,
                 'nothing is drawn')
        if r > 0.0:
            vh.check(all([near(x, r) for x in A.sizes]), 'size of the cone')
        return
    vh.check(L is not None, 'a cone')
    if dyn:
        vh.check(len(A.sizes) > 0 and all([near(x, r) for x in A.sizes]),
                 'size of the cone')
    a = alpha if dyn else 0.25
    T = [P[i - 1] if i > 0 else 0.0 for i in D]
    O = [o[i] for i in D]
    if n == 2:
        vh.check(len(axes.patches) == 1 and axes.patches[0] is L,
                 'the returned patch is drawn')
        vh.check(len(axes.surfaces) == 0, 'nothing else is drawn')
        vh.check(near(L.get_alpha(), a), 'opacity')
        parts = pieces(L.get_xy())
        parts = closing(parts)
        if 0 in D:
            tips = [triangle(p, D.index(0), O, t, r) for p in parts]
        else:
            tips = [circle(p, r, s) for p in parts]
    else:
        vh.check(len(axes.patches) == 0, 'nothing else is drawn')
        vh.check(len(axes.surfaces) == len(L) and all([
            axes.surfaces[i][k] is L[i][k] for i in range(len(L))
            for k in range(3)]), 'the returned surfaces are drawn')
        for X in axes.surfaces:
            vh.check(near(X[3]['alpha'], a), 'opacity')
        if 0 in D:
            tips = [opening(X, D.index(0), t, r, s) for X in L]
        else:
            tips = [sphere(X, r, s) for X in L]
    shifts = [()]
    for p in T:
        shifts = [x + (y,) for x in shifts
                  for y in ([-p, 0.0, p] if p > 0.0 else [0.0])]
    vh.check(len(tips) == len(shifts), 'number of copies')
    for x in shifts:
        y = [O[i] + x[i] for i in range(n)]
        vh.check(sum([1 if same(p, y) else 0 for p in tips]) == 1,
                 'one copy for every period')


def triangle(p, z, O, t, r):
    """light cone in a plane with time axis z; returns the tip"""
    x = 1 - z
    vh.check(len(p) == 4 and same(p[0], p[3]), 'closed triangle')
    # the corner whose time is that of the origin
    k = 0 if near(p[0][z], O[z]) else 1 if near(p[1][z], O[z]) else 2
    tip, a, b = p[k], p[(k + 1) % 3], p[(k + 2) % 3]
    vh.check(near(a[z], t) and near(b[z], t), 'up to the time slice')
    vh.check(near(a[x], tip[x] - r) and near(b[x], tip[x] + r)
             or near(a[x], tip[x] + r) and near(b[x], tip[x] - r),
             'along the light rays')
    return tip


def circle(p, r, s):
    n = len(p) - 1
    vh.check(n == s, 'sampling size')
    c = ((p[0][0] + p[n // 2][0]) / 2, (p[0][1] + p[n // 2][1]) / 2)
    check_ellipse(p, c, r, r, n, 'slice of the light cone')
    return c


def opening(X, z, t, r, s):
    G = grid(X)
    tip = G[0][0]
    check_cone(X, tip, r, t - tip[z], z, s, 'light cone')
    vh.check(near(t - tip[z], r) or near(tip[z] - t, r), 'light rays')
    return tip


def sphere(X, r, s):
    G = grid(X)
    c = tuple([(G[0][0][i] + G[0][-1][i]) / 2 for i in range(3)])
    check_ball(X, c, r, s, 'slice of the light cone')
    return c


def ball(s):
    flat(4, [[1, 2, 3]], s)


def uniform(d, s):
    """one period for all directions, or none"""
    o = [vh.real(-2.0, 2.0) for i in range(d)]
    t = vh.real(-4.0, 4.0)
    k = vh.real(-1.0, 2.0)
    future = vh.boolean()
    vh.assume(k >= 0.25 or k <= 0.0)
    vh.assume(t - o[0] >= 0.01 or o[0] - t >= 0.01)
    if k > 0.0:
        P = (k,) * (d - 1)
    else:
        P = (0.0,) * (d - 1)
    for D in ([0, 1], [2, 1], [1, 0, 2]):
        S = FlatSpacetime(d, period=k)
        axes = Axes()
        A = Opacity(1.0)
        f = S.ConePlotter(D, {'alpha': 0.25}, 1.0 if future else -1.0, axes,
                          samplingsize=s)
        if k > 0.0:
            check_cones(f, axes, A, d, o, t, P, future, False, 1.0, D, s)
        else:
            check_cones(f, axes, A, d, o, t, P, future, False, 1.0, D, s)


def de_sitter(alpha, s):
    """2D: along the light rays of the static patch"""
    inside = vh.real(-0.99, 0.99)
    beyond = vh.real(1.01, 2.0)
    patch = vh.boolean()
    left = vh.boolean()
    t0 = vh.real(-1.0, 1.0)
    h = vh.real(-2.0, 2.0)
    future = vh.boolean()
    dyn = vh.boolean()
    a = vh.real(-1.0, 1.0)
    first = vh.boolean()
    vh.assume(not -0.01 < h < 0.01)
    for z in (0, 1):
        if first == (z == 0):
            if patch:
                ds_cone(alpha, s, inside * alpha, True, t0, h, future, dyn,
                        a, z)
            elif left:
                ds_cone(alpha, s, -beyond * alpha, False, t0, h, future, dyn,
                        a, z)
            else:
                ds_cone(alpha, s, beyond * alpha, False, t0, h, future, dyn,
                        a, z)


def ds_cone(alpha, s, x, patch, t0, h, future, dyn, a, z):
    axes = Axes()
    A = Opacity(a)
    t = t0 + h
    S = deSitterSpacetime(2, alpha)
    f = S.ConePlotter([z, 1 - z], {'alpha': 0.25}, 1.0 if future else -1.0,
                      axes, A.of if dyn else None, s)
    p = f(np.array([t0, x]), t)
    r = h if future else -h
    if r <= 0.0 or dyn and a <= 0.0 or not patch:
        vh.check(p is None, 'no cone')
        vh.check(len(axes.patches) + len(axes.surfaces) == 0,
                 'nothing is drawn')
        return
    vh.check(len(axes.patches) == 1 and axes.patches[0] is p,
             'the returned patch is drawn')
    vh.check(near(p.get_alpha(), a if dyn else 0.25), 'opacity')
    P = closing(pieces(p.get_xy()))
    vh.check(len(P) == 1, 'one part')
    P = [(v, w) if z == 1 else (w, v) for v, w in P[0]]
    if len(P) > 2 * s - 1:
        vh.check(same(P[-1], P[0]), 'closed')
        P = P[:-1]
    vh.check(len(P) == 2 * s - 1, 'sampling size')
    n = len(P)
    for i in range(n):
        k = i if i < s else n - i
        vh.check(near(P[i][1], t0 + h * k / (s - 1)), 'times')
        # embedding time difference of light rays: their coordinates satisfy
        # artanh(v / alpha) - artanh(x / alpha) = +-(time difference) / alpha
        w = math.tanh((P[i][1] - t0) / alpha)
        v, e = P[i][0] / alpha, x / alpha
        if k > 0:
            left = near(v - e, w * (1 - v * e))
            right = near(e - v, w * (1 - v * e))
            vh.check(left or right, 'light rays')
            vh.check(v > -1.0 and v < 1.0, 'within the horizon')
            m = n - i
            vh.check((v - e) * (P[m][0] / alpha - e) < 0.0,
                     'one light ray to each side')
        else:
            vh.check(near(v, e), 'tip')


def centre(d, D, alpha, s):
    """from the centre of a de Sitter spacetime: a circle around it"""
    D = list(D)
    t0 = vh.real(-1.0, 1.0)
    h = vh.real(-2.0, 2.0)
    dyn = vh.boolean()
    a = vh.real(-1.0, 1.0)
    vh.assume(not -0.01 < h < 0.01)
    if h > 0:
        centre_cone(d, D, alpha, s, t0, h, 1.0, dyn, a)
    else:
        centre_cone(d, D, alpha, s, t0, h, -1.0, dyn, a)


def centre_cone(d, D, alpha, s, t0, h, sign, dyn, a):
    S = deSitterSpacetime(d, alpha)
    axes = Axes()
    A = Opacity(a)
    f = S.ConePlotter(list(D), {'alpha': 0.25}, sign, axes,
                      A.of if dyn else None, s)
    o = np.zeros((d,))
    o[0] = t0
    L = f(o, t0 + h)
    if dyn and a <= 0.0:
        vh.check(L is None, 'no cone')
        vh.check(len(axes.patches) + len(axes.surfaces) == 0,
                 'nothing is drawn')
        return
    r = alpha * math.tanh(h * sign / alpha)
    if len(D) == 3:
        vh.check(len(axes.surfaces) == 1 and len(L) == 1,
                 'the returned surface is drawn')
        vh.check(near(axes.surfaces[0][3]['alpha'], a if dyn else 0.25),
                 'opacity')
        z = D.index(0)
        G = grid(axes.surfaces[0][:3])
        vh.check(len(G) == s, 'sampling size')
        x, y = (z + 1) % 3, (z + 2) % 3
        for i in range(s):
            vh.check(len(G[i]) == s + 1, 'sampling size')
            vh.check(near(G[i][0][z], t0 + h * i / (s - 1)), 'times')
            r = alpha * math.tanh((G[i][0][z] - t0) * sign / alpha)
            for p in G[i]:
                vh.check(near(p[z], G[i][0][z]), 'times')
                vh.check(near(sq(p[x]) + sq(p[y]), r * r), 'light rays')
            if i > 0:
                turn([(p[x], p[y]) for p in G[i]], (0.0, 0.0), s,
                     'around the centre')
        return
    vh.check(len(axes.patches) == 1 and axes.patches[0] is L,
             'the returned patch is drawn')
    vh.check(near(L.get_alpha(), a if dyn else 0.25), 'opacity')
    P = closing(pieces(L.get_xy()))
    vh.check(len(P) == 1, 'one part')
    if 0 not in D:
        check_ellipse(P[0], (0.0, 0.0), r, r, s, 'slice of the light cone')
        return
    z = D.index(0)
    P = P[0][:2 * s - 1]
    vh.check(len(P) == 2 * s - 1, 'sampling size')
    vh.check(near(P[0][z], t0) and near(P[0][1 - z], 0.0), 'tip')
    for i in range(1, 2 * s - 1):
        k = i if i < s else 2 * s - 1 - i
        vh.check(near(P[i][z], t0 + h * k / (s - 1)), 'times')
        x = P[i][1 - z]
        e = alpha * math.tanh((P[i][z] - t0) * sign / alpha)
        vh.check(near(x, e) or near(x, -e), 'light rays')
        vh.check(x * P[2 * s - 1 - i][1 - z] < 0.0, 'both sides')


def light(metric, r_S, r0, r, ingoing):
    """time that light takes from radius r0 to radius r"""
    if ingoing and metric[0] == 'E':
        return r0 - r
    x = math.log(abs((r - r_S) / (r0 - r_S)))
    if metric[0] == 'E':
        return r - r0 + 2.0 * r_S * x
    if ingoing:
        return r0 - r - r_S * x
    return r - r0 + r_S * x


def speed(metric, r_S, r, ingoing):
    """change of the time with the radius"""
    if ingoing and metric[0] == 'E':
        return -1.0
    v = 1.0 + (2.0 if metric[0] == 'E' else 1.0) * r_S / (r - r_S)
    return -v if ingoing else v


class Roots:
    """stands in for the root finding (C29): a root may be anywhere"""

    def __init__(self, metric, r_S, r0, t0, t, inner, outer):
        self.metric = metric
        self.r_S = r_S
        self.r0 = r0
        self.t0 = t0
        self.t = t
        self.inner = inner
        self.outer = outer
        self.found = []

    def find(self, f, fprime, x0, y=0.0, xmin=np.NINF, xmax=np.PINF,
             default=0.0, precission=1.0e-6, maxIterations=50):
        vh.check(near(y, self.t), 'light rays up to the time slice')
        if xmax > self.r_S:
            vh.check(near(xmin, self.r_S), 'outside the horizon')
            x = self.outer.pop()
        else:
            vh.check(near(xmax, self.r_S) and near(xmin, 0.0),
                     'inside the horizon')
            x = self.inner.pop()
        m, r_S = self.metric, self.r_S
        if near(fprime(x), speed(m, r_S, x, True)):
            self.root(f(x) - self.t0, fprime(x), x, True)
        else:
            self.root(f(x) - self.t0, fprime(x), x, False)
        return x

    def root(self, ray, slope, x, ingoing):
        m, r_S, r0 = self.metric, self.r_S, self.r0
        vh.check(near(ray, light(m, r_S, r0, x, ingoing)), 'light ray')
        vh.check(near(slope, speed(m, r_S, x, ingoing)), 'slope')
        self.found.append((x, ingoing))


class Rooted:
    """with the root finding replaced"""

    def __init__(self, roots):
        self.roots = roots

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m in (st, calc)
                    for n in ('Newton', 'NewtonsMethod') if hasattr(m, n)]
        for m, n, f in self.old:
            setattr(m, n, self.roots.find)

    def __exit__(self, *args):
        for m, n, f in self.old:
            setattr(m, n, f)


def black_hole(metric, r_S, k, z, s):
    """from inside the horizon, on it, outside"""
    r = (vh.real(0.05, 0.95) * r_S, r_S, vh.real(1.05, 4.0) * r_S)[k]
    right = vh.boolean()
    t0 = vh.real(-1.0, 1.0)
    h = vh.real(-4.0, 4.0)
    inner = [vh.real(0.05, 0.95) * r_S for i in range(2)]
    outer = [vh.real(1.05, 6.0) * r_S for i in range(2)]
    dyn = vh.boolean()
    a = vh.real(-1.0, 1.0)
    vh.assume(not -0.01 < h < 0.01)
    sign = 1.0 if right else -1.0
    for future in (False, True):
        if future == (h > 0):
            hole(metric, r_S, r, k, sign, t0, h, future, inner, outer, dyn,
                 a, z, s)


def hole(metric, r_S, r, k, sign, t0, h, future, inner, outer, dyn, a, z, s):
    if k == 1 and metric[0] == 'S':
        return
    args = metric, r_S, r, k, sign, t0, h, future, inner, outer, dyn, a, z, s
    if not future:
        if k == 0:
            # no vertex on the horizon
            for x in outer:
                for i in range(1, s - 1):
                    vh.assume(not near(x + (r - x) * i / (s - 1), r_S))
        bh_cone(*args, False, False)
        return
    # the ingoing, the outgoing light ray ends in the singularity
    t_in = light(metric, r_S, r, 0.0, True) if k != 1 else r_S
    vh.assume(not near(h, t_in))
    if k == 0:
        t_out = light(metric, r_S, r, 0.0, False)
        vh.assume(not near(h, t_out))
        if h > t_out:
            bh_cone(*args, True, True)
            return
    if h > t_in:
        bh_cone(*args, True, False)
    else:
        bh_cone(*args, False, False)


def bh_cone(metric, r_S, r, k, sign, t0, h, future, inner, outer, dyn, a, z,
            s, end_in, end_out):
    """end_in, end_out: the time slice is later than the end of the ingoing,
    outgoing light ray in the singularity"""
    t = t0 + h
    if metric[0] == 'E' and end_out:
        t = t0 + light(metric, r_S, r, 0.0, False)
    roots = Roots(metric, r_S, r, t0, t, list(inner), list(outer))
    S = BlackHoleSpacetime(2, r_S, metric)
    axes = Axes()
    A = Opacity(a)
    with Rooted(roots):
        f = S.ConePlotter([z, 1 - z], {'alpha': 0.25},
                          1.0 if future else -1.0, axes,
                          A.of if dyn else None, s)
        p = f(np.array([t0, sign * r]), t0 + h)
    if dyn and a <= 0.0:
        vh.check(p is None, 'no cone')
        vh.check(len(axes.patches) + len(axes.surfaces) == 0,
                 'nothing is drawn')
        return
    vh.check(len(axes.patches) == 1 and axes.patches[0] is p,
             'the returned patch is drawn')
    vh.check(near(p.get_alpha(), a if dyn else 0.25), 'opacity')
    parts = [[(sign * v, w) if z == 1 else (sign * w, v) for v, w in x]
             for x in pieces(p.get_xy())]
    if metric[0] == 'E':
        eddington(parts[0], r_S, r, k, t0, t, h, s, roots, end_in)
        vh.check(len(parts) == 1, 'one part')
        return
    schwarzschild(parts, r_S, r, k, t0, t, s, roots, future, end_in)


def along(X, metric, r_S, r0, t0, r, ingoing):
    """vertices on a light ray from radius r0 to radius r"""
    n = len(X) - 1
    for i in range(n + 1):
        x = r0 + (r - r0) * i / n
        vh.check(near(X[i][0], x), 'radii')
        w = light(metric, r_S, r0, X[i][0], ingoing)
        vh.check(near(X[i][1] - t0, w), 'light rays')


def eddington(X, r_S, r, k, t0, t, h, s, roots, end_in):
    vh.check(same(X[0], (r, t0)), 'from the origin')
    if k == 1:
        vh.check(len(roots.found) == 0, 'along the horizon')
        vh.check(same(X[1], (r, t)), 'along the horizon')
        X = X[1:]
    else:
        vh.check(len(roots.found) == 1 and not roots.found[0][1],
                 'one outgoing light ray')
        along(X[:s], 'Eddington-Finkelstein', r_S, r, t0,
              roots.found[0][0], False)
        X = X[s - 1:]
    if end_in:
        vh.check(len(X) >= 3, 'ingoing light ray')
        vh.check(same(X[1], (0.0, t)) and same(X[2], (0.0, t0 + r)),
                 'ingoing light ray to the singularity')
        X = X[3:]
    else:
        vh.check(same(X[1], (r - h, t)), 'ingoing light ray')
        X = X[2:]
    vh.check(len(X) <= 1, 'sampling size')
    if len(X) == 1:
        vh.check(same(X[0], (r, t0)), 'closed')


def schwarzschild(parts, r_S, r, k, t0, t, s, roots, future, end_in):
    m = 'Schwarzschild'
    last = parts[-1]
    if len(last) > (2 * s if len(parts) == 1 else s + 1):
        vh.check(same(last[-1], parts[0][0]), 'closed')
        parts = parts[:-1] + [last[:-1]]
    X = parts[0]
    vh.check(len(X) == 2 * s, 'sampling size')
    if k == 0 and not future:
        A, B = X[s - 1::-1], X[s:]
    else:
        A, B = X[:s], X[:s - 1:-1]
    vh.check(same(A[0], (r, t0)) and same(B[0], (r, t0)), 'from the origin')
    if k == 0 and future:
        vh.check(len(roots.found) == 0, 'up to the singularity')
        ends = [(0.0, True), (0.0, False)]
    else:
        vh.check(len(roots.found) == (3 if end_in else 2), 'light rays')
        ends = roots.found[:2]
    vh.check(ends[0][1] != ends[1][1], 'ingoing and outgoing')
    for x, ingoing in ends:
        V = A if ingoing == (k == 0 and not future) else B
        along(V, m, r_S, r, t0, x, ingoing)
    if end_in and k == 2:
        vh.check(len(parts) == 2, 'two parts')
        Y = parts[1]
        vh.check(len(Y) == s + 1, 'sampling size')
        x, ingoing = roots.found[2]
        vh.check(ingoing and x < r_S, 'ingoing inside the horizon')
        for i in range(s):
            v = x - x * i / (s - 1)
            vh.check(near(Y[i][0], v), 'radii')
            vh.check(near(Y[i][1] - t0, light(m, r_S, r, Y[i][0], True)),
                     'light rays')
        vh.check(same(Y[s], (0.0, t)), 'singularity')
    else:
        vh.check(len(parts) == 1, 'one part')
