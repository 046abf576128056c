from common import *
from causets.shapes import CoordinateShape
import math
import numpy as np

CASES = [dict(fn='volume', params=dict(name=n, d=d),
              tier='quick' if d < 5 else 'thorough')
         for n in ('ball', 'cylinder', 'bicone', 'cube', 'cuboid')
         for d in (1, 2, 3, 4, 5, 6)] + [
    dict(fn='limits', params=dict(name=n, d=d),
         tier='quick' if d < 4 else 'thorough')
    for n in ('ball', 'cylinder', 'bicone', 'cube', 'cuboid')
    for d in (1, 2, 3, 4)] + [
    dict(fn='valid', params=dict(name=n, d=d),
         tier='quick' if d < 4 else 'thorough')
    for n in ('ball', 'cylinder', 'bicone', 'cube', 'cuboid')
    for d in (1, 3, 4)] + [
    dict(fn='own', params=dict(d=3), tier='quick'),
    dict(fn='defaults', params=dict(), tier='quick'),
    dict(fn='names', params=dict(), tier='quick'),
]
EPS = 1e-4


def near(x, y, eps=EPS):
    return x - y <= eps and y - x <= eps


def power(x, k):
    r = 1.0
    for i in range(k):
        r = r * x
    return r


def unit_ball(d):
    """volume of the unit ball"""
    if d < 2:
        return d + 1.0
    return unit_ball(d - 2) * 2.0 * math.pi / d


def sizes(name, d):
    """parameters of a shape and its extent along each dimension"""
    if name == 'cube':
        L = vh.real(0.25, 4.0)
        return dict(edge=L), [L] * d
    if name == 'cuboid':
        L = [vh.real(0.25, 4.0) for i in range(d)]
        return dict(edges=L), L
    r = vh.real(0.25, 4.0)
    h = vh.real(0.0, 0.875)
    if name == 'cylinder':
        t = vh.real(0.25, 4.0)
        return dict(radius=r, hollow=h, duration=t), \
            [t] + [2 * r] * (d - 1)
    return dict(radius=r, hollow=h), [2 * r] * d


def make(name, d, P, **kwargs):
    if name == 'cube':
        return CoordinateShape(d, name, edge=P['edge'], **kwargs)
    if name == 'cuboid':
        return CoordinateShape(d, name, edges=P['edges'], **kwargs)
    if name == 'cylinder':
        return CoordinateShape(d, name, radius=P['radius'],
                               hollow=P['hollow'],
                               duration=P['duration'], **kwargs)
    return CoordinateShape(d, name, radius=P['radius'], hollow=P['hollow'],
                           **kwargs)


def volume(name, d):
    """volume of the shape less the volume of its hollow part"""
    P, L = sizes(name, d)
    S = make(name, d, P)
    if name in ('cube', 'cuboid'):
        V = 1.0
        for x in L:
            V = V * x
        top = power(4.0, d)
    elif name == 'ball':
        r, h = P['radius'], P['hollow']
        V = unit_ball(d) * (power(r, d) - power(h * r, d))
        top = unit_ball(d) * power(4.0, d)
    elif name == 'cylinder':
        r, h = P['radius'], P['hollow']
        # (a single dimension has no hollow part)
        V = unit_ball(d - 1) * power(r, d - 1) * P['duration']
        if d > 1:
            V = V * (1.0 - power(h, d - 1))
        top = unit_ball(d - 1) * power(4.0, d)
    else:
        r, h = P['radius'], P['hollow']
        V = unit_ball(d - 1) * 2.0 / d * (power(r, d) - power(h * r, d))
        top = unit_ball(d - 1) * power(4.0, d)
    if name == 'cylinder' and d == 1:
        vh.assume(P['hollow'] == 0.0)
    vh.check(near(S.Volume, V, EPS * top), 'volume')
    vh.check(near(S.Volume, V, EPS * top), 'volume asked again')
    for k in P:
        if k != 'edges':
            vh.check(near(S.Parameter(k), P[k]), 'parameters stay')


def limits(name, d):
    """extent along each dimension, around the centre"""
    P, L = sizes(name, d)
    c = [vh.real(-3.0, 3.0) for i in range(d)]
    S = make(name, d, P, center=c)
    vh.check(S.Dim == d and S.Name == name, 'dimension and name')
    for i in range(d):
        a, b = S.Limits(i)
        vh.check(near(a, c[i] - L[i] / 2) and near(b, c[i] + L[i] / 2),
                 'limits along a dimension')
        vh.check(near(S.Center[i], c[i]), 'centre')
    for i in (-1, d, d + 1):
        vh.check(raises(lambda: S.Limits(i)), 'no such dimension')
    for i in range(d):
        vh.check(near(S.MaxEdgeHalf([i]), L[i] / 2), 'half of one extent')
        for j in range(i):
            for k in range(j + 1):
                for dims in ([j, i], [i, j], [i, k, j]):
                    if k == j and len(dims) == 3:
                        continue
                    m = S.MaxEdgeHalf(dims)
                    ok = False
                    for a in dims:
                        vh.check(m >= L[a] / 2 - EPS,
                                 'no extent is larger')
                        ok = ok or near(m, L[a] / 2)
                    vh.check(ok, 'half of the largest extent')


def own(d):
    """what happens to the given arrays afterwards has no effect"""
    c = [vh.real(-3.0, 3.0) for i in range(d)]
    L = [vh.real(0.25, 4.0) for i in range(d)]
    f = vh.real(0.0, 2.0)
    for given in (list, np.array,
                  lambda x: np.array(x, dtype=np.float32)):
        C, E = given(c), given(L)
        S = CoordinateShape(d, 'cuboid', center=C, edges=E)
        V = S.Volume
        for i in range(d):
            vh.check(near(C[i], c[i]) and near(E[i], L[i]),
                     'arguments stay')
            C[i] = f
            E[i] = f
        W = 1.0
        for i in range(d):
            a, b = S.Limits(i)
            vh.check(near(a, c[i] - L[i] / 2) and near(b, c[i] + L[i] / 2),
                     'limits stay')
            vh.check(near(S.Center[i], c[i]), 'centre stays')
            W = W * L[i]
        vh.check(near(V, W, 0.01) and near(S.Volume, W, 0.01),
                 'volume stays')


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def valid(name, d):
    """parameters are accepted if and only if they describe a shape"""
    x = vh.real(-2.0, 2.0)
    y = vh.real(-2.0, 2.0)
    z = vh.real(-2.0, 2.0)
    vh.assume(x <= -EPS or x >= EPS or x == 0)
    vh.assume(y <= -EPS or y == 0 or EPS <= y <= 1 - EPS or y >= 1)
    vh.assume(z <= -EPS or z >= EPS or z == 0)
    n = vh.choice([d, d + 1, d - 1])
    if name == 'cube':
        bad = raises(lambda: CoordinateShape(d, name, edge=x))
        vh.check(bad == (x <= 0), 'edge')
    elif name == 'cuboid':
        L = [1.0] * d
        L[d - 1] = x
        bad = raises(lambda: CoordinateShape(d, name, edges=L))
        vh.check(bad == (x <= 0), 'edges')
        for m in (d - 1, d, d + 1):
            if n == m:
                bad = raises(lambda: CoordinateShape(d, name,
                                                     edges=[1.0] * m))
                vh.check(bad == (m != d), 'number of edges')
    elif name == 'cylinder':
        bad = raises(lambda: CoordinateShape(d, name, radius=x, hollow=y,
                                             duration=z))
        vh.check(bad == (x <= 0 or y < 0 or y >= 1 or z <= 0), 'cylinder')
    else:
        bad = raises(lambda: CoordinateShape(d, name, radius=x, hollow=y))
        vh.check(bad == (x <= 0 or y < 0 or y >= 1), 'radius and hollow')
    for m in (d - 1, d, d + 1):
        if n == m:
            bad = raises(lambda: CoordinateShape(d, name, center=[0.5] * m))
            vh.check(bad == (m != d), 'number of coordinates')
    for m in (0, -1):
        vh.check(raises(lambda: CoordinateShape(m, name)),
                 'no dimension')


def defaults():
    """values of parameters that are not given"""
    d = vh.choice([1, 2, 3])
    r = vh.real(0.25, 4.0)
    for e in (1, 2, 3):
        if d == e:
            for n in ('ball', 'bicone', 'diamond', 'cylinder'):
                S = CoordinateShape(e, n)
                vh.check(S.Parameter('radius') == 1.0 and
                         S.Parameter('hollow') == 0.0, 'unit radius')
            vh.check(CoordinateShape(e, 'cylinder').Parameter('duration')
                     == 2.0, 'as long as wide')
            S = CoordinateShape(e, 'cylinder', radius=r)
            vh.check(near(S.Parameter('duration'), 2 * r), 'as long as wide')
            vh.check(CoordinateShape(e, 'cube').Parameter('edge') == 1.0,
                     'unit cube')
            L = CoordinateShape(e, 'cuboid').Parameter('edges')
            vh.check(len(L) == e, 'number of edges')
            for x in L:
                vh.check(x == 1.0, 'unit cuboid')
            for n in ('ball', 'bicone', 'diamond', 'cylinder', 'cube',
                      'cuboid'):
                c = CoordinateShape(e, n).Center
                vh.check(len(c) == e, 'centre')
                for x in c:
                    vh.check(x == 0.0, 'centre at the origin')


def names():
    """names of shapes and their text"""
    n = vh.choice(['ball', 'bicone', 'diamond', 'cylinder', 'cube',
                   'cuboid', 'sphere', '', 'Ball'])
    h = vh.choice([0.0, 0.5])
    for m in ('ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid'):
        if n == m:
            S = CoordinateShape(3, m, hollow=h)
            name = 'bicone' if m == 'diamond' else m
            vh.check(S.Name == name, 'name')
            if h > 0 and m in ('ball', 'bicone', 'diamond', 'cylinder'):
                vh.check(str(S) == 'hollow 3-' + name, 'text')
            else:
                vh.check(str(S) == '3-' + name, 'text')
            vh.check(isinstance(repr(S), str), 'representation')
    for m in ('sphere', '', 'Ball'):
        if n == m:
            vh.check(raises(lambda: CoordinateShape(3, m)), 'no such shape')
