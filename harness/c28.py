from common import *
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset
from causets.shapes import CoordinateShape
from causets import spacetimes
import numpy as np

CASES = [
    dict(fn='flat', params=dict(d=1), tier='quick'),
    dict(fn='flat', params=dict(d=2), tier='quick'),
    dict(fn='flat', params=dict(d=3), tier='quick'),
    dict(fn='flat', params=dict(d=4), tier='quick', extra=True),
    dict(fn='curved', params=dict(), tier='quick'),
    dict(fn='black_hole', params=dict(), tier='quick'),
    dict(fn='names', params=dict(kind='embedded'), tier='quick'),
    dict(fn='names', params=dict(kind='sprinkled'), tier='quick'),
    dict(fn='dimensions', params=dict(arrays=False), tier='quick'),
    dict(fn='dimensions', params=dict(arrays=True), tier='quick'),
    dict(fn='rows', params=dict(), tier='quick'),
    dict(fn='inferred', params=dict(), tier='quick'),
]


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def flat(d):
    """periods and default shape of flat spacetimes"""
    p = vh.real(-1.0, 3.0)
    T = [vh.real(-1.0, 3.0) for i in range(d + 1)]
    M = spacetimes.FlatSpacetime(d)
    vh.check(M.Dim == d and M.Name == 'flat', 'dimension and name')
    vh.check(M.MetricName == 'Minkowski', 'metric')
    vh.check(not M.Parameter('isPeriodic'), 'no period by default')
    S = M.DefaultShape()
    vh.check(S.Dim == d and S.Name == 'bicone', 'default shape')
    vh.check(isinstance(repr(M), str) and isinstance(str(M), str), 'text')
    M = spacetimes.FlatSpacetime(d, period=p)
    vh.check(M.Parameter('isPeriodic') == (p > 0), 'positive period')
    S = M.DefaultShape()
    vh.check(S.Dim == d, 'dimension of the default shape')
    vh.check(S.Name == ('cube' if p > 0 else 'bicone'), 'default shape')
    if p > 0:
        P = M.Parameter('period')
        vh.check(len(P) == d - 1, 'one period per space dimension')
        for x in P:
            vh.check(x == p, 'period of every dimension')
    some = False
    for x in T[:d - 1]:
        some = some or x > 0
    M = spacetimes.FlatSpacetime(d, period=tuple(T[:d - 1]))
    vh.check(M.Parameter('isPeriodic') == some, 'some positive period')
    if some:
        P = M.Parameter('period')
        vh.check(len(P) == d - 1, 'one period per space dimension')
        for i in range(d - 1):
            vh.check(P[i] == T[i], 'period of each dimension')
    for n in (d - 2, d, d + 1):
        if n >= 0:
            vh.check(raises(lambda: spacetimes.FlatSpacetime(
                d, period=tuple(T[:n]))), 'number of periods')
    for n in (0, -1):
        vh.check(raises(lambda: spacetimes.FlatSpacetime(n)), 'dimension')


def curved():
    """de Sitter and Anti-de Sitter spacetimes"""
    d = vh.integer(-1, 4)
    a = vh.real(-1.0, 3.0)
    anti = vh.boolean()

    def make():
        if anti:
            return spacetimes.AntideSitterSpacetime(d, a)
        return spacetimes.deSitterSpacetime(d, a)
    bad = raises(make)
    vh.check(bad == (d < 2 or a <= 0), 'dimension and radius')
    if not bad:
        M = make()
        vh.check(M.Dim == d, 'dimension')
        vh.check(M.Name == ('Anti-de Sitter' if anti else 'de Sitter'),
                 'name')
        vh.check(M.Parameter('r_AdS' if anti else 'r_dS') == a, 'radius')
        S = M.DefaultShape()
        vh.check(S.Dim == d and S.Name == 'cylinder', 'default shape')


def black_hole():
    d = vh.integer(0, 4)
    a = vh.real(-1.0, 3.0)
    m = vh.choice(['Eddington-Finkelstein', 'Schwarzschild', 'Kruskal'])

    def make():
        return spacetimes.BlackHoleSpacetime(d, a, m)
    bad = raises(make)
    vh.check(bad == (d != 2 or a <= 0 or m == 'Kruskal'),
             'dimension, radius and metric')
    if not bad:
        M = make()
        vh.check(M.Dim == 2 and M.Name == 'black hole', 'name')
        vh.check(M.MetricName == m, 'metric')
        vh.check(M.Parameter('r_S') == a, 'radius')
        S = M.DefaultShape()
        vh.check(S.Dim == 2 and S.Name == 'cylinder', 'default shape')


NAMES = {'flat': 'flat', 'Minkowski': 'flat', 'dS': 'de Sitter',
         'de Sitter': 'de Sitter', 'AdS': 'Anti-de Sitter',
         'Anti-de Sitter': 'Anti-de Sitter', 'black hole': 'black hole',
         'Schwarzschild': 'black hole', 'Kerr': None, '': None}


def names(kind):
    """spacetimes and shapes given by name"""
    n = vh.choice(['flat', 'Minkowski', 'dS', 'de Sitter', 'AdS',
                   'Anti-de Sitter', 'black hole', 'Schwarzschild', 'Kerr',
                   ''])
    d = vh.choice([-1, 2, 3])
    s = vh.choice([None, 'diamond', 'ball', 'cube', 'prism'])
    for name in NAMES:
        if n != name:
            continue
        for e in (-1, 2, 3):
            if d != e:
                continue
            for t in (None, 'diamond', 'ball', 'cube', 'prism'):
                if s is not t and s != t:
                    continue

                def make():
                    if kind == 'embedded':
                        return EmbeddedCauset(spacetime=name, shape=t, dim=e)
                    return SprinkledCauset(card=0, spacetime=name, shape=t,
                                           dim=e)
                want = NAMES[name]
                bad = raises(make)
                vh.check(bad == (want is None or t == 'prism' or
                                 (want == 'black hole' and e == 3)),
                         'names of spacetimes and shapes')
                if not bad:
                    C = make()
                    vh.check(C.Spacetime.Name == want, 'spacetime')
                    vh.check(C.Spacetime.Dim == (2 if e < 0 else e) and
                             C.Dim == C.Spacetime.Dim and
                             C.Shape.Dim == C.Dim, 'dimension')
                    vh.check(C.Card == 0, 'no events')
                    if t is None:
                        t = 'diamond' if want == 'flat' else 'cylinder'
                    vh.check(C.Shape.Name == (
                        'bicone' if t == 'diamond' else t), 'shape')


def dimensions(arrays):
    """dimensions that do not fit are refused"""
    d = vh.choice([-1, 1, 2, 3])
    m = vh.choice([0, 1, 2, 3])
    s = vh.choice([0, 1, 2, 3])
    c = vh.choice([0, 1, 2, 3])
    given = []
    for k in (1, 2, 3):
        for x in (d, m, s, c):
            if x == k:
                given.append(k)
    same = True
    for x in given:
        for y in given:
            same = same and x == y
    M = None
    S = None
    X = None
    for k in (1, 2, 3):
        if m == k:
            M = spacetimes.FlatSpacetime(k)
        if s == k:
            S = CoordinateShape(k, 'cube')
        if c == k:
            X = [[0.25] * k, [0.125] * k]
            if arrays:
                X = np.array(X)

    def make():
        return EmbeddedCauset(spacetime=M, shape=S, coordinates=X, dim=d)
    bad = raises(make)
    vh.check(bad == (not same), 'dimensions have to agree')
    if not bad:
        C = make()
        for k in (1, 2, 3):
            if k in given:
                vh.check(C.Dim == k and C.Spacetime.Dim == k and
                         C.Shape.Dim == k, 'dimension')
        if not given:
            vh.check(C.Dim == 2, 'two dimensions by default')
        vh.check(C.Card == (0 if c == 0 else 2), 'number of events')


def rows():
    """every row of coordinates has to have the right length"""
    L = [vh.choice([1, 2, 3]) for i in range(3)]
    d = vh.choice([-1, 2])
    for e in (-1, 2):
        for x in (1, 2, 3):
            for y in (1, 2, 3):
                for z in (1, 2, 3):
                    if d == e and L[0] == x and L[1] == y and L[2] == z:
                        some_rows(e, [x, y, z])


def some_rows(d, L):
    X = [[0.25] * k for k in L]
    right = L[0] if d < 0 else d
    bad = raises(lambda: EmbeddedCauset(coordinates=X, dim=d))
    vh.check(bad == any([k != right for k in L]), 'length of every row')


def inferred():
    """the given spacetime and shape are used"""
    p = vh.real(0.5, 2.0)
    M = spacetimes.FlatSpacetime(3, period=p)
    S = CoordinateShape(3, 'ball', radius=p)
    both = vh.boolean()
    if both:
        C = EmbeddedCauset(spacetime=M, shape=S)
        vh.check(C.Spacetime is M and C.Shape is S, 'given objects')
    else:
        C = EmbeddedCauset(spacetime=M)
        vh.check(C.Spacetime is M and C.Shape.Name == 'cube',
                 'default shape of the spacetime')
        D = EmbeddedCauset(shape=S)
        vh.check(D.Shape is S and D.Spacetime.Name == 'flat' and
                 D.Spacetime.Dim == 3, 'flat by default')
