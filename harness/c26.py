from common import *
from causets.sprinkledcauset import SprinkledCauset
from causets.embeddedcauset import EmbeddedCauset
from causets.causetevent import CausetEvent
from causets.shapes import CoordinateShape
import numpy as np

CASES = [
    dict(fn='sprinkled', params=dict(n=3), tier='quick'),
    dict(fn='sprinkled', params=dict(n=6), tier='thorough'),
    dict(fn='intense', params=dict(n=2), tier='quick'),
    dict(fn='intense', params=dict(n=4), tier='thorough'),
    dict(fn='changed', params=dict(n=3), tier='quick'),
    dict(fn='changed', params=dict(n=5), tier='thorough'),
    dict(fn='scale', params=dict(d=1, n=2), tier='quick'),
    dict(fn='scale', params=dict(d=2, n=2), tier='quick'),
    dict(fn='scale', params=dict(d=3, n=2), tier='quick'),
    dict(fn='scale', params=dict(d=4, n=3), tier='quick', extra=True),
    dict(fn='embedded', params=dict(d=1, n=3), tier='quick'),
    dict(fn='embedded', params=dict(d=2, n=3), tier='quick'),
    dict(fn='embedded', params=dict(d=3, n=5), tier='quick', extra=True),
    dict(fn='initial', params=dict(n=2), tier='quick'),
    dict(fn='initial', params=dict(n=3), tier='thorough'),
    dict(fn='negative', params=dict(), tier='quick'),
]
EPS = 1e-6


class Draws:
    """a random generator whose Poisson numbers are given"""

    def __init__(self, counts=()):
        self.counts = list(counts)
        self.lams = []
        self.k = 0

    def poisson(self, lam=1.0, size=None):
        self.lams.append(lam)
        return self.counts[len(self.lams) - 1]

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.shape(low + high)
        self.k += 1
        return low + (high - low) * np.full(size, 0.5 / self.k)


def near(x, y, eps=EPS):
    return x - y <= eps and y - x <= eps


def sprinkled(n):
    """sprinkling adds the number of events to the intensity"""
    j, k = vh.integer(0, n), vh.integer(0, n)
    C = SprinkledCauset(shape='cube')
    vh.check(C.Card == 0 and C.Intensity == 0.0, 'nothing sprinkled')
    vh.check(C.Density == 0.0 and C.LengthScale == 0.0, 'no density')
    S = C.sprinkle(j, rng=Draws())
    vh.check(len(S) == j and C.Card == j, 'number of sprinkled events')
    vh.check(near(C.Intensity, j) and near(C.Density, j),
             'intensity after a sprinkle')
    T = C.sprinkle(k, rng=Draws())
    vh.check(len(T) == k and C.Card == j + k, 'number of sprinkled events')
    vh.check(near(C.Intensity, j + k) and near(C.Density, j + k),
             'intensity after two sprinkles')
    for e in T:
        vh.check(e in C and e not in S, 'new events are returned')
    for e in S:
        vh.check(e in C, 'old events stay')


def initial(n):
    """events sprinkled right away, whatever the generator draws"""
    k = vh.integer(0, n)
    C = SprinkledCauset(card=k, dim=1, shape='cube')
    vh.check(C.Card == k, 'number of sprinkled events')
    vh.check(near(C.Intensity, k), 'initial intensity')
    vh.check(near(C.Density, k), 'initial density')
    for e in C:
        vh.check(1 <= e.Label <= k, 'events are numbered')
        vh.check(-0.5 - EPS <= e.Coordinates[0] <= 0.5 + EPS,
                 'inside the shape')


def intense(n):
    """intensify draws a Poisson number, its mean adds to the intensity"""
    a, b = vh.real(0.0, 9.0), vh.real(0.0, 9.0)
    j, k = vh.integer(0, n), vh.integer(0, n)
    rng = Draws([j, k])
    C = SprinkledCauset(shape='cube')
    S = C.intensify(a, rng=rng)
    vh.check(len(S) == j and C.Card == j, 'as many events as drawn')
    vh.check(near(C.Intensity, a), 'intensity')
    T = C.intensify(b, rng=rng)
    vh.check(len(T) == k and C.Card == j + k, 'as many events as drawn')
    vh.check(near(C.Intensity, a + b), 'intensities add up')
    vh.check(len(rng.lams) == 2 and near(rng.lams[0], a) and
             near(rng.lams[1], b), 'mean of the Poisson distribution')


def changed(n):
    """other events change the intensity by their number, discarded events
    take their share"""
    a = vh.real(0.0, 9.0)
    k = vh.integer(0, n)
    C = SprinkledCauset(shape='cube')
    C.intensify(a, rng=Draws([k]))
    X = C.create([[0.25, 0.0], [-0.25, 0.125]])
    vh.check(len(X) == 2 and C.Card == k + 2, 'created events')
    vh.check(near(C.Intensity, a + 2), 'intensity after create')
    new = vh.boolean()
    old = vh.boolean()
    e = CausetEvent(label='new', coordinates=[0.5, 0.5])
    A = set()
    if new:
        A.add(e)
    if old:
        for x in X:
            A.add(x)
    C.add(A)
    t = a + 2
    c = k + 2
    if new:
        t = t + 1
        c = c + 1
    vh.check(C.Card == c, 'added events')
    vh.check(near(C.Intensity, t), 'only new events add to the intensity')
    D = set()
    for x in X:
        if vh.boolean():
            D.add(x)
    other = CausetEvent(label='other', coordinates=[0.5, 0.5])
    if vh.boolean():
        D.add(e)
    D.add(other)
    m = 0
    for x in D:
        if x in C:
            m = m + 1
    C.discard(D)
    vh.check(C.Card == c - m, 'discarded events')
    vh.check(near(C.Intensity * c, t * (c - m)),
             'the intensity is reduced in proportion')


def power(x, d):
    r = 1.0
    for i in range(d):
        r = r * x
    return r


def scale(d, n):
    """density and length scale follow from the intensity"""
    a = vh.real(0.5, 9.0)
    b = vh.real(0.5, 9.0)
    k = vh.integer(0, n)
    edge = vh.choice([1.0, 0.5, 2.0])
    C = SprinkledCauset(shape=CoordinateShape(d, 'cube', edge=edge))
    C.intensify(a, rng=Draws([k]))
    vh.check(C.Card == k and C.Dim == d, 'number of events and dimension')
    V = power(edge, d)
    check_scale(C, a, V, d)
    C.intensify(b, rng=Draws([0]))
    check_scale(C, a + b, V, d)


def check_scale(C, a, V, d):
    vh.check(near(C.Density * V, a), 'density')
    L = C.LengthScale
    vh.check(L > 0 and near(power(L, d) * a, V, EPS * (1 + V)),
             'length scale')


def embedded(d, n):
    """without an intensity, the number of events counts"""
    k = vh.integer(0, n)
    m = vh.integer(0, n + 1)
    edge = vh.choice([1.0, 0.5, 2.0])
    C = EmbeddedCauset(shape=CoordinateShape(d, 'cube', edge=edge))
    C.create([[0.125 * i] + [0.0] * (d - 1) for i in range(k)])
    V = power(edge, d)
    vh.check(near(C.Density * V, k), 'density')
    L = C.LengthScale
    if k == 0:
        vh.check(L == 0.0, 'length scale of an empty set')
    else:
        vh.check(L > 0 and near(power(L, d) * k, V), 'length scale')
    C.create([[-0.25] + [0.0] * (d - 1)])
    vh.check(near(C.Density * V, k + 1) and
             near(power(C.LengthScale, d) * (k + 1), V),
             'density and length scale with one more')
    gone = [e for e in C if e.Label <= m]
    C.discard(gone)
    r = k + 1 - (m if m < k + 1 else k + 1)
    vh.check(near(C.Density * V, r), 'density after discarding')
    if r > 0:
        vh.check(near(power(C.LengthScale, d) * r, V),
                 'length scale after discarding')
    else:
        vh.check(C.LengthScale == 0.0, 'length scale of an empty set')
    C.add(gone)
    vh.check(near(C.Density * V, k + 1) and
             near(power(C.LengthScale, d) * (k + 1), V),
             'density and length scale after adding')


def negative():
    """numbers of events are not negative"""
    k = vh.integer(-3, -1)
    a = vh.real(-3.0, -0.001)
    C = SprinkledCauset(shape='cube')
    vh.check(raises(lambda: C.sprinkle(k, rng=Draws())), 'sprinkle')
    vh.check(raises(lambda: C.intensify(a, rng=Draws([1]))), 'intensify')
    vh.check(C.Intensity == 0.0 and C.Card == 0, 'nothing happens')


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False
