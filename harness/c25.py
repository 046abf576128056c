from common import *
from causets.sprinkledcauset import SprinkledCauset
from causets.shapes import CoordinateShape
import math
import numpy as np

CASES = [
    dict(fn='box', params=dict(d=1, edges=False), tier='quick'),
    dict(fn='box', params=dict(d=2, edges=True), tier='quick'),
    dict(fn='box', params=dict(d=3, edges=False), tier='quick'),
    dict(fn='box', params=dict(d=4, edges=True), tier='quick', extra=True),
    dict(fn='ball', params=dict(d=1, hollow=False), tier='quick'),
    dict(fn='ball', params=dict(d=2, hollow=True), tier='quick'),
    dict(fn='ball', params=dict(d=3, hollow=True), tier='quick'),
    dict(fn='ball', params=dict(d=4, hollow=True), tier='quick', extra=True),
    dict(fn='cylinder', params=dict(d=1, hollow=False), tier='quick'),
    dict(fn='cylinder', params=dict(d=2, hollow=True), tier='quick'),
    dict(fn='cylinder', params=dict(d=3, hollow=True), tier='quick'),
    dict(fn='cylinder', params=dict(d=4, hollow=True),
         tier='quick', extra=True),
    dict(fn='bicone', params=dict(d=1, hollow=False), tier='quick'),
    dict(fn='bicone', params=dict(d=2, hollow=True), tier='quick'),
    dict(fn='bicone', params=dict(d=3, hollow=True), tier='quick'),
    dict(fn='bicone', params=dict(d=4, hollow=True), tier='thorough'),
    dict(fn='box', params=dict(d=2, edges=True, given='sprinkle'),
         tier='quick'),
    dict(fn='box', params=dict(d=2, edges=False, given='intensify'),
         tier='quick'),
    dict(fn='ball', params=dict(d=2, hollow=True, given='intensify'),
         tier='quick'),
    dict(fn='cylinder', params=dict(d=2, hollow=True, given='sprinkle'),
         tier='quick'),
    dict(fn='bicone', params=dict(d=2, hollow=True, given='intensify'),
         tier='quick'),
    dict(fn='plane', params=dict(), tier='quick'),
    dict(fn='several', params=dict(name='cube', n=2), tier='quick'),
    dict(fn='several', params=dict(name='ball', n=2), tier='quick'),
    dict(fn='several', params=dict(name='cylinder', n=2), tier='quick'),
    dict(fn='several', params=dict(name='bicone', n=2), tier='quick'),
    dict(fn='several', params=dict(name='cube', n=3), tier='thorough'),
    dict(fn='several', params=dict(name='ball', n=3), tier='thorough'),
    dict(fn='other', params=dict(d=2), tier='quick'),
    dict(fn='other', params=dict(d=3), tier='quick', extra=True),
]
EPS = 1e-3


class Draws:
    """a random generator that returns the given numbers"""

    def __init__(self, U, N):
        self.U = U
        self.N = N
        self.u = 0
        self.n = 0

    def unit(self):
        self.u += 1
        return self.U[self.u - 1]

    def poisson(self, lam=1.0, size=None):
        return 1 if lam > 0.0 else 0

    def random(self, size=None):
        return self.uniform(size=size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.shape(low + high)
        if size == ():
            return low + (high - low) * self.unit()
        low = np.zeros(size) + low
        high = np.zeros(size) + high
        shape = low.shape
        low = low.reshape(-1)
        high = high.reshape(-1)
        return np.array([low[i] + (high[i] - low[i]) * self.unit()
                         for i in range(len(low))]).reshape(shape)

    def standard_normal(self, size=None):
        if size is None:
            self.n += 1
            return self.N[self.n - 1]
        count = len(np.zeros(size).reshape(-1))
        self.n += count
        return np.array(self.N[self.n - count:self.n]).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


def units(k):
    return [vh.real(0.0, 1.0) for i in range(k)]


def region(name, d):
    """a shape of the same kind elsewhere"""
    c = [8.0] * d
    if name == 'cube':
        return CoordinateShape(d, name, edge=5.0, center=c)
    if name == 'cuboid':
        return CoordinateShape(d, name, center=c,
                               edges=[5.0 + i for i in range(d)])
    if name == 'cylinder':
        return CoordinateShape(d, name, radius=5.0, duration=7.0,
                               hollow=0.5, center=c)
    return CoordinateShape(d, name, radius=5.0, hollow=0.5, center=c)


def sprinkle(shape, U, N, given=False):
    """coordinates of a single sprinkled event, in the region of the causal
    set or a given shape"""
    if given:
        C = SprinkledCauset(shape=region(shape.Name, shape.Dim))
    else:
        C = SprinkledCauset(shape=shape)
    vh.check(C.Card == 0, 'nothing sprinkled')
    if given == 'intensify':
        S = C.intensify(2.0, rng=Draws(U, N), shape=shape)
    elif given:
        S = C.sprinkle(1, rng=Draws(U, N), shape=shape)
    else:
        S = C.sprinkle(1, rng=Draws(U, N))
    vh.check(C.Card == 1 and len(S) == 1, 'one event sprinkled')
    for e in S:
        vh.check(e in C, 'the sprinkled event is returned')
        x = e.Coordinates
    vh.check(len(x) == shape.Dim, 'number of coordinates')
    return [x[i] for i in range(shape.Dim)]


def near(x, y, eps=EPS):
    return x - y <= eps and y - x <= eps


def power(x, k):
    r = 1.0
    for i in range(k):
        r = r * x
    return r


def box(d, edges, given=False):
    """every coordinate is uniform between the sides of the box"""
    U = units(d)
    c = [vh.real(-3.0, 3.0) for i in range(d)]
    L = [vh.real(0.5, 4.0) for i in range(d if edges else 1)]
    if edges:
        shape = CoordinateShape(d, 'cuboid', edges=L, center=c)
    else:
        shape = CoordinateShape(d, 'cube', edge=L[0], center=c)
        L = L * d
    x = sprinkle(shape, U, [], given)
    for i in range(d):
        vh.check(near(x[i], c[i] + (U[i] - 0.5) * L[i]),
                 'uniform along each edge')


def setting(d, n, k, hollow):
    """uniform numbers, normal numbers, centre, radius, hollow fraction"""
    U = units(k)
    N = [vh.real(-3.0, 3.0) for i in range(n)]
    c = [vh.real(-3.0, 3.0) for i in range(d)]
    r = vh.real(0.5, 2.0)
    h = vh.real(0.0, 0.875) if hollow else 0.0
    if n > 0:
        s = 0.0
        for z in N:
            s = s + z * z
        vh.assume(s > 0.01)
    return U, N, c, r, h


def parallel(x, N, msg):
    """the direction is that of the normally distributed vector"""
    for i in range(len(N)):
        for j in range(i):
            vh.check(near(x[i] * N[j], x[j] * N[i]), msg)


def squares(x):
    s = 0.0
    for z in x:
        s = s + z * z
    return s


def radial(q2, r, h, d, U, msg):
    """q2 is the squared distance: its volume fraction is uniform"""
    rd = power(r, d)
    ok = False
    for u in U:
        v = rd * (power(h, d) + (1.0 - power(h, d)) * u)
        ok = ok or near(power(q2, d), v * v, EPS * rd * rd)
    vh.check(ok, msg)


def ball(d, hollow, given=False):
    U, N, c, r, h = setting(d, d, 1, hollow)
    x = sprinkle(CoordinateShape(d, 'ball', radius=r, hollow=h, center=c),
                 U, N, given)
    x = [x[i] - c[i] for i in range(d)]
    q2 = squares(x)
    vh.check(q2 <= r * r + EPS, 'inside the ball')
    vh.check(q2 >= h * h * r * r - EPS, 'outside the hollow')
    radial(q2, r, h, d, U, 'uniform in the ball')
    parallel(x, N, 'isotropic')


def cylinder(d, hollow, given=False):
    U, N, c, r, h = setting(d, d - 1, 2, hollow)
    t = vh.real(0.5, 4.0)
    x = sprinkle(CoordinateShape(d, 'cylinder', radius=r, duration=t,
                                 hollow=h, center=c), U, N, given)
    x = [x[i] - c[i] for i in range(d)]
    vh.check(near(x[0], (U[0] - 0.5) * t) or near(x[0], (U[1] - 0.5) * t),
             'uniform in time')
    if d > 1:
        q2 = squares(x[1:])
        vh.check(q2 <= r * r + EPS, 'inside the cylinder')
        vh.check(q2 >= h * h * r * r - EPS, 'outside the hollow')
        radial(q2, r, h, d - 1, U, 'uniform in the cylinder')
        parallel(x[1:], N, 'isotropic')


def bicone(d, hollow, given=False):
    U, N, c, r, h = setting(d, max(d - 1, 1), 3, hollow)
    if hollow:
        vh.assume(h > 0.0)
    for u in U:
        vh.assume(u != 0.5)      # a draw without sign
    x = sprinkle(CoordinateShape(d, 'bicone', radius=r, hollow=h, center=c),
                 U, N, given)
    x = [x[i] - c[i] for i in range(d)]
    t = x[0] if x[0] >= 0 else -x[0]
    if d < 3:
        q = 0.0
        if d == 2:
            q = x[1] if x[1] >= 0 else -x[1]
        vh.check(t + q <= r + EPS, 'inside the bicone')
        vh.check(t + q >= h * r - EPS, 'outside the hollow')
    else:
        q2 = squares(x[1:])
        vh.check(t <= r + EPS and q2 <= (r - t) * (r - t) + EPS,
                 'inside the bicone')
        vh.check(t >= h * r - EPS or q2 >= (h * r - t) * (h * r - t) - EPS,
                 'outside the hollow')
    parallel(x[1:], N, 'isotropic')
    if d > 1:
        # distance from the axis
        q = 0.0
        for i in range(d - 1):
            q = q + x[i + 1] * N[i]
        q = q / math.sqrt(squares(N))
        rd = power(r, d)
        ok = False
        ok2 = False
        for i in range(3):
            v = rd * (power(h, d) + (1.0 - power(h, d)) * U[i])
            ok = ok or near(power(t + q, d), v, EPS * rd)
            ok2 = ok2 or near(power(q, d - 1), U[i] * power(t + q, d - 1))
        vh.check(ok, 'size of the bicone through the point')
        vh.check(ok2, 'place on the bicone through the point')


def plane():
    """in the plane, both light-cone coordinates are uniform"""
    U, N, c, r, h = setting(2, 0, 2, False)
    x = sprinkle(CoordinateShape(2, 'diamond', radius=r, center=c), U, N)
    t, z = x[0] - c[0], x[1] - c[1]
    vh.check(near(t + z, r * (2 * U[0] - 1)), 'uniform along one light ray')
    vh.check(near(t - z, r * (2 * U[1] - 1)),
             'uniform along the other light ray')


def several(name, n):
    """every event of a sprinkle has draws of its own"""
    d = 2
    k = {'cube': 2 * n, 'ball': n, 'cylinder': 2 * n, 'bicone': 2 * n}[name]
    m = {'cube': 0, 'ball': 2, 'cylinder': 1, 'bicone': 0}[name]
    U = units(k)
    N = [[1.0, -1.0], [-2.0, 1.0], [1.5, 2.0]] if m == 2 else \
        [[1.0], [-2.0], [0.5]]
    N = [x for z in N for x in z]
    C = SprinkledCauset(shape=CoordinateShape(2, name))
    S = C.sprinkle(n, rng=Draws(U, N))
    vh.check(C.Card == n and len(S) == n, 'number of sprinkled events')
    X = [None] * n
    for e in C:
        X[e.Label - 1] = e.Coordinates
    for i in range(n):
        for j in range(i):
            for a in (0, 1):
                own = [False, False]
                for u in range(k):
                    own[0] = own[0] or at(name, X[i], N, a, U[u])
                    own[1] = own[1] or at(name, X[j], N, a, U[u])
                vh.check(own[0] and own[1], 'event at its own draws')
                shared = False
                for u in range(k):
                    apart = True
                    for w in range(k):
                        if w != u and near(U[u], U[w], 0.01):
                            apart = False
                    shared = shared or (apart and at(name, X[i], N, a, U[u])
                                        and at(name, X[j], N, a, U[u]))
                vh.check(not shared, 'no draw is used twice')


def at(name, x, N, a, u):
    """coordinate a of x is the one of the draw u"""
    if name == 'cube':
        return near(x[a], u - 0.5)
    if name == 'ball':
        return near(squares(x), u)
    if name == 'bicone':
        return near(x[0] + x[1] if a == 0 else x[0] - x[1], 2 * u - 1)
    return near(x[0], 2 * u - 1) if a == 0 else \
        near(x[1], u) or near(x[1], -u)


def other(d):
    """events sprinkled into another shape lie there"""
    U = units(d + 1)
    N = [vh.real(-3.0, 3.0) for i in range(d)]
    c = [vh.real(-3.0, 3.0) for i in range(d)]
    r = vh.real(0.5, 2.0)
    box = vh.boolean()
    vh.assume(squares(N) > 0.01)
    C = SprinkledCauset(shape=CoordinateShape(d, 'cylinder', radius=4.0,
                                              center=[8.0] * d))
    if box:
        shape = CoordinateShape(d, 'cube', edge=r, center=c)
    else:
        shape = CoordinateShape(d, 'ball', radius=r, center=c)
    S = C.sprinkle(1, rng=Draws(U, N), shape=shape)
    vh.check(len(S) == 1 and C.Card == 1, 'one event sprinkled')
    vh.check(C.Shape.Name == 'cylinder', 'the embedding region stays')
    for e in S:
        x = [e.Coordinates[i] - c[i] for i in range(d)]
        if box:
            for z in x:
                vh.check(-r / 2 - EPS <= z <= r / 2 + EPS, 'in the cube')
        else:
            vh.check(squares(x) <= r * r + EPS, 'in the ball')
