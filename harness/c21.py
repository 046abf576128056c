from common import *
from causets.embeddedcauset import EmbeddedCauset
from causets.spacetimes import FlatSpacetime
import numpy as np

CASES = [
    dict(fn='pair', params=dict(d=1), tier='quick'),
    dict(fn='pair', params=dict(d=2), tier='quick'),
    dict(fn='pair', params=dict(d=3), tier='quick'),
    dict(fn='pair', params=dict(d=4), tier='quick'),
    dict(fn='pair', params=dict(d=5), tier='quick', extra=True),
    dict(fn='periodic', params=dict(d=2, some=False), tier='quick'),
    dict(fn='periodic', params=dict(d=3, some=False), tier='quick'),
    dict(fn='periodic', params=dict(d=3, some=True), tier='quick'),
    dict(fn='periodic', params=dict(d=4, some=False),
         tier='quick', extra=True),
    dict(fn='periodic', params=dict(d=4, some=True), tier='quick', extra=True),
    dict(fn='embedded', params=dict(n=3), tier='quick'),
    dict(fn='embedded', params=dict(n=4), tier='thorough'),
]
MARGIN = 1e-9


def point(d, r):
    return [vh.real(-r, r) for i in range(d)]


def check_pair(f, x, y, dist2, msg):
    """dist2: squared spatial distance"""
    dt = y[0] - x[0]
    ab, ba = f(np.array(x), np.array(y))
    if dt >= 0 and dt * dt >= dist2:
        vh.check(ab and not ba, msg + ': before')
    elif dt < 0 and dt * dt >= dist2:
        vh.check(ba and not ab, msg + ': after')
    elif dt * dt < dist2 - MARGIN and (dt >= MARGIN or dt <= -MARGIN):
        vh.check(not ab and not ba, msg + ': spacelike')
    if dt == 0 and dist2 > MARGIN:
        vh.check(not ab and not ba, msg + ': at the same time')


def pair(d):
    """points are related if light can travel from one to the other"""
    x, y = point(d, 4.0), point(d, 4.0)
    f = FlatSpacetime(d).Causality()
    dist2 = 0.0
    for i in range(1, d):
        dist2 = dist2 + (y[i] - x[i]) * (y[i] - x[i])
    check_pair(f, x, y, dist2, 'flat')


def periodic(d, some):
    """the same on a cylinder: the shortest way around counts"""
    x, y = point(d, 4.0), point(d, 4.0)
    if some:
        period = tuple([0.0] + [vh.real(0.5, 8.0) for i in range(2, d)])
    else:
        p = vh.real(0.5, 8.0)
        period = tuple([p] * (d - 1))
    dist2 = 0.0
    for i in range(1, d):
        p = period[i - 1]
        w = y[i] - x[i]
        if w < 0:
            w = -w
        if not (some and i == 1):
            vh.assume(w <= p)
            if p - w < w:
                w = p - w
        dist2 = dist2 + w * w
    if some:
        f = FlatSpacetime(d, period=period).Causality()
    else:
        f = FlatSpacetime(d, period=p).Causality()
    check_pair(f, x, y, dist2, 'periodic')


def embedded(n):
    """an embedded causal set in the plane follows the light cones"""
    X = [point(2, 2.0) for i in range(n)]
    C = EmbeddedCauset(shape='cube', coordinates=X, dim=2)
    E = [None] * n
    for e in C:
        E[e.Label - 1] = e
    for i in range(n):
        for j in range(n):
            if i != j:
                u = X[j][0] + X[j][1] - X[i][0] - X[i][1]
                v = X[j][0] - X[j][1] - X[i][0] + X[i][1]
                if u > 0 and v > 0:
                    vh.check(E[i] < E[j], 'inside the future light cone')
                elif u < -MARGIN or v < -MARGIN:
                    vh.check(not E[i] < E[j],
                             'outside the future light cone')
