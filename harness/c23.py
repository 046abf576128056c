from common import *
from causets.spacetimes import BlackHoleSpacetime
import math
import numpy as np

CASES = [
    dict(fn='eddington', params=dict(r_S=1.0), tier='quick'),
    dict(fn='eddington', params=dict(r_S=0.5), tier='quick'),
    dict(fn='schwarzschild', params=dict(r_S=1.0), tier='quick'),
    dict(fn='schwarzschild', params=dict(r_S=0.5), tier='quick'),
    dict(fn='eddington', params=dict(r_S=3.0), tier='thorough'),
    dict(fn='schwarzschild', params=dict(r_S=3.0), tier='thorough'),
]
MARGIN = 1e-9


def tortoise(r, r_S, k):
    """r + k r_S ln|r / r_S - 1|"""
    if r > r_S:
        return r + k * r_S * math.log((r - r_S) / r_S)
    return r + k * r_S * math.log((r_S - r) / r_S)


def points(r_S):
    x = [vh.real(-9.0, 9.0), vh.real(-6.0, 6.0)]
    y = [vh.real(-9.0, 9.0), vh.real(-6.0, 6.0)]
    rx = x[1] if x[1] >= 0 else -x[1]
    ry = y[1] if y[1] >= 0 else -y[1]
    vh.assume(rx != r_S)
    vh.assume(ry != r_S)
    return x, y, rx, ry


def apart(x, y, ab, ba):
    """the two sides of the black hole have no contact"""
    if x[1] * y[1] < 0:
        vh.check(not ab and not ba, 'different sides')
        return True
    return False


def verdict(later, earlier, ab, ba):
    """later, earlier: slack of y being in the future, past of x"""
    if later > MARGIN:
        vh.check(ab and not ba, 'inside the future light cone')
    elif earlier > MARGIN:
        vh.check(ba and not ab, 'inside the past light cone')
    elif later < -MARGIN and earlier < -MARGIN:
        vh.check(not ab and not ba, 'outside the light cone')


def least(a, b):
    return a if a <= b else b


def eddington(r_S):
    """light falls in with unit speed, escapes only outside the horizon"""
    x, y, rx, ry = points(r_S)
    f = BlackHoleSpacetime(2, r_S=r_S).Causality()
    ab, ba = f(np.array(x), np.array(y))
    if not apart(x, y, ab, ba):
        dt = y[0] - x[0]
        dout = tortoise(ry, r_S, 2.0) - tortoise(rx, r_S, 2.0)
        # slack against the ingoing and the outgoing light ray
        later = least(dt, dt + ry - rx)
        earlier = least(-dt, rx - ry - dt)
        if rx < r_S and ry < r_S:
            later = least(rx - ry, least(later, dout - dt))
            earlier = least(ry - rx, least(earlier, dt - dout))
        elif rx < r_S:
            later = -1.0
        elif ry < r_S:
            earlier = -1.0
        else:
            later = least(later, dt - dout)
            earlier = least(earlier, dout - dt)
        verdict(later, earlier, ab, ba)


def schwarzschild(r_S):
    """light travels along the tortoise coordinate, the radius is a time
    behind the horizon"""
    x, y, rx, ry = points(r_S)
    f = BlackHoleSpacetime(2, r_S=r_S, metric='Schwarzschild').Causality()
    ab, ba = f(np.array(x), np.array(y))
    if not apart(x, y, ab, ba):
        dt = y[0] - x[0]
        ds = tortoise(ry, r_S, 1.0) - tortoise(rx, r_S, 1.0)
        if rx < r_S and ry < r_S:
            verdict(least(rx - ry, least(ds - dt, ds + dt)),
                    least(ry - rx, least(-ds - dt, -ds + dt)), ab, ba)
        elif rx < r_S:
            verdict(-1.0, -ds - dt, ab, ba)
        elif ry < r_S:
            verdict(dt + ds, -1.0, ab, ba)
        else:
            verdict(least(dt, least(dt - ds, dt + ds)),
                    least(-dt, least(-dt - ds, -dt + ds)), ab, ba)
