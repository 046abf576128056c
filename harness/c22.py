from common import *
from causets.spacetimes import deSitterSpacetime, AntideSitterSpacetime
import math
import numpy as np

CASES = [
    dict(fn='de_sitter', params=dict(d=2, alpha=1.0), tier='quick'),
    dict(fn='de_sitter', params=dict(d=2, alpha=0.5), tier='quick'),
    dict(fn='de_sitter', params=dict(d=3, alpha=2.0), tier='quick'),
    dict(fn='de_sitter', params=dict(d=4, alpha=0.5),
         tier='quick', extra=True),
    dict(fn='anti_de_sitter', params=dict(d=2, alpha=0.5), tier='quick'),
    dict(fn='anti_de_sitter', params=dict(d=2, alpha=1.0), tier='quick'),
    dict(fn='anti_de_sitter', params=dict(d=3, alpha=2.0), tier='quick'),
    dict(fn='anti_de_sitter', params=dict(d=5, alpha=0.5), tier='quick',
         extra=True),
    dict(fn='de_sitter', params=dict(d=5, alpha=1.0), tier='quick',
         extra=True),
    dict(fn='anti_de_sitter', params=dict(d=4, alpha=0.5),
         tier='quick', extra=True),
]
MARGIN = 1e-9


def dot(x, y):
    s = 0.0
    for i in range(1, len(x)):
        s = s + x[i] * y[i]
    return s


def de_sitter(d, alpha):
    x = [vh.real(-3.0, 3.0) for i in range(d)]
    y = [vh.real(-3.0, 3.0) for i in range(d)]
    f = deSitterSpacetime(d, alpha).Causality()
    ab, ba = f(np.array(x), np.array(y))
    a2 = alpha * alpha
    rx, ry = dot(x, x), dot(y, y)
    if rx >= a2 or ry >= a2:
        vh.check(not ab and not ba, 'beyond the horizon')
    else:
        kx, ky = math.sqrt(a2 - rx), math.sqrt(a2 - ry)
        tx, ty = kx * math.sinh(x[0] / alpha), ky * math.sinh(y[0] / alpha)
        s = kx * ky * math.cosh((y[0] - x[0]) / alpha) + dot(x, y) - a2
        # both times order related points in the same way
        if s >= 0 and ty >= tx and y[0] >= x[0]:
            vh.check(ab and not ba, 'before')
        elif s >= 0 and ty < tx and y[0] < x[0]:
            vh.check(ba and not ab, 'after')
        elif s < -MARGIN:
            vh.check(not ab and not ba, 'spacelike')


def anti_de_sitter(d, alpha):
    x = [vh.real(-3.0, 3.0) for i in range(d)]
    y = [vh.real(-3.0, 3.0) for i in range(d)]
    f = AntideSitterSpacetime(d, alpha).Causality()
    ab, ba = f(np.array(x), np.array(y))
    a2 = alpha * alpha
    kx, ky = math.sqrt(a2 + dot(x, x)), math.sqrt(a2 + dot(y, y))
    dt = y[0] - x[0]
    s = kx * ky * math.cos(dt / alpha) - dot(x, y)
    far = dt >= math.pi * alpha or dt <= -math.pi * alpha
    if far or s <= a2:
        if dt >= 0:
            vh.check(ab and not ba, 'before')
        else:
            vh.check(ba and not ab, 'after')
    elif s > a2 + MARGIN:
        vh.check(not ab and not ba, 'spacelike')
