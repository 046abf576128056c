from common import *
import numpy as np
from causets.embeddedcauset import EmbeddedCauset

CASES = [
    dict(fn='history', params=dict(kinds=[0, 1, 2], dims=[2, 2, 2]),
         tier='quick'),
    dict(fn='history', params=dict(kinds=[3, 2, 0], dims=[2, 3, 1]),
         tier='quick'),
    dict(fn='copies', params=dict(), tier='quick'),
    dict(fn='relabel', params=dict(n=3, d=2), tier='quick'),
    dict(fn='relabel', params=dict(n=4, d=2), tier='quick'),
    dict(fn='relabel', params=dict(n=3, d=3), tier='quick'),
    dict(fn='history', params=dict(kinds=[0, 1, 2, 3, 0, 2],
                                   dims=[2, 2, 2, 2, 2, 2]),
         tier='thorough'),
    dict(fn='relabel', params=dict(n=6, d=2), tier='thorough'),
]


class Expected:
    """coordinates (None without) and position"""

    def __init__(self):
        self.x = None
        self.p = [0.0, 0.0]


def iterable(kind, x):
    if kind == 0:
        return list(x)
    elif kind == 1:
        return tuple(x)
    elif kind == 2:
        return np.array(x)
    return (v for v in x)


def check_event(e, S):
    vh.check(e.isEmbedded == (S.x is not None), 'isEmbedded')
    if S.x is None:
        vh.check(e.CoordinatesDim == 0, 'dimension')
        try:
            y = e.Coordinates
            failed = False
        except AttributeError:
            failed = True
        vh.check(failed, 'no coordinates')
    else:
        vh.check(e.CoordinatesDim == len(S.x), 'dimension')
        y = e.Coordinates
        vh.check(len(y) == len(S.x), 'coordinates')
        for a, b in zip(y, S.x):
            vh.check(a == b, 'coordinates')
    p = e.Position
    vh.check(len(p) == 2, 'position')
    vh.check(p[0] == S.p[0] and p[1] == S.p[1], 'position')


def fails(f, error):
    try:
        f()
    except error:
        return True
    return False


def place(e, p):
    e.Position = p


def history(kinds, dims):
    """any history of embedding an event"""
    first = [vh.real(-2.0, 2.0) for i in range(2)]
    start = [vh.boolean(), vh.boolean()]
    ops = [vh.integer(0, 5) for k in kinds]
    X = [[vh.real(-2.0, 2.0) for i in range(d)] for d in dims]
    S = Expected()
    before = CausetEvent(label=1)
    options = {}
    if start[0]:
        options['coordinates'] = first
        S.x = list(first)
    if start[1]:
        options['position'] = first
        S.p = list(first)
    e = CausetEvent(label=2, past=[before], **options)
    first[0] = 9.0
    check_event(e, S)
    for op, kind, x in zip(ops, kinds, X):
        step(e, S, op, kind, x)
        check_event(e, S)
    vh.check(before < e and e.PastCard == 1 and e.Label == 2, 'order')


def step(e, S, op, kind, x):
    if op == 0:
        failed = fails(lambda: e.embed(iterable(kind, x)), AttributeError)
        vh.check(failed == (S.x is not None), 'already embedded')
        if S.x is None:
            S.x = list(x)
    elif op == 1:
        e.embed(iterable(kind, x), reembed=True)
        S.x = list(x)
    elif op == 2:
        if S.x is not None:
            e.disembed()
            S.x = None
    elif op == 3:
        failed = fails(lambda: place(e, iterable(kind, x)), ValueError)
        vh.check(failed == (len(x) != 2), 'invalid position')
        if len(x) == 2:
            S.p = list(x)
    elif op == 4:
        # arguments are not kept
        y = list(x)
        e.embed(y, reembed=True)
        y[0] = y[0] + 1.0
        S.x = list(x)
    elif len(x) == 2:
        y = list(x)
        e.Position = y
        y[1] = y[1] - 1.0
        S.p = list(x)


def copies():
    """copies are not embedded"""
    x = [vh.real(-2.0, 2.0) for i in range(3)]
    y = [vh.real(-2.0, 2.0) for i in range(2)]
    embed = vh.boolean()
    label = vh.integer(0, 2)
    linked = vh.boolean()
    name = [7, 'a', None][label]
    before = CausetEvent(label=1)
    e = CausetEvent(label=name, past=[before], coordinates=x)
    if linked:
        e.link()
    c = e.copy()
    S, C = Expected(), Expected()
    S.x = list(x)
    vh.check(c is not e and c.Label == name, 'copy')
    vh.check(c.Past == {before} and c.Future == set(), 'order of the copy')
    check_event(c, C)
    if embed:
        c.embed(y)
        C.x = list(y)
    else:
        e.disembed()
        S.x = None
    check_event(e, S)
    check_event(c, C)


def relabel(n, d):
    """labels in the order of a coordinate"""
    c = [[vh.real(-1.0, 1.0) for k in range(d)] for i in range(n)]
    dim = vh.integer(0, d - 1)
    down = vh.boolean()
    default = vh.boolean()
    if default:
        vh.assume(dim == 0 and not down)
    C = EmbeddedCauset(dim=d)
    E = [CausetEvent(label=n - i, coordinates=c[i]) for i in range(n)]
    C.add(set(E))
    if default:
        C.relabel()
    else:
        C.relabel(dim, descending=down)
    L = [int(e.Label) for e in E]
    for k in range(n):
        vh.check(k + 1 in L, 'numbers of the events')
    for i in range(n):
        for j in range(n):
            a, b = c[i][dim], c[j][dim]
            if a < b:
                vh.check(L[i] > L[j] if down else L[i] < L[j],
                         'order of labels')
    vh.check(C.Card == n and all([list(E[i].Coordinates) == c[i]
                                  for i in range(n)]), 'events stay')
