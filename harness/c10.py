from common import *

CASES = [
    dict(fn='intervals', params=dict(n=5), tier='quick'),
    dict(fn='intervals', params=dict(n=8), tier='quick', extra=True),
    dict(fn='intervals', params=dict(n=12), tier='quick', extra=True),
    dict(fn='intervals', params=dict(n=9), tier='thorough'),
    dict(fn='intervals', params=dict(n=16), tier='thorough'),
    dict(fn='perimeter', params=dict(n=5), tier='quick'),
    dict(fn='perimeter', params=dict(n=7), tier='quick', extra=True),
    dict(fn='perimeter', params=dict(n=12), tier='quick', extra=True),
    dict(fn='perimeter', params=dict(n=8), tier='thorough'),
    dict(fn='perimeter', params=dict(n=16), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def intervals(n):
    R = any_order(n)
    intervals_of(R, events(R))


def intervals_of(R, E):
    n = len(E)
    N = range(n)
    for i in N:
        for j in N:
            a, b = E[i], E[j]
            inner = [R[i][k] and R[k][j] for k in N]
            full = [inner[k] or (R[i][j] or i == j) and (k == i or k == j)
                    for k in N]
            if i == j:
                inner = full
            vh.check(eq_set(Causet.Interval(a, b), E, full), 'Interval')
            vh.check(eq_set(Causet.Interval(a, b, includeBoundary=False),
                            E, inner), 'open Interval')
            vh.check(Causet.IntervalCard(a, b) == sum(full), 'IntervalCard')
            vh.check(Causet.IntervalCard(a, b, includeBoundary=False)
                     == sum(inner), 'open IntervalCard')
    check_order(E, R, 'intervals')


def perimeter(n):
    R = any_order(n)
    perimeter_of(R, events(R))


def perimeter_of(R, E):
    n = len(E)
    L = links(R)
    N = range(n)
    for i in N:
        for j in (0, n - 1):
            a, b = E[i], E[j]
            per = [L[i][k] and L[k][j] for k in N]
            inn = [R[i][k] and R[k][j] and not per[k] for k in N]
            vh.check(eq_set(Causet.PerimetralEvents(a, b), E, per),
                     'PerimetralEvents')
            vh.check(Causet.PerimetralEventCount(a, b) == sum(per),
                     'PerimetralEventCount')
            vh.check(eq_set(Causet.InternalEvents(a, b), E, inn),
                     'InternalEvents')
            vh.check(Causet.InternalEventCount(a, b) == sum(inn),
                     'InternalEventCount')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        intervals_of(R, E)
        perimeter_of(R, E)

    twice(how, n, ask)
