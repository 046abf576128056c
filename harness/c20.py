from common import *
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset
from causets.spacetimes import Spacetime

CASES = [
    dict(fn='created', params=dict(n=5), tier='quick'),
    dict(fn='created', params=dict(n=6), tier='quick', extra=True),
    dict(fn='created', params=dict(n=12), tier='quick', extra=True),
    dict(fn='created', params=dict(n=7), tier='thorough'),
    dict(fn='created', params=dict(n=16), tier='thorough'),
    dict(fn='batches', params=dict(n=5), tier='quick'),
    dict(fn='batches', params=dict(n=6), tier='quick', extra=True),
    dict(fn='batches', params=dict(n=12), tier='quick', extra=True),
    dict(fn='batches', params=dict(n=7), tier='thorough'),
    dict(fn='batches', params=dict(n=16), tier='thorough'),
    dict(fn='again', params=dict(n=4), tier='quick'),
    dict(fn='again', params=dict(n=5), tier='quick', extra=True),
    dict(fn='again', params=dict(n=12), tier='quick', extra=True),
    dict(fn='again', params=dict(n=6), tier='thorough'),
    dict(fn='again', params=dict(n=16), tier='thorough'),
    dict(fn='unrelated', params=dict(n=4), tier='quick'),
    dict(fn='unrelated', params=dict(n=6), tier='quick', extra=True),
    dict(fn='unrelated', params=dict(n=12), tier='quick', extra=True),
    dict(fn='unrelated', params=dict(n=7), tier='thorough'),
    dict(fn='unrelated', params=dict(n=16), tier='thorough'),
    dict(fn='batches', params=dict(n=4, sprinkled=True), tier='quick'),
    dict(fn='unrelated', params=dict(n=4, sprinkled=True), tier='quick'),
    dict(fn='labels', params=dict(n=3, sprinkled=True), tier='quick'),
    dict(fn='labels', params=dict(n=3), tier='quick'),
    dict(fn='labels', params=dict(n=5), tier='quick', extra=True),
    dict(fn='labels', params=dict(n=7), tier='thorough'),
]


class AnySpacetime(Spacetime):
    """points are numbered, the causal order is an arbitrary matrix"""

    def __init__(self, R):
        super().__init__()
        self.R = R

    def Causality(self):
        def isCausal(x, y):
            i, j = int(x[0]), int(y[0])
            return (self.R[i][j], self.R[j][i])
        return isCausal


def empty(R, sprinkled):
    M = AnySpacetime(R)
    if sprinkled:
        return SprinkledCauset(spacetime=M, shape='cube')
    return EmbeddedCauset(spacetime=M, shape='cube')


def points(lo, hi):
    return [[float(i), 0.5 * i] for i in range(lo, hi)]


def in_order(C, n):
    """the events by the number of their point"""
    E = [None] * n
    for e in C:
        E[int(e.Coordinates[0])] = e
    return E


def created(n):
    """the order of the events is the order of their points"""
    R = any_order(n)
    C = EmbeddedCauset(spacetime=AnySpacetime(R), shape='cube',
                       coordinates=points(0, n))
    vh.check(C.Card == n, 'one event per point')
    E = in_order(C, n)
    vh.sweep()
    check_order(E, R, 'created')
    check_links(E, R, 'created')
    for i in range(n):
        vh.check(E[i].Label == i + 1, 'events are numbered')
        vh.check(list(E[i].Coordinates) == [float(i), 0.5 * i],
                 'coordinates of an event')


def batches(n, sprinkled=False):
    """events created in several batches are related to each other"""
    R = any_order(n)
    k = n // 2
    C = empty(R, sprinkled)
    vh.check(C.Card == 0, 'no event without coordinates')
    A = C.create(points(0, k))
    vh.sweep()
    B = C.create(points(k, n))
    E = in_order(C, n)
    vh.sweep()
    vh.check(eq_set(A, E, [i < k for i in range(n)]) and
             eq_set(B, E, [i >= k for i in range(n)]),
             'create returns the new events')
    vh.check(C.Card == n, 'one event per point')
    check_order(E, R, 'created in batches')
    check_links(E, R, 'created in batches')
    for i in range(n):
        vh.check(E[i].Label == i + 1, 'events are numbered')


def again(n):
    """relate replaces all relations, whatever they have been"""
    R = any_order(n)
    Q = any_order(n)
    link = vh.boolean()
    M = AnySpacetime(Q)
    C = EmbeddedCauset(spacetime=M, shape='cube', coordinates=points(0, n))
    E = in_order(C, n)
    M.R = R
    C.relate(link=link)
    vh.sweep()
    vh.check(C.Card == n, 'the events are the same')
    for e in E:
        vh.check(e in C, 'the events are the same')
        vh.check(e.hasBeenLinked() == link, 'links are known on request')
    check_order(E, R, 'related again')
    check_links(E, R, 'related again')


def unrelated(n, sprinkled=False):
    """events created without relating them"""
    R = any_order(n)
    C = empty(R, sprinkled)
    C.create(points(0, n), relate=False)
    E = in_order(C, n)
    check_order(E, [[False] * n for i in range(n)], 'not related')
    C.relate(link=False)
    vh.sweep()
    check_order(E, R, 'related later')
    check_links(E, R, 'related later')


def labels(n, sprinkled=False):
    k = vh.integer(0, n)
    R = [[False] * 10 for i in range(10)]
    C = empty(R, sprinkled)
    C.create(points(0, 2))
    A = C.create([[float(i), 0.0] for i in range(2, 2 + k)],
                 labelFormat='p{}')
    vh.check(len(A) == k and C.Card == k + 2, 'number of new events')
    for e in A:
        vh.check(e.Label == 'p%d' % (int(e.Coordinates[0]) + 1),
                 'formatted labels count on')
    B = C.create([[9.0, 0.0]])
    for e in B:
        vh.check(e.Label == k + 3, 'labels count on')
