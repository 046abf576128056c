from common import *
from causets.embeddedcauset import EmbeddedCauset

CASES = [
    dict(fn='same_order', params=dict(n=4), tier='quick'),
    dict(fn='same_order', params=dict(n=6), tier='thorough'),
    dict(fn='inside', params=dict(n=4), tier='quick'),
    dict(fn='inside', params=dict(n=5), tier='thorough'),
]


def by_label(C, n):
    E = [None] * n
    for e in C:
        E[e.Label - 1] = e
    return E


def same_order(n):
    """embedded and abstract causal set of a permutation have one order"""
    P = vh.perm(n, 1)
    radius = vh.choice([1.0, 0.25, 3.0])
    C = EmbeddedCauset.FromPermutation(list(P), radius=radius)
    vh.check(C.Card == n, 'number of events')
    E = by_label(C, n)
    pos = [0] * n
    for v in range(n):
        pos[P[v] - 1] = v
    R = [[i < j and pos[i] < pos[j] for j in range(n)] for i in range(n)]
    check_order(E, R, 'embedded permutation')
    F = by_label(Causet.FromPermutation(list(P)), n)
    for i in range(n):
        for j in range(n):
            vh.check((E[i] < E[j]) == (F[i] < F[j]),
                     'embedded and abstract order')


def inside(n):
    """events sit in the cell of their value and position, inside the
    diamond"""
    P = vh.perm(n, 1)
    radius = vh.choice([1.0, 0.25, 3.0])
    C = EmbeddedCauset.FromPermutation(list(P), radius=radius)
    E = by_label(C, n)
    vh.check(C.Dim == 2 and C.Shape.Name == 'bicone', 'diamond')
    vh.check(abs(C.Shape.Parameter('radius') - radius) < 1e-6, 'radius')
    for r in (1.0, 0.25, 3.0):
        for v in range(n):
            for i in range(n):
                if radius == r and P[v] == i + 1:
                    t, x = E[i].Coordinates
                    vh.check(len(E[i].Coordinates) == 2, 'two coordinates')
                    vh.check(abs(t) + abs(x) < r, 'inside the diamond')
                    vh.check(abs(t + x - 2 * r * (i + 0.5) / n + r) < 1e-9,
                             'place along one light ray')
                    vh.check(abs(t - x - 2 * r * (v + 0.5) / n + r) < 1e-9,
                             'place along the other light ray')
