from common import *
import itertools

CASES = [
    dict(fn='permutation', params=dict(n=5), tier='quick'),
    dict(fn='permutation', params=dict(n=6), tier='quick', extra=True),
    dict(fn='permutation', params=dict(n=12), tier='quick', extra=True),
    dict(fn='permutation', params=dict(n=7), tier='thorough'),
    dict(fn='labelling', params=dict(n=3), tier='quick'),
    dict(fn='labelling', params=dict(n=5), tier='quick', extra=True),
    dict(fn='labelling', params=dict(n=7), tier='thorough'),
    dict(fn='chains', params=dict(n=6), tier='quick'),
    dict(fn='chains', params=dict(n=8), tier='quick', extra=True),
    dict(fn='chains', params=dict(n=10), tier='thorough'),
    dict(fn='fences', params=dict(n=4, h=2), tier='quick'),
    dict(fn='fences', params=dict(n=6, h=4), tier='thorough'),
    dict(fn='large_fences', params=dict(n=5, h=3), tier='quick', extra=True),
    dict(fn='large_fences', params=dict(n=12, h=1), tier='quick', extra=True),
    dict(fn='large_fences', params=dict(n=7, h=9), tier='thorough'),
    dict(fn='simplices', params=dict(d=3), tier='quick'),
    dict(fn='simplices', params=dict(d=4), tier='quick', extra=True),
    dict(fn='simplices', params=dict(d=5), tier='thorough'),
]


def by_label(C, n):
    E = [None] * n
    for e in C:
        E[e.Label - 1] = e
    return E


def permuted(n):
    """an arbitrary permutation; a large one permutes four numbers of a fixed
    permutation"""
    if n < 10:
        return vh.perm(n, 1)
    Q = vh.perm(4, 0)
    P = [(5 * i + 3) % n + 1 for i in range(n)]
    spots = [1, 4, n - 4, n - 1]
    old = [P[i] for i in spots]
    for k in range(4):
        P[spots[k]] = old[Q[k]]
    return P


def permutation(n):
    """value u at position v is an event with light-cone coordinates u, v"""
    P = permuted(n)
    C = Causet.FromPermutation(list(P))
    vh.check(C.Card == n, 'number of events')
    E = by_label(C, n)
    pos = [0] * n
    for v in range(n):
        pos[P[v] - 1] = v
    R = [[i < j and pos[i] < pos[j] for j in range(n)] for i in range(n)]
    check_order(E, R, 'FromPermutation')


def labelling(n):
    P = permuted(n)
    C = Causet.FromPermutation(list(P), labelFormat='')
    for e in C:
        vh.check(e.Label is None, 'no labels')
    C = Causet.FromPermutation(list(P), labelFormat='e{}')
    for k in range(1, n + 1):
        vh.check(sum([e.Label == 'e%d' % k for e in C]) == 1,
                 'formatted labels')


def chains(n):
    k = vh.integer(0, n)
    C = Causet.NewChain(k)
    vh.check(C.Card == k, 'number of events of a chain')
    vh.check(C.isChain(), 'NewChain')
    A = Causet.NewAntichain(k)
    vh.check(A.Card == k, 'number of events of an antichain')
    vh.check(A.isAntichain(), 'NewAntichain')
    for e in C:
        vh.check(e.PastCard == e.Label - 1, 'labels of a chain')
    for e in A:
        vh.check(1 <= e.Label <= k, 'labels of an antichain')


def fences(n, h):
    length = vh.integer(0, n)
    height = vh.integer(-1, h)
    closed = vh.boolean()
    check_fence(length, height, closed)


def large_fences(n, h):
    closed = vh.boolean()
    check_fence(n, h, closed)


def check_fence(length, height, closed):
    C = Causet.NewFence(length, height, closed)
    if length < 1 or height < 0:
        vh.check(C.Card == 0, 'empty fence')
        return
    vh.check(C.Card == length * (height + 1), 'number of events of a fence')
    for e in C:
        for f in C:
            i, l = (e.Label - 1) % length, (e.Label - 1) // length
            j, m = (f.Label - 1) % length, (f.Label - 1) // length
            d = j - i
            if closed or length == 1:
                d = d % length
            vh.check((e < f) == (l < m and 0 <= d <= m - l), 'NewFence')
    K = Causet.NewCrown(length)
    vh.check(K.Card == 2 * length, 'number of events of a crown')
    for e in K:
        for f in K:
            d = (f.Label - e.Label) % length
            vh.check((e < f) == (e.Label <= length < f.Label and
                                 (d == 0 or d == 1)), 'NewCrown')


def simplices(d):
    d = vh.integer(0, d)
    central = vh.boolean()
    C = Causet.NewSimplex(d, central)
    vh.check(C.Card == 2 ** (d + 1) - 1 - (0 if central or d == 0 else 1),
             'number of faces')
    faces = [(e, set(e.Label.split('-'))) for e in C]
    for e, s in faces:
        for f, t in faces:
            vh.check((e < f) == (s < t), 'NewSimplex: order of faces')
            vh.check((e is f) == (s == t), 'NewSimplex: faces are distinct')
