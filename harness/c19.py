from common import *
import numpy as np

CASES = [
    dict(fn='interval_card', params=dict(n=5), tier='quick'),
    dict(fn='interval_card', params=dict(n=6), tier='quick', extra=True),
    dict(fn='interval_card', params=dict(n=12), tier='quick', extra=True),
    dict(fn='interval_card', params=dict(n=7), tier='thorough'),
    dict(fn='interval_card_sets', params=dict(n=4), tier='quick'),
    dict(fn='interval_card_sets', params=dict(n=5), tier='quick', extra=True),
    dict(fn='interval_card_sets', params=dict(n=12), tier='quick', extra=True),
    dict(fn='interval_card_sets', params=dict(n=6), tier='thorough'),
    dict(fn='distances', params=dict(n=5, k=3), tier='quick'),
    dict(fn='distances', params=dict(n=6, k=4), tier='quick', extra=True),
    dict(fn='distances', params=dict(n=12, k=3), tier='quick', extra=True),
    dict(fn='distances', params=dict(n=7, k=4), tier='thorough'),
    dict(fn='neighbours', params=dict(k=4), tier='quick'),
    dict(fn='neighbours', params=dict(k=5), tier='quick'),
    dict(fn='ring', params=dict(p=[0, 1, 2, 4, 3, 6, 5]), tier='quick'),
    dict(fn='ring', params=dict(p=[0, 1, 3, 6, 4, 5, 2]), tier='quick'),
    dict(fn='ring', params=dict(p=[0, 3, 6, 2, 5, 1, 7, 4]), tier='thorough'),
    dict(fn='ring', params=dict(p=[7, 0, 6, 1, 5, 2, 4, 3]), tier='thorough'),
    dict(fn='counting', params=dict(n=5, k=3), tier='quick'),
    dict(fn='counting', params=dict(n=6, k=3), tier='quick', extra=True),
    dict(fn='counting', params=dict(n=12, k=3), tier='quick', extra=True),
    dict(fn='counting', params=dict(n=7, k=3), tier='thorough'),
    dict(fn='antipaths', params=dict(n=5, k=3), tier='quick'),
    dict(fn='antipaths', params=dict(n=6, k=4), tier='quick', extra=True),
    dict(fn='antipaths', params=dict(n=12, k=3), tier='quick', extra=True),
    dict(fn='antipaths', params=dict(n=7, k=4), tier='thorough'),
]


def least(xs):
    """smallest of the guarded numbers, None if none applies"""
    m = None
    for g, x in xs:
        if g and (m is None or x < m):
            m = x
    return m


def smallest(R, S, X, a, b):
    """spec for a != b: S limits the end points, X is what is counted"""
    n = len(R)
    N = range(n)
    if R[b][a]:
        a, b = b, a
    if R[a][b] and S[a] and S[b]:
        return sum([X[k] and (R[a][k] and R[k][b] or k == a or k == b)
                    for k in N])
    if R[a][b] and S[a]:
        return sum([X[k] and R[a][k] for k in N])
    if R[a][b] and S[b]:
        return sum([X[k] and R[k][b] for k in N])
    lo = [S[k] and R[k][a] and R[k][b] for k in N]
    hi = [S[k] and R[a][k] and R[b][k] for k in N]
    if not any(lo) and not any(hi):
        return 0
    if not any(lo):
        return least([(hi[f], sum([X[k] and R[k][f] for k in N]))
                      for f in N])
    if not any(hi):
        return least([(lo[p], sum([X[k] and R[p][k] for k in N]))
                      for p in N])
    return least([(lo[p] and hi[f],
                   sum([X[k] and (R[p][k] and R[k][f] or k == p or k == f)
                        for k in N])) for p in N for f in N if p != f])


def interval_card(n):
    R, E, C = causet(n)
    every = [True] * n
    for j in range(1, n):
        vh.check(C.SmallestIntervalCard(E[0], E[j])
                 == smallest(R, every, every, 0, j), 'SmallestIntervalCard')
    vh.check(C.SmallestIntervalCard(E[0], E[0]) == 1,
             'interval of a single event')


def interval_card_sets(n):
    R, E, C = causet(n)
    S = subset(n)
    X = subset(n)
    every = [True] * n
    for a, b in ((0, 1), (n - 1, 0)):
        vh.check(C.SmallestIntervalCard(E[a], E[b], searching=pick(E, S))
                 == smallest(R, S, every, a, b),
                 'SmallestIntervalCard within a set')
        vh.check(C.SmallestIntervalCard(E[a], E[b], intersecting=pick(E, X))
                 == smallest(R, every, X, a, b),
                 'SmallestIntervalCard counting a set')
        vh.check(C.SmallestIntervalCard(E[a], E[b], searching=pick(E, S),
                                        intersecting=pick(E, X))
                 == smallest(R, S, X, a, b),
                 'SmallestIntervalCard with two sets')
    F = CausetEvent(label='other')
    A = pick(E, S) | {F}
    B = pick(E, X) | {F}
    C.SmallestIntervalCard(E[0], E[1], searching=A, intersecting=B)
    vh.check(eq_set(A, E + [F], S + [True]) and
             eq_set(B, E + [F], X + [True]), 'given sets are left alone')


def antichain(n, k):
    """an order in which the first k events are an antichain"""
    R = any_order(n)
    for i in range(k):
        for j in range(k):
            vh.assume(not R[i][j])
    E = events(R)
    C = Causet(set(E))
    vh.sweep()
    return R, E, C


def adjacent(R, k):
    """events of the antichain and those all of whose intervals to it are
    links"""
    n = len(R)
    out = []
    for e in range(n):
        if e < k:
            out.append(True)
        else:
            up = any([R[e][a] for a in range(k)]) and not any(
                [R[e][m] and R[m][a] for a in range(k) for m in range(n)])
            dn = any([R[a][e] for a in range(k)]) and not any(
                [R[a][m] and R[m][e] for a in range(k) for m in range(n)])
            out.append(up or dn)
    return out


def distances(n, k):
    R, E, C = antichain(n, k)
    D = C.DistanceMatrix(E[:k])
    D1 = C.DistanceMatrix(E[:k], recursive=False)
    S = adjacent(R, k)
    near = [[i != j and any([S[m] and (R[i][m] and R[j][m] or
                                       R[m][i] and R[m][j])
                             for m in range(n)])
             for j in range(k)] for i in range(k)]
    # walk[s][i][j]: a walk of s steps
    walk = [[[i == j for j in range(k)] for i in range(k)]]
    for s in range(1, k):
        walk.append([[any([walk[s - 1][i][m] and near[m][j] for m in range(k)])
                      for j in range(k)] for i in range(k)])
    for i in range(k):
        vh.check(D[i, i] == 0 and D1[i, i] == 0, 'no distance to itself')
        for j in range(k):
            vh.check(D[i, j] == D[j, i], 'symmetric')
            if i != j:
                vh.check(D1[i, j] == (1 if near[i][j] else -1),
                         'events with a common neighbour have distance 1')
                vh.check(not near[i][j] or D[i, j] == 1,
                         'events with a common neighbour keep distance 1')
                d = -1
                for s in range(k - 1, 0, -1):
                    if walk[s][i][j]:
                        d = s
                vh.check(D[i, j] == d, 'distances count the steps')


def neighbours(k):
    """an antichain of k events, any pairs of them with an event above both"""
    N = {}
    for i in range(k):
        for j in range(i):
            N[i, j] = N[j, i] = vh.boolean()
    steps(k, N)


def ring(p):
    """an antichain arranged along parts of a ring"""
    k = len(p)
    N = {}
    for i in range(k):
        for j in range(k):
            N[i, j] = False
    for i in range(k):
        a, b = p[i], p[(i + 1) % k]
        N[a, b] = N[b, a] = vh.boolean()
    steps(k, N)


def steps(k, N):
    E = [CausetEvent(label=i + 1) for i in range(k)]
    F = [CausetEvent(label=(i + 1) * k + j, past={E[i], E[j]})
         for i in range(k) for j in range(i) if N[i, j]]
    D = Causet(set(E)).DistanceMatrix(E)
    for i in range(k):
        # reached in s steps
        near = [j == i for j in range(k)]
        far = [0 if j == i else -1 for j in range(k)]
        for s in range(1, k):
            near = [near[j] or any([near[m] and N[m, j]
                                    for m in range(k) if m != j])
                    for j in range(k)]
            for j in range(k):
                if near[j] and far[j] == -1:
                    far[j] = s
        for j in range(k):
            vh.check(D[i, j] == far[j], 'distances count the steps')


def counting(n, k):
    R, E, C = antichain(n, k)
    D = C.DistanceMatrix(E[:k], counting='intersection', recursive=False)
    S = adjacent(R, k)
    X = [i < k for i in range(n)]
    for i in range(k):
        for j in range(k):
            if i == j:
                vh.check(D[i, j] == 0, 'no distance to itself')
            else:
                vh.check(D[i, j] == smallest(R, S, X, i, j) - 1,
                         'distance is the size of the smallest interval')
    try:
        C.DistanceMatrix(E[:k], counting='steps')
        vh.fail('unknown counting method')
    except ValueError:
        pass


def antipaths(n, k):
    R, E, C = antichain(n, k)
    A = E[:k]
    D = C.DistanceMatrix(A)
    P = list(C.Antipaths(A[0], A[1], A))
    Q = list(C.Antipaths(A[0], A[1], A, distances=D))
    vh.check(len(P) == len(Q), 'given distances change nothing')
    total = 0
    for c in routes(k):
        g = all([D[c[i], c[i + 1]] == 1 for i in range(len(c) - 1)]) and \
            D[0, 1] == len(c) - 1
        p = [A[i] for i in c]
        vh.check(sum([q == p for q in P]) == (1 if g else 0),
                 'each shortest path once')
        total += 1 if g else 0
    vh.check(len(P) == total, 'nothing but shortest paths')
    vh.check(list(C.Antipaths(A[0], A[0], A)) == [[A[0]]],
             'path to itself')


def routes(k):
    """all simple routes from 0 to 1"""
    out = []

    def go(c):
        if c[-1] == 1:
            out.append(c)
            return
        for m in range(k):
            if m not in c:
                go(c + [m])
    go([0])
    return out
