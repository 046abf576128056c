from common import *

CASES = [
    dict(fn='closure', params=dict(n=5), tier='quick'),
    dict(fn='closure', params=dict(n=6), tier='quick', extra=True),
    dict(fn='closure', params=dict(n=12), tier='quick', extra=True),
    dict(fn='closure', params=dict(n=7), tier='thorough'),
    dict(fn='closure', params=dict(n=16), tier='thorough'),
    dict(fn='merging', params=dict(a=3, b=3), tier='quick'),
    dict(fn='merging', params=dict(a=4, b=4), tier='quick', extra=True),
    dict(fn='merging', params=dict(a=12, b=12), tier='quick', extra=True),
    dict(fn='merging', params=dict(a=6, b=6), tier='thorough'),
    dict(fn='merging_parts', params=dict(n=5, a=2), tier='quick'),
    dict(fn='merging_parts', params=dict(n=7, a=3), tier='quick',
         extra=True),
    dict(fn='merging_parts', params=dict(n=12, a=5), tier='quick',
         extra=True),
    dict(fn='changing', params=dict(n=5), tier='quick'),
    dict(fn='changing', params=dict(n=7), tier='quick', extra=True),
    dict(fn='changing', params=dict(n=12), tier='quick', extra=True),
    dict(fn='changing', params=dict(n=8), tier='thorough'),
    dict(fn='changing', params=dict(n=16), tier='thorough'),
]


def closure(n):
    """a causal set made from some events is closed under relatives"""
    R = any_order(n)
    E = events(R)
    S = subset(n)
    X = pick(E, S)
    C = Causet(X)
    T = reach(R)
    W = [any([S[j] and T[j][i] for j in range(n)]) for i in range(n)]
    vh.sweep()
    vh.check(eq_set(set(C), E, W), 'events of a causal set')
    vh.check(C.Card == sum(W), 'Card')
    vh.check(Causet.len(C) == sum(W), 'len')
    for i in range(n):
        vh.check((E[i] in C) == W[i], 'membership')
    k = 0
    for e in C:
        k += 1
    vh.check(k == sum(W), 'iteration')
    vh.check(eq_set(X, E, S), 'the given set is left alone')
    vh.check(Causet().Card == 0, 'empty causal set')
    check_order(E, R, 'closure')


def merging(a, b):
    R1 = any_order(a)
    R2 = any_order(b)
    apart = vh.boolean()
    listed = vh.boolean()
    E1 = events(R1)
    E2 = events(R2)
    C1 = Causet(set(E1))
    C2 = Causet(set(E2))
    if listed:
        C = Causet.merge(E1, E2, disjoint=apart)
    else:
        C = Causet.merge(C1, C2, disjoint=apart)
    n = a + b
    R = [[False] * n for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i < a and j < a:
                R[i][j] = R1[i][j]
            elif i >= a and j >= a:
                R[i][j] = R2[i - a][j - a]
            elif i < a:
                R[i][j] = not apart
    E = E1 + E2
    vh.check(eq_set(set(C), E, [True] * n), 'events after merging')
    check_order(E, R, 'after merging')
    vh.check(C1.Card == a and C2.Card == b, 'parts keep their events')


def merging_parts(n, a):
    """some pairs of events from the two parts are related before"""
    R = any_order(n, natural=True)
    E = events(R)
    apart = vh.boolean()
    C = Causet.merge(E[:a], E[a:], disjoint=apart)
    for i in range(a):
        for j in range(a, n):
            R[i][j] = R[i][j] or not apart
    vh.check(eq_set(set(C), E, [True] * n), 'events after merging')
    check_order(E, R, 'after merging')


def changing(n):
    """add and discard change the membership of exactly the named events"""
    R = any_order(n)
    E = events(R)
    I = subset(n)
    A = subset(n)
    B = subset(n)
    C = Causet(set(E))
    C.discard({E[i] for i in range(n) if not I[i]})
    how = vh.boolean()
    if how:
        C.discard(pick(E, A))
    else:
        C.discard([E[i] for i in range(n) if A[i]])
    vh.check(eq_set(set(C), E, [I[i] and not A[i] for i in range(n)]),
             'discard')
    if how:
        C.add(pick(E, B))
    else:
        C.add([E[i] for i in range(n) if B[i]])
    vh.check(eq_set(set(C), E, [I[i] and not A[i] or B[i]
                               for i in range(n)]), 'add')
    vh.check(C.Card == sum([I[i] and not A[i] or B[i]
                            for i in range(n)]), 'Card')
    check_order(E, R, 'membership does not change the order')
    D = Causet(set(E))
    D.add(Causet())
    D.discard(Causet(set(E)))
    vh.check(D.Card == 0, 'everything discarded')
