from common import *
from causets.sprinkledcauset import SprinkledCauset

CASES = [
    dict(fn='growing', params=dict(n=4), tier='quick'),
    dict(fn='growing', params=dict(n=6), tier='quick', extra=True),
    dict(fn='growing', params=dict(n=12), tier='quick', extra=True),
    dict(fn='growing', params=dict(n=7), tier='thorough'),
    dict(fn='growing', params=dict(n=14), tier='thorough'),
    dict(fn='shrinking', params=dict(n=5), tier='quick'),
    dict(fn='shrinking', params=dict(n=6), tier='quick', extra=True),
    dict(fn='shrinking', params=dict(n=12), tier='quick', extra=True),
    dict(fn='shrinking', params=dict(n=7), tier='thorough'),
    dict(fn='shrinking', params=dict(n=14), tier='thorough'),
    dict(fn='merging_parts', params=dict(n=5, a=2), tier='quick'),
    dict(fn='merging_parts', params=dict(n=7, a=3), tier='quick',
         extra=True),
    dict(fn='merging', params=dict(a=3, b=3), tier='quick'),
    dict(fn='merging', params=dict(a=4, b=4), tier='quick', extra=True),
    dict(fn='merging', params=dict(a=12, b=3), tier='quick', extra=True),
    dict(fn='merging', params=dict(a=5, b=5), tier='thorough'),
    dict(fn='adding', params=dict(n=4), tier='quick'),
    dict(fn='adding', params=dict(n=6), tier='quick', extra=True),
    dict(fn='adding', params=dict(n=12), tier='quick', extra=True),
    dict(fn='adding', params=dict(n=7), tier='thorough'),
    dict(fn='adding', params=dict(n=14), tier='thorough'),
    dict(fn='removing', params=dict(n=4), tier='quick'),
    dict(fn='removing', params=dict(n=5), tier='quick', extra=True),
    dict(fn='removing', params=dict(n=12), tier='quick', extra=True),
    dict(fn='removing', params=dict(n=6), tier='thorough'),
    dict(fn='removing', params=dict(n=14), tier='thorough'),
    dict(fn='adding', params=dict(n=4, sprinkled=True), tier='quick'),
    dict(fn='removing', params=dict(n=4, sprinkled=True), tier='quick'),
    dict(fn='copies', params=dict(n=4), tier='quick'),
    dict(fn='copies', params=dict(n=6), tier='quick', extra=True),
    dict(fn='copies', params=dict(n=12), tier='quick', extra=True),
    dict(fn='copies', params=dict(n=7), tier='thorough'),
    dict(fn='copies', params=dict(n=14), tier='thorough'),
]


def counts(E, R, msg):
    n = len(E)
    L = links(R)
    for i in range(n):
        vh.check(E[i].LinkPastCard == sum([L[j][i] for j in range(n)]),
                 msg + ': number of past links')
        vh.check(E[i].LinkFutureCard == sum([L[i][j] for j in range(n)]),
                 msg + ': number of future links')


def some_linked(E, Q):
    for i in range(len(E)):
        if Q[i]:
            E[i].link()


def growing(n):
    """events are added while some of the others know their links"""
    R = any_order(n)
    Q = [subset(k + 1) for k in range(n)]
    E = []
    for k in range(n):
        E.append(CausetEvent(past={E[i] for i in range(k) if R[i][k]},
                             future={E[i] for i in range(k) if R[k][i]}))
        some_linked(E, Q[k])
    vh.sweep()
    check_links(E, R, 'after adding events')
    counts(E, R, 'after adding events')


def shrinking(n):
    """events are removed one after the other, links known or not"""
    R = any_order(n)
    Q = [subset(n) for k in range(n - 1)]
    E = events(R)
    for k in range(n - 1):
        some_linked(E[k:], Q[k][k:])
        E[k].disjoin()
        vh.sweep()
        rest = [[R[i][j] for j in range(k + 1, n)] for i in range(k + 1, n)]
        if k % 2 or k >= n - 2:
            check_links(E[k + 1:], rest, 'after removing events')
            counts(E[k + 1:], rest, 'after removing events')
        vh.check(eq_set(E[k].LinkPast, E, [False] * n) and
                 eq_set(E[k].LinkFuture, E, [False] * n),
                 'a removed event has no links')


def merging(a, b):
    R1 = any_order(a)
    R2 = any_order(b)
    Q1 = subset(a)
    Q2 = subset(b)
    apart = vh.boolean()
    E1 = events(R1)
    E2 = events(R2)
    some_linked(E1, Q1)
    some_linked(E2, Q2)
    vh.sweep()
    C = Causet.merge(set(E1), set(E2), disjoint=apart)
    n = a + b
    R = [[False] * n for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i < a and j < a:
                R[i][j] = R1[i][j]
            elif i >= a and j >= a:
                R[i][j] = R2[i - a][j - a]
            elif i < a:
                R[i][j] = not apart
    E = E1 + E2
    check_links(E, R, 'after merging')
    counts(E, R, 'after merging')
    L = links(R)
    vh.check(C.LinkCount() == sum([L[i][j] for i in range(n)
                                   for j in range(n)]),
             'number of links after merging')


def merging_parts(n, a):
    """some pairs of events from the two parts are related before"""
    R = any_order(n, natural=True)
    Q = subset(n)
    E = events(R)
    some_linked(E, Q)
    vh.sweep()
    Causet.merge(E[:a], E[a:])
    for i in range(a):
        for j in range(a, n):
            R[i][j] = True
    check_links(E, R, 'after merging parts')
    counts(E, R, 'after merging parts')


def adding(n, sprinkled=False):
    """Causet.add with a request to forget the links"""
    R = any_order(n)
    Q = [subset(n), subset(n)]
    k = n // 2
    E = []
    for i in range(k):
        E.append(CausetEvent(past=[E[j] for j in range(i) if R[j][i]],
                             future=[E[j] for j in range(i) if R[i][j]]))
    if sprinkled:
        C = SprinkledCauset()
        C.add(set(E))
    else:
        C = Causet(set(E))
    some_linked(E, Q[0])
    for i in range(k, n):
        E.append(CausetEvent(past=[E[j] for j in range(i) if R[j][i]],
                             future=[E[j] for j in range(i) if R[i][j]]))
    some_linked(E, Q[1])
    C.add(E[k:], unlink=True)
    vh.check(eq_set(set(C), E, [True] * n), 'events were added')
    for e in E:
        vh.check(not e.hasBeenLinked(), 'links are forgotten')
    check_links(E, R, 'after Causet.add')


def removing(n, sprinkled=False):
    """Causet.discard with a request to forget the links"""
    R, E, C = causet(n)
    if sprinkled:
        C = SprinkledCauset()
        C.add(set(E))
    Q = subset(n)
    some_linked(E, Q)
    S = subset(n)
    for i in range(n):
        if S[i]:
            E[i].disjoin()
    C.discard(pick(E, S), unlink=True)
    rest = [[R[i][j] and not S[i] and not S[j] for j in range(n)]
            for i in range(n)]
    vh.check(eq_set(set(C), E, [not S[i] for i in range(n)]),
             'events were discarded')
    vh.sweep()
    for i in range(n):
        vh.check(S[i] or not E[i].hasBeenLinked(), 'links are forgotten')
    check_links(E, rest, 'after Causet.discard')


def copies(n):
    """a copied event has the same relatives and links and is independent"""
    R = any_order(n)
    E = events(R)
    Q = subset(n)
    some_linked(E, Q)
    L = links(R)
    K = [e.copy() for e in E]
    for i in range(n):
        vh.check(eq_set(K[i].Past, E, [R[j][i] for j in range(n)]),
                 'past of a copy')
        vh.check(eq_set(K[i].Future, E, [R[i][j] for j in range(n)]),
                 'future of a copy')
        vh.check(eq_set(K[i].LinkPast, E, [L[j][i] for j in range(n)]),
                 'past links of a copy')
        vh.check(eq_set(K[i].LinkFuture, E, [L[i][j] for j in range(n)]),
                 'future links of a copy')
        vh.check(K[i].Label == E[i].Label, 'label of a copy')
    new = CausetEvent(past=set(E))
    old = CausetEvent(future=set(E))
    for i in range(n):
        vh.check(eq_set(K[i].Future, E, [R[i][j] for j in range(n)]),
                 'a copy is independent')
        vh.check(eq_set(K[i].Past, E, [R[j][i] for j in range(n)]),
                 'the past of a copy is independent')
        vh.check(eq_set(K[i].LinkPast, E, [L[j][i] for j in range(n)]),
                 'past links of a copy are independent')
        vh.check(eq_set(K[i].LinkFuture, E, [L[i][j] for j in range(n)]),
                 'future links of a copy are independent')
    old.disjoin()
    check_links(E + [new], [[R[i][j] for j in range(n)] + [True]
                            for i in range(n)] + [[False] * (n + 1)],
                'after copying')
