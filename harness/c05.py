from common import *

CASES = [
    dict(fn='remove_one', params=dict(n=5), tier='quick'),
    dict(fn='remove_one', params=dict(n=7), tier='quick', extra=True),
    dict(fn='remove_one', params=dict(n=12), tier='quick', extra=True),
    dict(fn='remove_one', params=dict(n=8), tier='thorough'),
    dict(fn='remove_one', params=dict(n=16), tier='thorough'),
    dict(fn='remove_some', params=dict(n=5), tier='quick'),
    dict(fn='remove_some', params=dict(n=6), tier='quick', extra=True),
    dict(fn='remove_some', params=dict(n=12), tier='quick', extra=True),
    dict(fn='remove_some', params=dict(n=7), tier='thorough'),
    dict(fn='remove_some', params=dict(n=16), tier='thorough'),
    dict(fn='reinsert', params=dict(n=5), tier='quick'),
    dict(fn='reinsert', params=dict(n=7), tier='quick', extra=True),
    dict(fn='reinsert', params=dict(n=12), tier='quick', extra=True),
    dict(fn='reinsert', params=dict(n=8), tier='thorough'),
    dict(fn='reinsert', params=dict(n=16), tier='thorough'),
]


def without(R, D):
    n = len(R)
    return [[R[i][j] and not D[i] and not D[j] for j in range(n)]
            for i in range(n)]


def alone(e):
    vh.check(len(e.Past) == 0 and len(e.Future) == 0 and
             len(e.LinkPast) == 0 and len(e.LinkFuture) == 0 and
             e.LinkPastCard == 0 and e.LinkFutureCard == 0,
             'a removed event has no relatives')


def remove_one(n):
    R = any_order(n)
    linked = vh.boolean()
    E = events(R)
    if linked:
        E[0].link()
    E[0].disjoin()
    check_order(E, without(R, [True] + [False] * (n - 1)), 'disjoin')
    vh.check(E[0].ConeCard == 1, 'a removed event is alone')
    alone(E[0])
    E[0].disjoin()
    check_order(E, without(R, [True] + [False] * (n - 1)), 'disjoin twice')


def remove_some(n):
    R = any_order(n)
    S = subset(n)
    Q = subset(n)
    E = events(R)
    for i in range(n):
        if Q[i]:
            E[i].link()
    for i in range(n):
        if S[i]:
            E[i].disjoin()
    check_order(E, without(R, S), 'disjoin')
    for i in range(n):
        if S[i]:
            alone(E[i])


def reinsert(n):
    """a new event can take the place of a removed one"""
    R = any_order(n)
    Q = subset(n)
    E = events(R)
    for i in range(n):
        if Q[i]:
            E[i].link()
    E[0].disjoin()
    E[0] = CausetEvent(past=[E[i] for i in range(1, n) if R[i][0]],
                       future=[E[i] for i in range(1, n) if R[0][i]])
    vh.sweep()
    check_order(E, R, 'reinsert')
    check_links(E, R, 'reinsert')
