from common import *

CASES = [
    dict(fn='construct', params=dict(n=6), tier='quick'),
    dict(fn='construct', params=dict(n=8), tier='quick', extra=True),
    dict(fn='construct', params=dict(n=12), tier='quick', extra=True),
    dict(fn='construct', params=dict(n=9), tier='thorough'),
    dict(fn='construct', params=dict(n=16), tier='thorough'),
    dict(fn='links_only', params=dict(n=5), tier='quick'),
    dict(fn='links_only', params=dict(n=7), tier='quick', extra=True),
    dict(fn='links_only', params=dict(n=12), tier='quick', extra=True),
    dict(fn='links_only', params=dict(n=8), tier='thorough'),
    dict(fn='links_only', params=dict(n=16), tier='thorough'),
    dict(fn='generating', params=dict(n=5), tier='quick'),
    dict(fn='generating', params=dict(n=7), tier='quick', extra=True),
    dict(fn='generating', params=dict(n=12), tier='quick', extra=True),
    dict(fn='generating', params=dict(n=8), tier='thorough'),
    dict(fn='generating', params=dict(n=16), tier='thorough'),
]


def construct(n):
    """every labelled order, built in an order unrelated to causality"""
    R = any_order(n)
    E = events(R)
    check_order(E, R, 'construction')


def links_only(n):
    """naming only the links is enough: pasts are completed"""
    R = any_order(n, natural=True)
    L = links(R)
    E = []
    for k in range(n):
        E.append(CausetEvent(past=[E[i] for i in range(k) if L[i][k]]))
    check_order(E, R, 'construction from past links')
    F = [None] * n
    for k in range(n - 1, -1, -1):
        F[k] = CausetEvent(future=[F[i] for i in range(k + 1, n)
                                   if L[k][i]])
    check_order(F, R, 'construction from future links')


def generating(n):
    """an arbitrary generating relation yields its transitive closure,
    which is a strict partial order"""
    G = vh.matrix(n, n)
    E = []
    R = [[False] * n for i in range(n)]
    for k in range(n):
        E.append(CausetEvent(past={E[i] for i in range(k) if G[i][k]}))
        for i in range(k):
            R[i][k] = G[i][k] or any([R[i][j] and G[j][k]
                                      for j in range(i + 1, k)])
    check_order(E, R, 'generated order')
    for i in range(n):
        for j in range(n):
            vh.check((E[i] in E[j].Past) == (E[j] in E[i].Future),
                     'past and future are mutual')
            vh.check(not (E[i] in E[j].Past and E[j] in E[i].Past),
                     'antisymmetric')
            for k in range(n):
                vh.check(not (E[i] in E[j].Past and E[j] in E[k].Past)
                         or E[i] in E[k].Past, 'transitive')
