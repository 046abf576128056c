from common import *

CASES = [
    dict(fn='event_links', params=dict(n=5), tier='quick'),
    dict(fn='event_links', params=dict(n=7), tier='quick', extra=True),
    dict(fn='event_links', params=dict(n=12), tier='quick', extra=True),
    dict(fn='event_links', params=dict(n=8), tier='thorough'),
    dict(fn='event_links', params=dict(n=16), tier='thorough'),
    dict(fn='linked_causet', params=dict(n=5), tier='quick'),
    dict(fn='linked_causet', params=dict(n=6), tier='quick', extra=True),
    dict(fn='linked_causet', params=dict(n=12), tier='quick', extra=True),
    dict(fn='linked_causet', params=dict(n=7), tier='thorough'),
    dict(fn='linked_causet', params=dict(n=16), tier='thorough'),
    dict(fn='link_counts', params=dict(n=4), tier='quick'),
    dict(fn='link_counts', params=dict(n=6), tier='quick', extra=True),
    dict(fn='link_counts', params=dict(n=12), tier='quick', extra=True),
    dict(fn='link_counts', params=dict(n=7), tier='thorough'),
    dict(fn='link_counts', params=dict(n=16), tier='thorough'),
    dict(fn='reduced', params=dict(n=4), tier='quick'),
    dict(fn='reduced', params=dict(n=6), tier='quick', extra=True),
    dict(fn='reduced', params=dict(n=12), tier='quick', extra=True),
    dict(fn='reduced', params=dict(n=7), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def event_links(n):
    """lazily computed links of single events"""
    R = any_order(n)
    event_links_of(R, events(R))


def event_links_of(R, E):
    n = len(E)
    L = links(R)
    for i in range(n):
        a = E[i]
        for j in range(n):
            vh.check(a.isPastLink(E[j]) == L[j][i], 'isPastLink')
            vh.check(a.isFutureLink(E[j]) == L[i][j], 'isFutureLink')
            vh.check(a.isLinkedTo(E[j]) == (L[i][j] or L[j][i]),
                     'isLinkedTo')
            if R[i][j]:
                vh.check(CausetEvent.isLink(a, E[j]) == L[i][j], 'isLink')
        np = sum([L[j][i] for j in range(n)])
        nf = sum([L[i][j] for j in range(n)])
        vh.check(a.LinkPastCard == np, 'LinkPastCard')
        vh.check(a.LinkFutureCard == nf, 'LinkFutureCard')
        vh.check(a.LinkConeCard == np + nf, 'LinkConeCard')
        vh.check(eq_set(a.LinkCone, E, [L[i][j] or L[j][i]
                                        for j in range(n)]), 'LinkCone')
    check_links(E, R, 'lazy links')
    # counts as the first request
    F = events(R)
    for i in range(n):
        np = sum([L[j][i] for j in range(n)])
        nf = sum([L[i][j] for j in range(n)])
        k = i % 4
        if k == 0:
            vh.check(F[i].LinkConeCard == np + nf, 'first LinkConeCard')
        elif k == 1:
            vh.check(F[i].LinkPastCard == np, 'first LinkPastCard')
        elif k == 2:
            vh.check(F[i].LinkFutureCard == nf, 'first LinkFutureCard')
        else:
            vh.check(eq_set(F[i].LinkCone, F,
                            [L[i][j] or L[j][i] for j in range(n)]),
                     'first LinkCone')
    check_order(E, R, 'linking does not change the order')


def linked_causet(n):
    """links computed for the entire causet"""
    R, E, C = causet(n)
    L = links(R)
    C.link()
    for e in E:
        vh.check(e.hasBeenLinked(), 'linked')
    check_links(E, R, 'Causet.link')
    M = C.LinkPastMatrix(E)
    N = C.LinkFutureMatrix(E)
    for i in range(n):
        for j in range(n):
            vh.check(bool(M[i, j]) == L[j][i], 'LinkPastMatrix')
            vh.check(bool(N[i, j]) == L[i][j], 'LinkFutureMatrix')
    C.unlink()
    for e in E:
        vh.check(not e.hasBeenLinked(), 'unlinked')
    check_links(E, R, 'after unlink')


def link_counts(n):
    link_counts_of(*causet(n))


def link_counts_of(R, E, C):
    n = len(E)
    L = links(R)
    total = sum([L[i][j] for i in range(n) for j in range(n)])
    vh.check(C.LinkCount() == total, 'LinkCount')
    S = subset(n)
    X = pick(E, S)
    t = sum([L[i][j] and S[i] and S[j] for i in range(n) for j in range(n)])
    vh.check(C.LinkCount(X) == t, 'LinkCount of a subset')
    vh.check(CausetEvent.LinkCountOf(X) == t, 'LinkCountOf')
    C.link()
    vh.check(C.LinkCount() == total, 'LinkCount after link')
    vh.check(C.LinkCount(X) == t, 'LinkCount of a subset after link')
    check_links(E, R, 'after counting')


def reduced(n):
    """a causal set from which events are discarded"""
    R, E, C = causet(n)
    S = subset(n)
    Q = subset(n)
    first = vh.boolean()
    for i in range(n):
        if Q[i]:
            E[i].link()
    L = links(R)
    t = sum([L[i][j] and S[i] and S[j] for i in range(n) for j in range(n)])
    C.discard({E[i] for i in range(n) if not S[i]})
    if first:
        C.link()
    vh.check(C.LinkCount() == t, 'LinkCount without discarded events')
    C.link()
    vh.check(C.LinkCount() == t, 'LinkCount without discarded events, linked')
    check_links(E, R, 'Causet.link without discarded events')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        event_links_of(R, E)
        link_counts_of(R, E, C)

    twice(how, n, ask)
