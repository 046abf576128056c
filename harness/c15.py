from common import *

CASES = [
    dict(fn='by_causality', params=dict(n=5), tier='quick'),
    dict(fn='by_causality', params=dict(n=6), tier='quick', extra=True),
    dict(fn='by_causality', params=dict(n=12), tier='quick', extra=True),
    dict(fn='by_causality', params=dict(n=7), tier='thorough'),
    dict(fn='subset_by_causality', params=dict(n=4), tier='quick'),
    dict(fn='subset_by_causality', params=dict(n=5), tier='quick', extra=True),
    dict(fn='subset_by_causality', params=dict(n=12),
         tier='quick', extra=True),
    dict(fn='subset_by_causality', params=dict(n=6), tier='thorough'),
    dict(fn='same_labels', params=dict(n=4), tier='quick'),
    dict(fn='same_labels', params=dict(n=5), tier='quick', extra=True),
    dict(fn='same_labels', params=dict(n=6), tier='thorough'),
    dict(fn='by_labels', params=dict(n=4), tier='quick'),
    dict(fn='numbers', params=dict(n=3), tier='quick'),
    dict(fn='numbers', params=dict(n=5), tier='quick', extra=True),
    dict(fn='names', params=dict(), tier='quick'),
    dict(fn='by_labels', params=dict(n=5), tier='quick', extra=True),
    dict(fn='by_labels', params=dict(n=6), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def check_sorted(S, E, flags, R, reverse, msg):
    """S lists the flagged events, never an event before one of its past"""
    n = len(E)
    vh.check(len(S) == sum(flags), msg + ': number of events')
    vh.check(eq_set(set(S), E, flags), msg + ': events')
    for i in range(len(S)):
        for j in range(i):
            if reverse:
                vh.check(not S[j] < S[i], msg + ': order')
            else:
                vh.check(not S[i] < S[j], msg + ': order')


def by_causality(n):
    by_causality_of(*causet(n))


def by_causality_of(R, E, C):
    n = len(E)
    S = C.sortedByCausality()
    check_sorted(S, E, [True] * n, R, False, 'sortedByCausality')
    B = C.sortedByCausality(reverse=True)
    check_sorted(B, E, [True] * n, R, True, 'reversed sortedByCausality')


def subset_by_causality(n):
    """the numbering is arbitrary, so the first k events are any k events"""
    R, E, C = causet(n)
    for k in range(n):
        S = [i < k for i in range(n)]
        X = set(E[:k])
        check_sorted(C.sortedByCausality(X), E, S, R, False,
                     'sortedByCausality of a subset')
        check_sorted(C.sortedByCausality(X, reverse=True), E, S, R, True,
                     'reversed sortedByCausality of a subset')
        vh.check(eq_set(X, E, S), 'the given set is left alone')


def same_labels(n):
    """labels need not be unique"""
    R = any_order(n)
    lab = [vh.integer(1, 2) for i in range(n)]
    E = []
    for k in range(n):
        E.append(CausetEvent(label=lab[k],
                             past={E[i] for i in range(k) if R[i][k]},
                             future={E[i] for i in range(k) if R[k][i]}))
    vh.sweep()
    C = Causet(set(E))
    S = C.sortedByCausality()
    check_sorted(S, E, [True] * n, R, False, 'sortedByCausality')
    S = C.sortedByLabels()
    vh.check(eq_set(set(S), E, [True] * n), 'sortedByLabels: events')
    for i in range(n - 1):
        vh.check(S[i].Label <= S[i + 1].Label, 'sortedByLabels: order')


def numbers(n):
    """labels are numbers of one or two digits, not necessarily different"""
    lab = [vh.integer(8, 11) for i in range(n)]
    E = [CausetEvent(label=x) for x in lab]
    C = Causet(set(E))
    S = C.sortedByLabels()
    vh.check(len(S) == n and eq_set(set(S), E, [True] * n),
             'sortedByLabels: events')
    for i in range(n - 1):
        vh.check(S[i].Label <= S[i + 1].Label, 'sortedByLabels: order')
    S = C.sortedByLabels(reverse=True)
    vh.check(len(S) == n and eq_set(set(S), E, [True] * n),
             'reversed sortedByLabels: events')
    for i in range(n - 1):
        vh.check(S[i].Label >= S[i + 1].Label,
                 'reversed sortedByLabels: order')


def names():
    """labels with several digits and letters"""
    p = vh.perm(4)
    for given in ([2, 10, 9, 100], ['a', 'B', 'ab', 'C']):
        E = [CausetEvent(label=given[p[i]]) for i in range(4)]
        X = Causet(set(E))
        vh.check([e.Label for e in X.sortedByLabels()] == sorted(given),
                 'order of labels')
        vh.check([e.Label for e in X.sortedByLabels(reverse=True)] ==
                 sorted(given, reverse=True), 'reversed order of labels')
        S = X.sortedByCausality()
        vh.check(len(S) == 4 and eq_set(set(S), E, [True] * 4),
                 'sortedByCausality: events')


def by_labels(n):
    p = vh.perm(n, 1)
    S = subset(n)
    E = [CausetEvent(label=p[i]) for i in range(n)]
    C = Causet(set(E))
    for rev in (False, True):
        L = C.sortedByLabels(reverse=rev)
        vh.check(len(L) == n, 'number of events')
        for i in range(n):
            vh.check(L[i].Label == (n - i if rev else i + 1),
                     'sortedByLabels')
        L = C.sortedByLabels(pick(E, S), reverse=rev)
        vh.check(len(L) == sum(S) and eq_set(set(L), E, S),
                 'sortedByLabels of a subset')
        for i in range(n - 1):
            if i + 1 < len(L):
                vh.check((L[i].Label > L[i + 1].Label) == rev,
                         'sortedByLabels of a subset: order')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        by_causality_of(R, E, C)

    twice(how, n, ask)
