from common import *

CASES = [
    dict(fn='algebra', params=dict(n=6), tier='quick'),
    dict(fn='algebra', params=dict(n=12), tier='quick', extra=True),
    dict(fn='labels', params=dict(n=5), tier='quick'),
    dict(fn='labels', params=dict(n=8), tier='quick', extra=True),
    dict(fn='labels', params=dict(n=12), tier='thorough'),
    dict(fn='odd_labels', params=dict(n=3), tier='quick'),
    dict(fn='odd_labels', params=dict(n=5), tier='quick', extra=True),
]


def algebra(n):
    A = subset(n)
    B = subset(n)
    E = [CausetEvent(label=i) for i in range(n)]
    C = Causet(pick(E, A))
    X = pick(E, B)
    Y = [E[i] for i in range(n) if B[i]]
    D = Causet(X)
    both = [A[i] and B[i] for i in range(n)]
    either = [A[i] or B[i] for i in range(n)]
    one = [A[i] != B[i] for i in range(n)]
    left = [A[i] and not B[i] for i in range(n)]
    right = [B[i] and not A[i] for i in range(n)]
    for o in (X, Y, D):
        vh.check(eq_set(C | o, E, either), '|')
        vh.check(eq_set(C & o, E, both), '&')
        vh.check(eq_set(C ^ o, E, one), '^')
        vh.check(eq_set(C - o, E, left), '-')
        vh.check(eq_set(C.union(o), E, either), 'union')
        vh.check(eq_set(C.intersection(o), E, both), 'intersection')
        vh.check(eq_set(C.symmetric_difference(o), E, one),
                 'symmetric_difference')
        vh.check(eq_set(C.difference(o), E, left), 'difference')
        vh.check(eq_set(o | C, E, either), 'reflected |')
        vh.check(eq_set(o & C, E, both), 'reflected &')
        vh.check(eq_set(o ^ C, E, one), 'reflected ^')
        vh.check(eq_set(o - C, E, right), 'reflected -')
    vh.check(eq_set(set(C), E, A), 'the causal set is left alone')
    vh.check(eq_set(X, E, B), 'the other set is left alone')
    vh.check(eq_set(set(D), E, B), 'the other causal set is left alone')
    r = C | X
    r.add(CausetEvent())
    vh.check(C.Card == sum(A), 'results are independent')


def labels(n):
    """looking up events by their labels"""
    S = subset(n)
    lab = [vh.integer(1, 3) for i in range(n)]
    E = [CausetEvent(label=lab[i]) for i in range(n)]
    C = Causet(pick(E, S))
    for l in (1, 2, 4):
        has = [S[i] and lab[i] == l for i in range(n)]
        try:
            e = C.find(l)
        except ValueError:
            vh.check(not any(has), 'find misses an event')
        else:
            vh.check(e in C and e.Label == l, 'find')
        vh.check(eq_set(C.findAll(l), E, has), 'findAll')
        vh.check(eq_set(set(C.findAny(l)), E, has), 'findAny')
    has = [S[i] and lab[i] != 2 for i in range(n)]
    vh.check(eq_set(C.findAll(3, 1), E, has), 'findAll')
    F = list(C.findAny(3, 1))
    vh.check(eq_set(set(F), E, has) and len(F) == sum(has), 'findAny')
    vh.check(len(C.findAll()) == 0, 'no label, no event')


LABELS = (0, '', None, 'x', '0', -1, 2.5)


def odd_labels(n):
    """labels of any kind are found"""
    S = subset(n)
    k = [vh.choice(list(range(len(LABELS)))) for i in range(n)]
    E = [None] * n
    for i in range(n):
        for j in range(len(LABELS)):
            if k[i] == j:
                E[i] = CausetEvent(label=LABELS[j])
    C = Causet(pick(E, S))
    for j in range(len(LABELS)):
        has = [S[i] and k[i] == j for i in range(n)]
        try:
            e = C.find(LABELS[j])
        except ValueError:
            vh.check(not any(has), 'find misses an event')
        else:
            vh.check(e in C and e.Label == LABELS[j], 'find')
        vh.check(eq_set(C.findAll(LABELS[j]), E, has), 'findAll')
        vh.check(eq_set(set(C.findAny(LABELS[j])), E, has), 'findAny')
