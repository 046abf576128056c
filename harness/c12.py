from common import *
import math

CASES = [
    dict(fn='ranks', params=dict(n=4), tier='quick'),
    dict(fn='ranks', params=dict(n=12), tier='quick', extra=True),
    dict(fn='ranks', params=dict(n=5), tier='thorough'),
    dict(fn='ranks_sorted', params=dict(n=6, order='up'), tier='quick'),
    dict(fn='ranks_sorted', params=dict(n=6, order='down'), tier='quick'),
    dict(fn='ranks_sorted', params=dict(n=8, order='up'),
         tier='quick', extra=True),
    dict(fn='ranks_sorted', params=dict(n=12, order='mixed'),
         tier='quick', extra=True),
    dict(fn='ranks_sorted', params=dict(n=8, order='mixed'), tier='thorough'),
    dict(fn='ranks_sorted', params=dict(n=9, order='up'), tier='thorough'),
    dict(fn='rank_sets', params=dict(n=5), tier='quick'),
    dict(fn='rank_sets', params=dict(n=6), tier='quick', extra=True),
    dict(fn='rank_sets', params=dict(n=11), tier='quick', extra=True),
    dict(fn='rank_sets', params=dict(n=7), tier='thorough'),
    dict(fn='rank_sets', params=dict(n=12), tier='thorough'),
    dict(fn='rank_numbers', params=dict(n=5), tier='quick'),
    dict(fn='rank_numbers', params=dict(n=7), tier='quick', extra=True),
    dict(fn='rank_numbers', params=dict(n=11), tier='quick', extra=True),
    dict(fn='rank_numbers', params=dict(n=12), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def distances(R):
    """[k][i][j]: a path of exactly k links leads from i to j"""
    n = len(R)
    N = range(n)
    L = links(R)
    D = [[[i == j for j in N] for i in N]]
    for k in range(1, n):
        D.append([[any([D[k - 1][i][m] and L[m][j] for m in N])
                   for j in N] for i in N])
    return D


def shortest(D, i, j):
    r = math.inf
    for k in range(len(D) - 1, -1, -1):
        if D[k][i][j]:
            r = k
    return r


def largest(xs):
    m = 0
    for g, x in xs:
        if g and x > m:
            m = x
    return m


def ranks(n):
    R = any_order(n)
    ranks_of(R, events(R))


def ranks_of(R, E):
    n = len(E)
    D = distances(R)
    for i in range(n):
        for j in range(n):
            vh.check(E[i].Rank(E[j]) == shortest(D, i, j), 'Rank')


def ranks_sorted(n, order):
    R, E = sorted_events(n, order)
    D = distances(R)
    for i in range(n):
        for j in range(n):
            vh.check(E[i].Rank(E[j]) == shortest(D, i, j), 'Rank')


def rank_sets(n):
    rank_sets_of(*sorted_events(n))


def rank_sets_of(R, E):
    n = len(E)
    N = range(n)
    S = subset(n)
    X = pick(E, S)
    D = distances(R)
    up = [largest([(S[i] and R[i][j], shortest(D, i, j)) for i in N])
          for j in N]
    dn = [largest([(S[j] and R[i][j], shortest(D, i, j)) for j in N])
          for i in N]
    later = [any([S[i] and (R[i][j] or i == j) for i in N]) for j in N]
    sooner = [any([S[j] and (R[i][j] or i == j) for j in N]) for i in N]
    for first, last in ((0, 0), (1, 1), (-1, -1), (-1, 1), (1, 2), (-2, -1),
                        (2, 1)):
        want = []
        for i in N:
            w = False
            if first <= 0 and first <= last:
                w = w or (sooner[i] and first <= -dn[i] <= min(0, last))
            if last > 0 and first <= last:
                w = w or (later[i] and max(first, 0) <= up[i] <= last)
            want.append(w)
        vh.check(eq_set(Causet.Ranks(X, first, last), E, want), 'Ranks')
        if first == last:
            vh.check(eq_set(Causet.Ranks(X, first), E, want), 'one rank')


def rank_numbers(n):
    rank_numbers_of(*sorted_events(n, 'mixed'))


def rank_numbers_of(R, E):
    n = len(E)
    N = range(n)
    S = subset(n)
    L = [E[i] for i in N if S[i]]
    D = distances(R)
    f = Causet.RankNumbers(L)
    r = Causet.RankNumbers(L, reverse=True)
    vh.check(len(f) == sum(S) and len(r) == sum(S), 'one number per event')
    for k in N:
        if S[k]:
            pos = sum(S[:k])
            vh.check(f[pos] == largest(
                [(S[i] and R[i][k], shortest(D, i, k)) for i in N]),
                'RankNumbers')
            vh.check(r[pos] == -largest(
                [(S[j] and R[k][j], shortest(D, k, j)) for j in N]),
                'reversed RankNumbers')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        ranks_of(R, E)
        rank_sets_of(R, E)
        rank_numbers_of(R, E)

    twice(how, n, ask)
