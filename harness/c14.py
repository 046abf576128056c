from common import *
import numpy as np

CASES = [
    dict(fn='matrices', params=dict(n=5), tier='quick'),
    dict(fn='matrices', params=dict(n=12), tier='quick', extra=True),
    dict(fn='matrices', params=dict(n=6), tier='thorough'),
    dict(fn='part', params=dict(n=5, k=3), tier='quick'),
    dict(fn='part', params=dict(n=6, k=4), tier='quick', extra=True),
    dict(fn='part', params=dict(n=12, k=8), tier='quick', extra=True),
    dict(fn='from_matrix', params=dict(n=4, m=4), tier='quick'),
    dict(fn='from_matrix', params=dict(n=5, m=5), tier='quick', extra=True),
    dict(fn='from_matrix', params=dict(n=7, m=7), tier='thorough'),
    dict(fn='from_matrix', params=dict(n=3, m=5), tier='quick'),
    dict(fn='from_matrix', params=dict(n=4, m=6), tier='quick', extra=True),
    dict(fn='from_matrix', params=dict(n=5, m=8), tier='thorough'),
    dict(fn='from_matrix', params=dict(n=3, m=2), tier='quick'),
    dict(fn='from_order', params=dict(n=5), tier='quick'),
    dict(fn='from_order', params=dict(n=6), tier='quick', extra=True),
    dict(fn='from_order', params=dict(n=12), tier='quick', extra=True),
    dict(fn='from_order', params=dict(n=7), tier='thorough'),
    dict(fn='text_file', params=dict(n=1), tier='quick'),
    dict(fn='text_file', params=dict(n=2), tier='quick'),
    dict(fn='text_file', params=dict(n=4), tier='quick'),
    dict(fn='text_file', params=dict(n=6), tier='quick', extra=True),
    dict(fn='text_file', params=dict(n=12), tier='quick', extra=True),
    dict(fn='text_file', params=dict(n=7), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def by_label(C, n):
    E = [None] * n
    for e in C:
        E[e.Label - 1] = e
    return E


def same_type(matrices, dt):
    for M in matrices:
        vh.check(M.dtype == np.dtype(dt), 'data type')


def part(n, k):
    """matrices of some events only (the numbering is arbitrary), in any
    direction"""
    R, E, C = causet(n)
    L = links(R)
    first = vh.boolean()
    for I in (list(range(k)), list(range(n - 1, n - k - 1, -1))):
        X = [E[i] for i in I]
        P = C.PastMatrix(X)
        F = C.FutureMatrix(X)
        if first:
            A = C.LinkPastMatrix(X)
            B = C.LinkFutureMatrix(X)
        else:
            B = C.LinkFutureMatrix(X)
            A = C.LinkPastMatrix(X)
        vh.check(P.shape == (k, k) and F.shape == (k, k) and
                 A.shape == (k, k) and B.shape == (k, k), 'size')
        for i in range(k):
            for j in range(k):
                a, b = I[i], I[j]
                vh.check(P[i, j] == R[b][a], 'PastMatrix of some events')
                vh.check(F[i, j] == R[a][b], 'FutureMatrix of some events')
                vh.check(A[i, j] == L[b][a], 'LinkPastMatrix of some events')
                vh.check(B[i, j] == L[a][b],
                         'LinkFutureMatrix of some events')


def matrices(n):
    matrices_of(*causet(n))


def matrices_of(R, E, C):
    n = len(E)
    L = links(R)
    for dt in (bool, int):
        P = C.PastMatrix(E, dtype=dt)
        F = C.FutureMatrix(E, dtype=dt)
        same_type([P, F, C.LinkPastMatrix(E, dtype=dt),
                   C.LinkFutureMatrix(E, dtype=dt)], dt)
        for i in range(n):
            for j in range(n):
                vh.check(P[i, j] == R[j][i], 'PastMatrix')
                vh.check(F[i, j] == R[i][j], 'FutureMatrix')
    P = C.LinkPastMatrix(E)
    F = C.LinkFutureMatrix(E)
    for i in range(n):
        for j in range(n):
            vh.check(P[i, j] == L[j][i], 'LinkPastMatrix')
            vh.check(F[i, j] == L[i][j], 'LinkFutureMatrix')
    # the default indexing respects causality: entries below the diagonal
    P = C.PastMatrix()
    for i in range(n):
        for j in range(i, n):
            vh.check(not P[i, j], 'default PastMatrix is triangular')
    vh.check(int(np.sum(P)) == sum([R[i][j] for i in range(n)
                                    for j in range(n)]),
             'default PastMatrix has all relations')


def from_matrix(n, m):
    """an arbitrary logical matrix with n rows and m columns"""
    M = vh.matrix(n, m)
    future = vh.boolean()
    A = np.array(M)
    T = [[j < n and M[j][i] for j in range(m)] for i in range(m)]
    for k in range(m):
        T = [[T[i][j] or T[i][k] and T[k][j] for j in range(m)]
             for i in range(m)]
    loop = any([T[i][i] for i in range(m)])
    try:
        if future:
            C = Causet.FromFutureMatrix(A.T)
        else:
            C = Causet.FromPastMatrix(A)
    except ValueError:
        vh.check(loop or m < n, 'matrix without loops is accepted')
        return
    for i in range(n):
        for j in range(m):
            vh.check(A[i, j] == M[i][j], 'the given matrix stays')
    vh.check(m >= n, 'matrix with too many rows is rejected')
    vh.check(not loop, 'causal loops are rejected')
    vh.check(C.Card == m, 'number of events')
    check_order(by_label(C, m), T, 'from matrix')


def from_order(n):
    """the matrix of all relations or of the links gives the order back"""
    R, E, C = causet(n)
    L = links(R)
    A = C.LinkPastMatrix(E)
    for k in range(2):
        D = Causet.FromPastMatrix(A)
        check_order(by_label(D, n), R, 'from a matrix of links')
        for i in range(n):
            for j in range(n):
                vh.check(A[i, j] == L[j][i], 'the given matrix stays')
    D = Causet.FromPastMatrix(C.PastMatrix(E))
    check_order(by_label(D, n), R, 'from past matrix')
    D = Causet.FromFutureMatrix(C.FutureMatrix(E, dtype=int))
    check_order(by_label(D, n), R, 'from future matrix')
    D = Causet.FromPastMatrix(C.LinkPastMatrix(E, dtype=int))
    F = by_label(D, n)
    check_order(F, R, 'from link matrix')
    check_links(F, R, 'from link matrix')


def text_file(n):
    R, E, C = causet(n)
    f = vh.scratch('order.csv')
    C.saveAsCSV(f)
    S = C.sortedByCausality()
    D = Causet.FromTextFile(f)
    vh.check(D.Card == n, 'number of events')
    F = by_label(D, n)
    for i in range(n):
        for j in range(n):
            vh.check((F[i] < F[j]) == (S[i] < S[j]), 'order in the file')
    D = Causet.FromTextFile(f, isPastMatrix=False)
    F = by_label(D, n)
    for i in range(n):
        for j in range(n):
            vh.check((F[j] < F[i]) == (S[i] < S[j]), 'reversed order')
    g = vh.scratch('order.txt')
    np.savetxt(g, C.LinkPastMatrix(S).astype(int), fmt='%d', delimiter=';')
    D = Causet.FromTextFile(g, delimiter=';')
    vh.check(D.Card == n, 'number of events with another delimiter')
    F = by_label(D, n)
    for i in range(n):
        for j in range(n):
            vh.check((F[i] < F[j]) == (S[i] < S[j]),
                     'order in a file with another delimiter')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        matrices_of(R, E, C)

    twice(how, n, ask)
