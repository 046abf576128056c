from common import *

CASES = [
    dict(fn='infinities', params=dict(n=5), tier='quick'),
    dict(fn='infinities', params=dict(n=7), tier='quick', extra=True),
    dict(fn='infinities', params=dict(n=12), tier='quick', extra=True),
    dict(fn='infinities', params=dict(n=8), tier='thorough'),
    dict(fn='infinities', params=dict(n=16), tier='thorough'),
    dict(fn='cones', params=dict(n=5), tier='quick'),
    dict(fn='cones', params=dict(n=6), tier='quick', extra=True),
    dict(fn='cones', params=dict(n=11), tier='quick', extra=True),
    dict(fn='cones', params=dict(n=7), tier='thorough'),
    dict(fn='cones', params=dict(n=12), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def infinities(n):
    infinities_of(*causet(n))


def infinities_of(R, E, C):
    n = len(E)
    N = range(n)
    lo = [not any([R[j][i] for j in N]) for i in N]
    hi = [not any([R[i][j] for j in N]) for i in N]
    vh.check(eq_set(C.PastInf, E, lo), 'PastInf')
    vh.check(eq_set(C.FutureInf, E, hi), 'FutureInf')
    vh.check(C.PastInfCard == sum(lo), 'PastInfCard')
    vh.check(C.FutureInfCard == sum(hi), 'FutureInfCard')
    S = subset(n)
    X = pick(E, S)
    lo = [S[i] and not any([S[j] and R[j][i] for j in N]) for i in N]
    hi = [S[i] and not any([S[j] and R[i][j] for j in N]) for i in N]
    vh.check(eq_set(C.PastInfOf(X), E, lo), 'PastInfOf')
    vh.check(eq_set(C.FutureInfOf(X), E, hi), 'FutureInfOf')
    vh.check(C.PastInfCardOf(X) == sum(lo), 'PastInfCardOf')
    vh.check(C.FutureInfCardOf(X) == sum(hi), 'FutureInfCardOf')
    vh.check(eq_set(X, E, S), 'the given set is left alone')


def cones(n):
    cones_of(*causet(n))


def cones_of(R, E, C):
    n = len(E)
    N = range(n)
    S = subset(n)
    X = pick(E, S)
    past = [[R[j][i] for j in N] for i in N]
    fut = [[R[i][j] for j in N] for i in N]
    cone = [[R[i][j] or R[j][i] for j in N] for i in N]
    for f, rel, name in ((Causet.PastOf, past, 'PastOf'),
                         (Causet.FutureOf, fut, 'FutureOf'),
                         (Causet.ConeOf, cone, 'ConeOf')):
        for present in (False, True):
            some = [any([S[i] and (rel[i][j] or present and i == j)
                         for i in N]) for j in N]
            every = [any(S) and all([not S[i] or rel[i][j]
                                     or present and i == j for i in N])
                     for j in N]
            vh.check(eq_set(f(X, includePresent=present), E, some), name)
            vh.check(eq_set(f(X, includePresent=present, intersect=True),
                            E, every), name + ' of all')
    vh.check(eq_set(Causet.PastOf(X), E,
                    [any([S[i] and past[i][j] for i in N]) for j in N]),
             'PastOf excludes the present by default')
    vh.check(eq_set(Causet.FutureOf(X), E,
                    [any([S[i] and fut[i][j] for i in N]) for j in N]),
             'FutureOf excludes the present by default')
    vh.check(eq_set(Causet.ConeOf(X), E,
                    [any([S[i] and (cone[i][j] or i == j) for i in N])
                     for j in N]),
             'ConeOf includes the present by default')
    vh.check(eq_set(C.SpacelikeTo(X), E,
                    [not any([S[i] and (cone[i][j] or i == j) for i in N])
                     for j in N]), 'SpacelikeTo')
    vh.check(eq_set(X, E, S), 'the given set is left alone')
    check_order(E, R, 'cones')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        infinities_of(R, E, C)
        cones_of(R, E, C)

    twice(how, n, ask)
