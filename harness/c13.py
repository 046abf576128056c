from common import *
import itertools

CASES = [
    dict(fn='any_length', params=dict(n=5), tier='quick'),
    dict(fn='any_length', params=dict(n=7), tier='quick', extra=True),
    dict(fn='any_length', params=dict(n=12), tier='quick', extra=True),
    dict(fn='any_length', params=dict(n=8), tier='thorough'),
    dict(fn='extremal', params=dict(n=6), tier='quick'),
    dict(fn='extremal', params=dict(n=7), tier='quick', extra=True),
    dict(fn='extremal', params=dict(n=12), tier='quick', extra=True),
    dict(fn='extremal', params=dict(n=8), tier='thorough'),
    dict(fn='given_length', params=dict(n=5), tier='quick'),
    dict(fn='given_length', params=dict(n=7), tier='quick', extra=True),
    dict(fn='given_length', params=dict(n=12), tier='quick', extra=True),
    dict(fn='given_length', params=dict(n=8), tier='thorough'),
    dict(fn='trivial', params=dict(n=4), tier='quick'),
    dict(fn='trivial', params=dict(n=5), tier='quick', extra=True),
    dict(fn='trivial', params=dict(n=12), tier='quick', extra=True),
    dict(fn='trivial', params=dict(n=6), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=4), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def chains(n, L):
    """all ways to go from the first to the last event: (events, guard)"""
    out = []
    for k in range(n - 1):
        for T in itertools.combinations(range(1, n - 1), k):
            c = [0] + list(T) + [n - 1]
            out.append((c, all([L[c[i]][c[i + 1]]
                                for i in range(len(c) - 1)])))
    return out


def check_paths(P, E, want, msg):
    total = 0
    for c, g in want:
        p = [E[i] for i in c]
        vh.check(sum([q == p for q in P]) == (1 if g else 0),
                 msg + ': each path once')
        total += 1 if g else 0
    vh.check(len(P) == total, msg + ': nothing else')


def setup(n):
    # labelled along a linear extension: events 0 and n - 1 are the ends
    R = any_order(n, natural=True)
    E = events(R)
    vh.sweep()
    return R, E, chains(n, links(R))


def any_length(n):
    any_length_of(*setup(n))


def any_length_of(R, E, W):
    n = len(E)
    P = list(Causet.Paths(E[0], E[n - 1]))
    check_paths(P, E, W, 'Paths')
    P = list(Causet.Paths(E[0], E[n - 1], length='any'))
    check_paths(P, E, W, 'Paths of any length')
    vh.check(len(list(Causet.Paths(E[n - 1], E[0]))) == 0,
             'no path into the past')


def extremal(n):
    extremal_of(*setup(n))


def extremal_of(R, E, W):
    n = len(E)
    lo = [(c, g and not any([h for d, h in W if len(d) < len(c)]))
          for c, g in W]
    hi = [(c, g and not any([h for d, h in W if len(d) > len(c)]))
          for c, g in W]
    check_paths(list(Causet.Paths(E[0], E[n - 1], length='min')), E, lo,
                'shortest Paths')
    check_paths(list(Causet.Paths(E[0], E[n - 1], length='max')), E, hi,
                'longest Paths')
    check_paths(list(Causet.Paths(E[0], E[n - 1], length='timegeo')), E, hi,
                'timelike geodesics')


def given_length(n):
    given_length_of(*setup(n))


def given_length_of(R, E, W):
    n = len(E)
    for k in range(1, n + 1):
        check_paths(list(Causet.Paths(E[0], E[n - 1], length=k)), E,
                    [(c, g and len(c) == k) for c, g in W],
                    'Paths of given length')
    for lo, hi in ((1, 2), (1, 3), (2, 4), (3, n), (4, 4), (4, n)):
        check_paths(list(Causet.Paths(E[0], E[n - 1], length=[lo, hi])), E,
                    [(c, g and lo <= len(c) <= hi) for c, g in W],
                    'Paths of limited length')


def trivial(n):
    R = any_order(n)
    E = events(R)
    for length in ('any', 'min', 'max', 1, [1, 2]):
        P = list(Causet.Paths(E[0], E[0], length=length))
        vh.check(len(P) == 1 and P[0] == [E[0]], 'path to itself')
        P = list(Causet.Paths(E[0], E[1], length=length))
        vh.check(R[0][1] or len(P) == 0, 'no path between unrelated events')
        for p in P:
            vh.check(p[0] is E[0] and p[-1] is E[1], 'ends of a path')
    vh.check(len(list(Causet.Paths(E[0], E[0], length=2))) == 0,
             'path to itself is short')
    try:
        list(Causet.Paths(E[0], E[0], length=1.5))
        vh.fail('length of wrong type')
    except ValueError:
        pass


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E):
        W = chains(len(E), links(R))
        any_length_of(R, E, W)
        extremal_of(R, E, W)
        given_length_of(R, E, W)

    R, E, C, S = changing(how, n)
    ask(R, E)
    R, E = change(how, R, E, C, S)
    if how == 'between':
        # the last event comes last
        M = list(range(n - 1)) + [n, n - 1]
        R, E = [[R[i][j] for j in M] for i in M], [E[i] for i in M]
    ask(R, E)
