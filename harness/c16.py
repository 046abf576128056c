from common import *

CASES = [
    dict(fn='whole', params=dict(n=5), tier='quick'),
    dict(fn='whole', params=dict(n=6), tier='quick', extra=True),
    dict(fn='whole', params=dict(n=12), tier='quick', extra=True),
    dict(fn='whole', params=dict(n=7), tier='thorough'),
    dict(fn='whole', params=dict(n=16), tier='thorough'),
    dict(fn='part', params=dict(n=4), tier='quick'),
    dict(fn='part', params=dict(n=6), tier='quick', extra=True),
    dict(fn='part', params=dict(n=12), tier='quick', extra=True),
    dict(fn='part', params=dict(n=7), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def check_parts(P, E, S, T, msg):
    n = len(E)
    for i in range(n):
        vh.check(sum([E[i] in p for p in P]) == (1 if S[i] else 0),
                 msg + ': each event is in one part')
        for j in range(n):
            if S[i] and S[j]:
                vh.check(any([E[i] in p and E[j] in p for p in P])
                         == T[i][j], msg + ': parts are the components')
    for p in P:
        vh.check(len(p) > 0, msg + ': no empty part')


def whole(n):
    whole_of(*causet(n))


def whole_of(R, E, C):
    n = len(E)
    T = reach(R)
    P = C.disjoint()
    check_parts(P, E, [True] * n, T, 'disjoint')
    vh.check(C.isDisjoint() == (not all([T[0][i] for i in range(n)])),
             'isDisjoint')
    vh.check(C.Card == n, 'the causal set is left alone')


def part(n):
    part_of(*causet(n))


def part_of(R, E, C):
    n = len(E)
    S = subset(n)
    X = pick(E, S)
    RS = [[R[i][j] and S[i] and S[j] for j in range(n)] for i in range(n)]
    T = reach(RS)
    P = C.disjoint(X)
    check_parts(P, E, S, T, 'disjoint')
    two = any([S[i] and S[j] and not T[i][j]
               for i in range(n) for j in range(n)])
    vh.check(C.isDisjoint(X) == two, 'isDisjoint')
    vh.check(eq_set(X, E, S), 'the given set is left alone')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        whole_of(R, E, C)
        part_of(R, E, C)

    twice(how, n, ask)
