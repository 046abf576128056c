from common import *

CASES = [
    dict(fn='views', params=dict(n=5), tier='quick'),
    dict(fn='views', params=dict(n=7), tier='quick', extra=True),
    dict(fn='views', params=dict(n=12), tier='quick', extra=True),
    dict(fn='views', params=dict(n=8), tier='thorough'),
    dict(fn='views', params=dict(n=16), tier='thorough'),
    dict(fn='spacelike', params=dict(n=5), tier='quick'),
    dict(fn='spacelike', params=dict(n=7), tier='quick', extra=True),
    dict(fn='spacelike', params=dict(n=12), tier='quick', extra=True),
    dict(fn='spacelike', params=dict(n=8), tier='thorough'),
    dict(fn='spacelike', params=dict(n=16), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def views(n):
    R = any_order(n)
    views_of(R, events(R))


def views_of(R, E):
    n = len(E)
    for i in range(n):
        a = E[i]
        past = [R[j][i] for j in range(n)]
        fut = [R[i][j] for j in range(n)]
        cone = [past[j] or fut[j] or i == j for j in range(n)]
        vh.check(eq_set(a.Cone, E, cone), 'Cone')
        vh.check(eq_set(a.PresentOrPast, E,
                        [past[j] or i == j for j in range(n)]),
                 'PresentOrPast')
        vh.check(eq_set(a.PresentOrFuture, E,
                        [fut[j] or i == j for j in range(n)]),
                 'PresentOrFuture')
        vh.check(a.PastCard == sum(past), 'PastCard')
        vh.check(a.FutureCard == sum(fut), 'FutureCard')
        vh.check(a.ConeCard == sum(cone), 'ConeCard')
        for j in range(n):
            b = E[j]
            vh.check((a < b) == R[i][j], '<')
            vh.check((a > b) == R[j][i], '>')
            vh.check((a <= b) == (R[i][j] or i == j), '<=')
            vh.check((a >= b) == (R[j][i] or i == j), '>=')
            vh.check((a == b) == (i == j), '==')
            vh.check(a.isCausalTo(b) == (R[i][j] or R[j][i] or i == j),
                     'isCausalTo')
            vh.check(a.isSpacelikeTo(b) == (not R[i][j] and not R[j][i]
                                            and i != j), 'isSpacelikeTo')
            vh.check([a < b, a > b, a == b, a.isSpacelikeTo(b)].count(True)
                     == 1, 'exactly one relation')
    check_order(E, R, 'views do not change the order')


def spacelike(n):
    R = any_order(n)
    spacelike_of(R, events(R))


def spacelike_of(R, E):
    n = len(E)
    S = subset(n)
    X = pick(E, S)
    for i in range(n):
        sp = [S[j] and i != j and not R[i][j] and not R[j][i]
              for j in range(n)]
        vh.check(eq_set(E[i].Spacelike(X), E, sp), 'Spacelike')
        vh.check(E[i].SpacelikeCard(X) == sum(sp), 'SpacelikeCard')
    vh.check(eq_set(X, E, S), 'argument is left alone')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        views_of(R, E)
        spacelike_of(R, E)

    twice(how, n, ask)
