from common import *

CASES = [
    dict(fn='layers', params=dict(n=5), tier='quick'),
    dict(fn='layers', params=dict(n=7, natural=True),
         tier='quick', extra=True),
    dict(fn='layers', params=dict(n=12), tier='quick', extra=True),
    dict(fn='layers', params=dict(n=6), tier='thorough'),
    dict(fn='antichain_layers', params=dict(n=5), tier='quick'),
    dict(fn='antichain_layers', params=dict(n=6), tier='quick', extra=True),
    dict(fn='antichain_layers', params=dict(n=12), tier='quick', extra=True),
    dict(fn='antichain_layers', params=dict(n=7), tier='thorough'),
    dict(fn='layer_numbers', params=dict(n=5), tier='quick'),
    dict(fn='layer_numbers', params=dict(n=6), tier='quick', extra=True),
    dict(fn='layer_numbers', params=dict(n=11), tier='quick', extra=True),
    dict(fn='layer_numbers', params=dict(n=7), tier='thorough'),
    dict(fn='layer_numbers', params=dict(n=12), tier='thorough'),
    dict(fn='whole', params=dict(n=4), tier='quick'),
    dict(fn='whole', params=dict(n=6, natural=True), tier='quick'),
    dict(fn='whole', params=dict(n=7, natural=True), tier='quick', extra=True),
    dict(fn='whole', params=dict(n=12, natural=True),
         tier='quick', extra=True),
    dict(fn='whole', params=dict(n=8, natural=True), tier='thorough'),
    dict(fn='convex', params=dict(n=4), tier='quick'),
    dict(fn='convex', params=dict(n=5, natural=True), tier='quick'),
    dict(fn='convex', params=dict(n=6, natural=True),
         tier='quick', extra=True),
    dict(fn='convex', params=dict(n=12, natural=True),
         tier='quick', extra=True),
    dict(fn='convex', params=dict(n=7, natural=True), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def largest(xs):
    """largest of the guarded numbers (guard, number), 0 if none applies"""
    m = 0
    for g, x in xs:
        if g and x > m:
            m = x
    return m


def depths(R, S):
    """size of the largest interval from an event of S, less one: towards
    the future and towards the past, for every event"""
    n = len(R)
    N = range(n)
    up = [largest([(S[i] and R[i][j], between(R, i, j) + 1) for i in N])
          for j in N]
    dn = [largest([(S[j] and R[i][j], between(R, i, j) + 1) for j in N])
          for i in N]
    return up, dn


def heights(R, S):
    """largest number of steps of a chain in S that ends at / starts from
    each event"""
    n = len(R)
    N = range(n)
    h = [0] * n
    d = [0] * n
    for r in range(n - 1):
        h = [largest([(S[i] and S[j] and R[i][j], h[i] + 1) for i in N])
             for j in N]
        d = [largest([(S[i] and S[j] and R[i][j], d[j] + 1) for j in N])
             for i in N]
    return h, d


def layers(n, natural=False):
    layers_of(*causet(n, natural))


def layers_of(R, E, C):
    n = len(E)
    N = range(n)
    S = subset(n)
    X = pick(E, S)
    up, dn = depths(R, S)
    later = [any([S[i] and (R[i][j] or i == j) for i in N]) for j in N]
    sooner = [any([S[j] and (R[i][j] or i == j) for j in N]) for i in N]
    for first, last in ((0, 0), (1, 1), (-1, -1), (-1, 1), (1, 2), (-2, -1),
                        (2, 1), (-2, 0), (0, 2)):
        want = []
        for i in N:
            w = False
            if first <= 0 and first <= last:
                w = w or (sooner[i] and first <= -dn[i] <= min(0, last))
            if last > 0 and first <= last:
                w = w or (later[i] and max(first, 0) <= up[i] <= last)
            want.append(w)
        vh.check(eq_set(Causet.Layers(X, first, last), E, want), 'Layers')
        if first == last:
            vh.check(eq_set(Causet.Layers(X, first), E, want),
                     'a single layer')
    vh.check(eq_set(X, E, S), 'the given set is left alone')


def antichain_layers(n):
    """around an antichain the layers are disjoint and cover the cone"""
    R, E, C = causet(n)
    N = range(n)
    S = subset(n)
    vh.assume(not any([S[i] and S[j] and R[i][j] for i in N for j in N]))
    X = pick(E, S)
    cone = [any([S[j] and (R[i][j] or R[j][i] or i == j) for j in N])
            for i in N]
    vh.check(eq_set(Causet.Layers(X, 0), E, S), 'the present layer')
    parts = [Causet.Layers(X, k) for k in range(1 - n, n)]
    for i in N:
        vh.check(sum([E[i] in p for p in parts]) == (1 if cone[i] else 0),
                 'one layer per event')
    vh.check(eq_set(Causet.Layers(X, 1 - n, n - 1), E, cone), 'all layers')


def layer_numbers(n):
    R = any_order(n)
    layer_numbers_of(R, events(R))


def layer_numbers_of(R, E):
    n = len(E)
    S = subset(n)
    L = [E[i] for i in range(n) if S[i]]
    up, dn = depths(R, S)
    f = Causet.LayerNumbers(L)
    r = Causet.LayerNumbers(L, reverse=True)
    vh.check(len(f) == sum(S) and len(r) == sum(S), 'one number per event')
    for k in range(n):
        if S[k]:
            pos = sum(S[:k])
            vh.check(f[pos] == up[k], 'LayerNumbers')
            vh.check(r[pos] == -dn[k], 'reversed LayerNumbers')


def check_layered(R, E, S, parts, h, msg):
    n = len(E)
    N = range(n)
    top = largest([(S[i], h[i] + 1) for i in N])
    vh.check(len(parts) == top, msg + ': number of layers')
    for k in range(n):
        if k < len(parts):
            vh.check(eq_set(parts[k], E, [S[i] and h[i] == k for i in N]),
                     msg + ': layer')


def whole(n, natural=False):
    """layers of a causal set are its height decomposition"""
    whole_of(*causet(n, natural))


def whole_of(R, E, C):
    n = len(E)
    S = [True] * n
    h, d = heights(R, S)
    check_layered(R, E, S, C.layered(), h, 'layered')
    check_layered(R, E, S, C.layered(reverse=True), d, 'layered backwards')


def convex(n, natural=False):
    """the same for a subset that contains all intervals of its events"""
    R, E, C = causet(n, natural)
    N = range(n)
    S = subset(n)
    vh.assume(not any([S[i] and S[j] and not S[k] and R[i][k] and R[k][j]
                       for i in N for j in N for k in N]))
    X = pick(E, S)
    h, d = heights(R, S)
    check_layered(R, E, S, C.layered(X), h, 'layered')
    check_layered(R, E, S, C.layered(X, reverse=True), d,
                  'layered backwards')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        layers_of(R, E, C)
        layer_numbers_of(R, E)
        whole_of(R, E, C)

    twice(how, n, ask)
