from common import *

CASES = [
    dict(fn='subsets', params=dict(n=5), tier='quick'),
    dict(fn='subsets', params=dict(n=6), tier='quick', extra=True),
    dict(fn='subsets', params=dict(n=12), tier='quick', extra=True),
    dict(fn='subsets', params=dict(n=7), tier='thorough'),
    dict(fn='whole', params=dict(n=5), tier='quick'),
    dict(fn='whole', params=dict(n=7), tier='quick', extra=True),
    dict(fn='whole', params=dict(n=12), tier='quick', extra=True),
    dict(fn='whole', params=dict(n=8), tier='thorough'),
    dict(fn='whole', params=dict(n=16), tier='thorough'),
    dict(fn='reduced', params=dict(n=5), tier='quick'),
    dict(fn='reduced', params=dict(n=6), tier='quick', extra=True),
    dict(fn='reduced', params=dict(n=12), tier='quick', extra=True),
    dict(fn='reduced', params=dict(n=7), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def chain_in(R, S):
    n = len(R)
    return all([not S[i] or not S[j] or R[i][j] or R[j][i]
                for i in range(n) for j in range(i)])


def antichain_in(R, S):
    n = len(R)
    return not any([S[i] and S[j] and R[i][j]
                    for i in range(n) for j in range(n)])


def saturated_in(R, S):
    """no event outside S lies between two neighbours in the chain S"""
    n = len(R)
    L = links(R)
    for i in range(n):
        for j in range(n):
            adjacent = S[i] and S[j] and R[i][j] and \
                not any([S[k] and R[i][k] and R[k][j] for k in range(n)])
            if adjacent and not L[i][j]:
                return False
    return True


def subsets(n):
    subsets_of(*causet(n))


def subsets_of(R, E, C):
    n = len(E)
    S = subset(n)
    X = pick(E, S)
    listed = vh.boolean()
    Y = list(X) if listed else X
    vh.check(C.isChain(Y) == chain_in(R, S), 'isChain')
    vh.check(C.isAntichain(Y) == antichain_in(R, S), 'isAntichain')
    vh.check(C.isPath(Y) == (any(S) and chain_in(R, S)
                             and saturated_in(R, S)), 'isPath')


def whole(n):
    whole_of(*causet(n))


def whole_of(R, E, C):
    n = len(E)
    S = [True] * n
    vh.check(C.isChain() == chain_in(R, S), 'isChain')
    vh.check(C.isPath() == chain_in(R, S), 'isPath')
    vh.check(C.isAntichain() == antichain_in(R, S), 'isAntichain')
    Z = Causet()
    vh.check(not Z.isPath() and Z.isChain() and Z.isAntichain(), 'empty')


def reduced(n):
    """the remaining events of a causal set from which some are discarded"""
    R, E, C = causet(n)
    S = subset(n)
    C.discard({E[i] for i in range(n) if not S[i]})
    vh.check(C.isChain() == chain_in(R, S), 'isChain of the rest')
    vh.check(C.isPath() == (any(S) and chain_in(R, S)
                            and saturated_in(R, S)), 'isPath of the rest')
    vh.check(C.isAntichain() == antichain_in(R, S), 'isAntichain of the rest')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        whole_of(R, E, C)
        subsets_of(R, E, C)

    twice(how, n, ask)
