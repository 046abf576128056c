from common import *

CASES = [
    dict(fn='central', params=dict(n=5), tier='quick'),
    dict(fn='central', params=dict(n=7), tier='quick', extra=True),
    dict(fn='central', params=dict(n=12), tier='quick', extra=True),
    dict(fn='central', params=dict(n=8), tier='thorough'),
    dict(fn='central', params=dict(n=16), tier='thorough'),
    dict(fn='central_like', params=dict(n=4), tier='quick'),
    dict(fn='central_like', params=dict(n=6), tier='quick', extra=True),
    dict(fn='central_like', params=dict(n=12), tier='quick', extra=True),
    dict(fn='central_like', params=dict(n=7), tier='thorough'),
    dict(fn='central_like', params=dict(n=16), tier='thorough'),
    dict(fn='history', params=dict(how='drop', n=5), tier='quick'),
    dict(fn='history', params=dict(how='top', n=5), tier='quick'),
    dict(fn='history', params=dict(how='between', n=5), tier='quick'),
    dict(fn='history', params=dict(how='drop', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='top', n=6), tier='thorough'),
    dict(fn='history', params=dict(how='between', n=6), tier='thorough'),
]


def check_central(A, E, R, size, msg):
    n = len(E)
    N = range(n)
    inA = [E[i] in A for i in N]
    vh.check(len(A) == sum(inA), msg + ': events of the causal set')
    for i in N:
        rel = [R[i][j] or R[j][i] for j in N]
        vh.check(not inA[i] or not any([inA[j] and rel[j] for j in N]),
                 msg + ': antichain')
        vh.check(inA[i] or any([inA[j] and rel[j] for j in N]),
                 msg + ': maximal')
        vh.check(inA[i] or any([inA[j] and rel[j] and size[j] <= size[i]
                                for j in N]),
                 msg + ': most central events are taken first')


def central(n):
    central_of(*causet(n))


def central_of(R, E, C):
    n = len(E)
    N = range(n)
    size = [abs(sum([R[j][i] for j in N]) - sum([R[i][j] for j in N]))
            for i in N]
    check_central(C.CentralAntichain(), E, R, size, 'CentralAntichain')


def central_like(n):
    central_like_of(*causet(n))


def central_like_of(R, E, C):
    n = len(E)
    N = range(n)
    bal = [sum([R[j][i] for j in N]) - sum([R[i][j] for j in N]) for i in N]
    for k in (0, n - 1):
        size = [abs(bal[i] - bal[k]) for i in N]
        check_central(C.CentralAntichain(E[k]), E, R, size,
                      'CentralAntichain like an event')


def history(how, n):
    """the same before and after the causal set changes"""

    def ask(R, E, C):
        central_of(R, E, C)
        central_like_of(R, E, C)

    twice(how, n, ask)
