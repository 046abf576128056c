"""Shared harness helpers (executed both symbolically and natively)."""
import vh
from causets.causetevent import CausetEvent
from causets.causet import Causet


def any_order(n, natural=False):
    """an arbitrary order. A large one is made from an arbitrary order of
    three events, a chain and an antichain: The chain and the antichain lie
    entirely above the first part or are unrelated to it, and each of the
    first two events of the antichain lies above an arbitrary part of the
    chain."""
    if n < 10:
        return vh.poset(n, natural=natural)
    S = vh.poset(3, natural=natural)
    above = [vh.boolean() for i in range(3)]
    m = 3 + (n - 3) // 2
    parts = [[vh.boolean() for i in range(3, m)] for k in range(2)]
    R = [[False] * n for i in range(n)]
    for i in range(3):
        for j in range(3):
            R[i][j] = S[i][j]
        for j in range(3, m):
            R[i][j] = above[0]
    for i in range(3, m):
        for j in range(i + 1, m):
            R[i][j] = True
        for j in range(m, n):
            if j - m < 2:
                R[i][j] = any(parts[j - m][i - 3:])
            else:
                R[i][j] = above[2]
    for i in range(3):
        for j in range(m, n):
            R[i][j] = above[1] or above[0] and R[3][j]
    return R


def creation(n, order):
    """order in which the events are created"""
    if order == 'down':
        return list(range(n - 1, -1, -1))
    if order == 'mixed':
        return list(range(1, n, 2)) + list(range(0, n, 2))
    return list(range(n))


def events(R, labels=True, order='up'):
    """events realising the strict order matrix R, created one by one, each
    naming its already existing relatives"""
    n = len(R)
    E = [None] * n
    done = []
    for k in creation(n, order):
        E[k] = CausetEvent(
            label=(k + 1) if labels else None,
            past={E[i] for i in done if R[i][k]},
            future={E[i] for i in done if R[k][i]})
        done.append(k)
    return E


def sorted_events(n, order='up'):
    """an arbitrary order whose numbering respects causality, with the links
    already known; cheaper than an arbitrary numbering"""
    R = any_order(n, natural=True)
    E = events(R, order=order)
    vh.sweep()
    for e in E:
        e.link()
    vh.sweep()
    return R, E


def causet(n, natural=False, labels=True):
    """an arbitrary causal set with n events: order matrix, events, causet"""
    R = any_order(n, natural=natural)
    E = events(R, labels)
    C = Causet(set(E))
    vh.sweep()
    return R, E, C


def changing(how, n):
    """an arbitrary causal set that will change, see change"""
    R, E, C = causet(n, natural=True)
    if how == 'between':
        vh.assume(R[0][n - 1])
    S = subset(n)
    return R, E, C, S


def change(how, R, E, C, S):
    """changes the causal set: 'drop' disjoins one of the events, 'top' adds
    an event after all events in S, 'between' adds an event between the first
    and the last event. Returns the new order and events."""
    n = len(E)
    N = range(n)
    if how == 'drop':
        E[1].disjoin()
        C.discard({E[1]})
        M = [i for i in N if i != 1]
        return [[R[i][j] for j in M] for i in M], [E[i] for i in M]
    if how == 'top':
        new = CausetEvent(label=n + 1, past=pick(E, S))
        below = [S[i] or any([S[j] and R[i][j] for j in N]) for i in N]
        above = [False] * n
    else:
        new = CausetEvent(label=n + 1, past={E[0]}, future={E[n - 1]})
        below = [i == 0 or R[i][0] for i in N]
        above = [i == n - 1 or R[n - 1][i] for i in N]
    C.add({new})
    return [[R[i][j] or below[i] and above[j] for j in N] + [below[i]]
            for i in N] + [above + [False]], E + [new]


def twice(how, n, ask):
    """asks before and after a change"""
    R, E, C, S = changing(how, n)
    ask(R, E, C)
    R, E = change(how, R, E, C, S)
    ask(R, E, C)


def eq_set(s, E, flags):
    """the collection s contains exactly the E[i] with flags[i]"""
    ok = len(s) == sum(flags)
    for i in range(len(E)):
        ok = ok and ((E[i] in s) == bool(flags[i]))
    return ok


def subset(n):
    return [vh.boolean() for i in range(n)]


def pick(E, S):
    return {E[i] for i in range(len(E)) if S[i]}


def links(R):
    """covering relation of R"""
    n = len(R)
    return [[R[i][j] and not any([R[i][k] and R[k][j] for k in range(n)])
             for j in range(n)] for i in range(n)]


def check_order(E, R, msg):
    """the events' pasts and futures are exactly those of R"""
    n = len(E)
    for i in range(n):
        vh.check(eq_set(E[i].Past, E, [R[j][i] for j in range(n)]),
                 msg + ': past')
        vh.check(eq_set(E[i].Future, E, [R[i][j] for j in range(n)]),
                 msg + ': future')


def check_links(E, R, msg):
    """links seen through every per-event view are the covering relation"""
    n = len(E)
    L = links(R)
    for i in range(n):
        vh.check(eq_set(E[i].LinkPast, E, [L[j][i] for j in range(n)]),
                 msg + ': past links')
        vh.check(eq_set(E[i].LinkFuture, E, [L[i][j] for j in range(n)]),
                 msg + ': future links')


def reach(R):
    """reflexive closure of connectedness under the relation R"""
    n = len(R)
    T = [[i == j or R[i][j] or R[j][i] for j in range(n)] for i in range(n)]
    for k in range(n):
        T = [[T[i][j] or (T[i][k] and T[k][j]) for j in range(n)]
             for i in range(n)]
    return T


def between(R, i, j):
    """number of events strictly between i and j"""
    return sum([R[i][k] and R[k][j] for k in range(len(R))])
