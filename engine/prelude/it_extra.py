"""itertools and functools functions written in terms of modelled ones"""
import vh


def groupby(iterable, key=None):
    groups = []
    last = None
    for x in iterable:
        k = x if key is None else key(x)
        if groups and last == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
        last = k
    return iter([(k, iter(g)) for k, g in groups])


def combinations_with_replacement(iterable, r):
    pool = list(iterable)

    def go(i, r):
        if r == 0:
            return [()]
        out = []
        for j in range(i, len(pool)):
            out += [(pool[j],) + t for t in go(j, r - 1)]
        return out
    return iter(go(0, r))


class _Key:
    def __init__(self, cmp, x):
        self.cmp, self.x = cmp, x

    def __lt__(self, other):
        return self.cmp(self.x, other.x) < 0

    def __gt__(self, other):
        return self.cmp(self.x, other.x) > 0

    def __le__(self, other):
        return self.cmp(self.x, other.x) <= 0

    def __ge__(self, other):
        return self.cmp(self.x, other.x) >= 0


def cmp_to_key(cmp):
    return lambda x: _Key(cmp, x)


def total_ordering(cls):
    if '__lt__' in cls.__dict__:
        if '__gt__' not in cls.__dict__:
            cls.__gt__ = lambda a, b: not (a < b) and a != b
        if '__le__' not in cls.__dict__:
            cls.__le__ = lambda a, b: a < b or a == b
        if '__ge__' not in cls.__dict__:
            cls.__ge__ = lambda a, b: not (a < b)
    else:
        vh.unsupported('total_ordering without __lt__')
    return cls
