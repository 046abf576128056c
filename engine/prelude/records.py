"""namedtuple, NamedTuple and dataclass instances"""


def init(self, *args, **kwargs):
    names = self._fields
    if len(args) > len(names):
        raise TypeError('too many arguments')
    for k in range(len(names)):
        n = names[k]
        if k < len(args):
            setattr(self, n, args[k])
        elif n in kwargs:
            setattr(self, n, kwargs.pop(n))
        elif n in self._field_defaults:
            setattr(self, n, self._field_defaults[n])
        elif n in self._field_factories:
            setattr(self, n, self._field_factories[n]())
        else:
            raise TypeError('missing argument')
    if kwargs:
        raise TypeError('unexpected argument')
    if hasattr(self, '__post_init__'):
        self.__post_init__()


def values(self):
    return tuple([getattr(self, n) for n in self._fields])


def iterate(self):
    return iter(values(self))


def length(self):
    return len(self._fields)


def getitem(self, i):
    return values(self)[i]


def contains(self, x):
    return x in values(self)


def equal(self, other):
    if isinstance(other, tuple):
        return values(self) == other
    if hasattr(other, '_fields'):
        return values(self) == values(other)
    return NotImplemented


def replace(self, **changes):
    d = asdict(self)
    d.update(changes)
    return type(self)(**d)


def asdict(self):
    return {n: getattr(self, n) for n in self._fields}


def add(self, other):
    return values(self) + tuple(other)


class Namespace:

    def __init__(self, **kwargs):
        for k in kwargs:
            setattr(self, k, kwargs[k])
