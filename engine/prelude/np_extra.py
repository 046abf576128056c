"""numpy functions written in terms of modelled ones"""
import numpy as np
import vh


def argwhere(a):
    a = np.asarray(a)
    idx = np.nonzero(a)
    return np.array([list(t) for t in zip(*idx)])


def fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


def ix_(*args):
    out = []
    n = len(args)
    for k in range(n):
        v = np.asarray(args[k])
        if v.dtype == np.bool_:
            v = np.flatnonzero(v)
        out.append(v.reshape((1,) * k + (len(v),) + (1,) * (n - k - 1)))
    return tuple(out)


def einsum(subscripts, *ops):
    s = subscripts.replace(' ', '')
    if '.' in s:
        vh.unsupported('einsum with an ellipsis')
    if '->' in s:
        left, out = s.split('->')
    else:
        left = s
        out = ''.join(sorted(c for c in set(left) - {','}
                             if left.count(c) == 1))
    terms = left.split(',')
    ops = [np.asarray(o) for o in ops]
    dim = {}
    for t, o in zip(terms, ops):
        for c, m in zip(t, o.shape):
            dim[c] = m
    summed = [c for c in dim if c not in out]

    def total(env, rest):
        if rest:
            acc = 0
            for v in range(dim[rest[0]]):
                env[rest[0]] = v
                acc = acc + total(env, rest[1:])
            return acc
        p = 1
        for t, o in zip(terms, ops):
            p = p * o[tuple(env[c] for c in t)]
        return p

    def fill(env, rest):
        if not rest:
            return total(dict(env), summed)
        r = []
        for v in range(dim[rest[0]]):
            env[rest[0]] = v
            r.append(fill(dict(env), rest[1:]))
        return r
    r = fill({}, list(out))
    return np.array(r) if out else r


def meshgrid(*xi, indexing='xy', sparse=False, copy=True):
    xi = [np.asarray(x) for x in xi]
    if sparse:
        vh.unsupported('sparse grids')
    if len(xi) == 2:
        x, y = xi
        if indexing == 'xy':
            return [np.array([[v for v in x] for w in y]),
                    np.array([[w for v in x] for w in y])]
        return [np.array([[v for w in y] for v in x]),
                np.array([[w for w in y] for v in x])]
    vh.unsupported('grids of more dimensions')


def apply_along_axis(func1d, axis, arr, *args, **kwargs):
    a = np.asarray(arr)
    if a.ndim == 1:
        return func1d(a, *args, **kwargs)
    if a.ndim != 2:
        vh.unsupported('more than two dimensions')
    rows = a if axis in (1, -1) else a.T
    r = [func1d(x, *args, **kwargs) for x in rows]
    r = np.array(r)
    return r.T if axis in (0, -2) and r.ndim == 2 else r


def vectorize(pyfunc, otypes=None, **kw):
    def call(*args):
        if all(np.ndim(a) == 0 for a in args):
            return pyfunc(*args)
        b = np.broadcast_arrays(*args)
        flat = [x.reshape(-1) for x in b]
        r = [pyfunc(*[x[i] for x in flat]) for i in range(len(flat[0]))]
        return np.array(r).reshape(b[0].shape)
    return call


def broadcast_arrays(*args):
    a = [np.asarray(x) for x in args]
    if len(a) == 1:
        return a
    z = a[0]
    shape = ()
    for x in a:
        s = x.shape
        n = max(len(s), len(shape))
        p = (1,) * (n - len(s)) + s
        q = (1,) * (n - len(shape)) + shape
        shape = tuple([max(u, v) for u, v in zip(p, q)])
    return [np.broadcast_to(x, shape) for x in a]


def isin(element, test_elements, **kw):
    t = test_elements
    if isinstance(t, np.ndarray):
        t = t.reshape(-1)
    a = np.asarray(element)
    r = [any(x == y for y in t) for x in a.reshape(-1)]
    if kw.get('invert', False):
        r = [not x for x in r]
    return np.array(r, dtype=bool).reshape(a.shape)


def in1d(a, b, **kw):
    return isin(np.asarray(a).reshape(-1), b, **kw)


def searchsorted(a, v, side='left'):
    a = np.asarray(a)

    def one(x):
        if side == 'left':
            return sum([y < x for y in a])
        return sum([y <= x for y in a])
    if np.ndim(v) == 0:
        return one(v)
    return np.array([one(x) for x in v])


def digitize(x, bins):
    return searchsorted(bins, x, 'right')


def fromiter(iterable, dtype=float, count=-1):
    return np.array([x for x in iterable], dtype=dtype)


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    r = [()]
    for m in shape:
        r = [t + (i,) for t in r for i in range(m)]
    return iter(r)


def ndenumerate(a):
    a = np.asarray(a)
    return iter([(i, a[i]) for i in ndindex(a.shape)])


def ptp(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def trace(a, offset=0):
    return np.sum(np.diagonal(a, offset))


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                     a[0] * b[1] - a[1] * b[0]])


def tensordot(a, b, axes=2):
    if axes != 1:
        vh.unsupported('tensordot')
    return np.dot(a, b)


def average(a, axis=None, weights=None):
    if weights is None:
        return np.mean(a, axis=axis)
    return np.sum(np.asarray(a) * np.asarray(weights), axis=axis) / \
        np.sum(weights)


def cumprod(a):
    r = []
    acc = 1
    for x in np.asarray(a).reshape(-1):
        acc = acc * x
        r.append(acc)
    return np.array(r)


def tri(n, m=None, k=0, dtype=float):
    return np.array([[1 if j <= i + k else 0
                      for j in range(n if m is None else m)]
                     for i in range(n)], dtype=dtype)


def triu_indices(n, k=0, m=None):
    p = [(i, j) for i in range(n) for j in range(n if m is None else m)
         if j >= i + k]
    return (np.array([i for i, j in p], dtype=int),
            np.array([j for i, j in p], dtype=int))


def tril_indices(n, k=0, m=None):
    p = [(i, j) for i in range(n) for j in range(n if m is None else m)
         if j <= i + k]
    return (np.array([i for i, j in p], dtype=int),
            np.array([j for i, j in p], dtype=int))


def diag_indices(n, ndim=2):
    return tuple([np.arange(n) for k in range(ndim)])


def intersect1d(a, b):
    return np.unique([x for x in np.asarray(a).reshape(-1) if x in b])


def union1d(a, b):
    return np.unique(np.concatenate((np.asarray(a).reshape(-1),
                                     np.asarray(b).reshape(-1))))


def setdiff1d(a, b):
    b = [x for x in np.asarray(b).reshape(-1)]
    return np.unique([x for x in np.asarray(a).reshape(-1) if x not in b])


def bincount(x, weights=None, minlength=0):
    n = minlength
    for v in x:
        n = max(n, v + 1)
    return np.array([sum([v == i for v in x]) for i in range(n)])


def piecewise(x, condlist, funclist):
    vh.unsupported('piecewise')


def select(condlist, choicelist, default=0):
    r = default
    for c, v in zip(reversed(list(condlist)), reversed(list(choicelist))):
        r = np.where(c, v, r)
    return r


def put(a, ind, v):
    a.reshape(-1)[ind] = v


def take_along_axis(arr, indices, axis):
    vh.unsupported('take_along_axis')


def array_split(a, n):
    a = np.asarray(a)
    m, e = divmod(len(a), n)
    out, i = [], 0
    for k in range(n):
        j = i + m + (k < e)
        out.append(a[i:j])
        i = j
    return out


def split(a, n):
    return array_split(a, n)


def nansum(a, axis=None):
    return np.sum(a, axis=axis)


def nanmax(a, axis=None):
    return np.max(a, axis=axis)


def nanmin(a, axis=None):
    return np.min(a, axis=axis)


def count(a):
    return np.asarray(a).size


def var(a, axis=None, ddof=0):
    a = np.asarray(a)
    if axis is not None:
        vh.unsupported('var along an axis')
    m = np.mean(a)
    return np.sum(np.square(a - m)) / (a.size - ddof)


def std(a, axis=None, ddof=0):
    return np.sqrt(var(a, axis, ddof))


def dstack(tup):
    return np.stack([np.atleast_2d(t) for t in tup], axis=2)


def isscalar(x):
    return isinstance(x, (int, float, str, bool))


def iterable(x):
    return hasattr(x, '__iter__')


def may_share_memory(a, b):
    vh.unsupported('memory')


def squeeze_(a):
    return np.squeeze(a)


def ufunc_outer(f, a, b):
    a, b = np.asarray(a), np.asarray(b)
    x = a.reshape(a.shape + (1,) * b.ndim)
    y = b.reshape((1,) * a.ndim + b.shape)
    return f(x, y)


def ufunc_reduce(f, a, axis=0, dtype=None, initial=None):
    if isinstance(a, np.ndarray) and a.ndim > 1:
        if axis is None:
            return ufunc_reduce(f, a.reshape(-1))
        if axis in (1, -1) and a.ndim == 2:
            return ufunc_reduce(f, a.T)
        if axis != 0:
            vh.unsupported('reduce along an axis')
    first = initial is None
    acc = initial
    for x in a:
        if first:
            acc = x
            first = False
        else:
            acc = f(acc, x)
    if first:
        name = getattr(f, '__name__', '')
        if name in ('add', 'logical_or', 'logical_xor', 'bitwise_or',
                    'bitwise_xor'):
            return False if name.startswith('logical') else 0
        if name in ('multiply', 'logical_and'):
            return True if name.startswith('logical') else 1
        raise ValueError('zero-size array to reduction operation')
    return acc


def ufunc_accumulate(f, a, axis=0):
    r = []
    for x in a:
        r.append(f(r[-1], x) if r else x)
    return np.array(r)
