"""Executor self-test: every `t_*` snippet is executed symbolically and
natively; run.py compares the two on random inputs.  Not a check of the
library."""
import functools
import itertools
import math
import operator
from collections import Counter, OrderedDict, defaultdict, deque
from contextlib import contextmanager

import numpy as np
import vh


def emit(label, v):
    if hasattr(v, 'dtype') and v.ndim == 0:
        v = v.item()
    if v is None:
        vh.check(False, label + ' none')
    elif isinstance(v, bool):
        vh.check(not v, label + ' bool')
    elif isinstance(v, int):
        for c in range(-3, 9):
            vh.check(v != c, '%s is %d' % (label, c))
        vh.check(v < 9, label + ' big')
    elif isinstance(v, float):
        for c in (-1.0, 0.0, 0.5, 1.0, 2.0, 3.0):
            vh.check(v <= c, '%s > %s' % (label, c))
    elif isinstance(v, (list, tuple, np.ndarray, deque)):
        for c in range(9):
            vh.check(len(v) != c, '%s has length %d' % (label, c))
        for i in range(8):
            if i < len(v):
                emit('%s[%d]' % (label, i), v[i])
    elif isinstance(v, (set, frozenset)):
        for c in range(-1, 8):
            vh.check(c not in v, '%s has %d' % (label, c))
        vh.check(len(v) < 3, label + ' size')
    elif isinstance(v, dict):
        for c in range(-1, 8):
            vh.check(c not in v, '%s has key %d' % (label, c))
            if c in v:
                emit('%s[%d]' % (label, c), v[c])
    elif isinstance(v, str):
        for c in ('', 'a', 'b', 'c', 'ab', 'x'):
            vh.check(v != c, '%s is %s' % (label, c))
    else:
        vh.fail(label + ' of unknown type')


def run(f, name):
    xs = [vh.integer(0, 4) for i in range(4)]
    bs = [vh.boolean() for i in range(4)]
    cs = [vh.boolean() for i in range(4)]
    rs = [vh.real(-2.0, 2.0) for i in range(3)]
    n = vh.integer(0, 3)
    S = {i for i in range(4) if bs[i]}
    T = {i for i in range(4) if cs[i]}
    try:
        v = f(xs=xs, bs=bs, cs=cs, rs=rs, n=n, S=S, T=T)
    except (ValueError, KeyError, IndexError, TypeError, StopIteration,
            ZeroDivisionError, AttributeError) as e:
        vh.fail('raised ' + type(e).__name__)
        return
    emit(name, v)


# --- builtins -------------------------------------------------------------
def t_sorted_key(xs, **k):
    return sorted(range(4), key=lambda i: (xs[i], -i))


def t_sorted_reverse(xs, **k):
    return sorted(xs, reverse=True)


def t_sorted_set(S, **k):
    return sorted(S, key=lambda x: -x)


def t_min_key(xs, **k):
    return min(range(4), key=xs.__getitem__)


def t_max_default(S, **k):
    return max(S, default=-1)


def t_max_empty(S, **k):
    return max(S)


def t_min_args(xs, **k):
    return [min(xs[0], xs[1]), max(xs[2], xs[3], 2)]


def t_zip_star(xs, bs, **k):
    a, b = zip(*[(x, b) for x, b in zip(xs, bs)])
    return [list(a), list(b)]


def t_zip_strict(xs, S, **k):
    return [a + b for a, b in zip(xs, sorted(S))]


def t_enumerate_start(xs, **k):
    return [i * x for i, x in enumerate(xs, start=1) if x]


def t_map_filter(xs, **k):
    return list(map(lambda x: x + 1, filter(None, xs)))


def t_any_all(bs, cs, **k):
    return [any(b and c for b, c in zip(bs, cs)),
            all(map(operator.or_, bs, cs))]


def t_sum_start(xs, S, **k):
    return sum((x for x in S), start=xs[0])


def t_sum_lists(S, **k):
    return sum(([x, x] for x in S), [])


def t_reversed(xs, S, **k):
    return list(reversed(sorted(S))) + xs[::-1]


def t_range_sym(n, **k):
    return [i for i in range(n)]


def t_range_step(n, **k):
    return list(range(n, -1, -1)) + list(range(0, 6, 2))


def t_while(n, xs, **k):
    t = 0
    while n > 0:
        t += xs[n]
        n -= 1
    return t


def t_while_else(S, **k):
    todo = list(S)
    out = []
    while todo:
        x = todo.pop()
        if x == 2:
            break
        out.append(x)
    else:
        out.append(-1)
    return out


def t_for_else(xs, **k):
    for i, x in enumerate(xs):
        if x == 3:
            break
    else:
        i = -1
    return i


def t_continue(xs, **k):
    r = []
    for x in xs:
        if x % 2:
            continue
        r.append(x)
    return r


def t_walrus(xs, **k):
    r = []
    while (y := len(r)) < 3 and xs[y] > 0:
        r.append(y)
    return r


def t_unpack(xs, **k):
    a, *b, c = xs
    return [c, b, a]


def t_swap(xs, n, **k):
    xs[0], xs[n] = xs[n], xs[0]
    return xs


def t_slice_assign(xs, bs, **k):
    xs[1:3] = [9, 8, 7] if bs[0] else []
    return xs


def t_slice_sym(xs, n, **k):
    return xs[n:] + xs[:n] + xs[-n:]


def t_del(xs, n, **k):
    del xs[n]
    return xs


def t_insert(xs, n, **k):
    xs.insert(n, 7)
    return xs


def t_list_remove(xs, **k):
    xs.remove(2)
    return xs


def t_list_index(xs, **k):
    return xs.index(2)


def t_list_count(xs, **k):
    return [xs.count(c) for c in range(5)]


def t_pop_index(xs, n, **k):
    return [xs.pop(n), xs.pop(0), xs]


def t_sort_inplace(xs, **k):
    xs.sort(key=lambda v: -v)
    return xs


def t_chained(xs, **k):
    return xs[0] < xs[1] <= xs[2] != xs[3]


def t_ternary(xs, bs, **k):
    return xs[0] if bs[0] else xs[1] if bs[1] else None


def t_boolops(xs, bs, **k):
    return [xs[0] or xs[1], xs[0] and xs[1], not xs[0], bs[0] or xs[2]]


def t_divmod(xs, **k):
    q, r = divmod(xs[0] + 7, 3)
    return [q, r, -xs[1] // 2, -xs[1] % 3, xs[2]**2, abs(xs[3] - 2)]


def t_zerodiv(xs, **k):
    return 4 // xs[0]


def t_bitops(xs, **k):
    return [xs[0] & xs[1], xs[0] | xs[1], xs[0] ^ xs[1], 1 << xs[2]]


def t_bool_arith(bs, **k):
    return [bs[0] + bs[1], sum(bs), bs[2] & bs[3], bs[2] ^ bs[0],
            int(bs[1]), 3 * bs[0], bs[0] - bs[1]]


def t_isinstance(xs, bs, **k):
    v = xs[0] if bs[0] else 'a' if bs[1] else None
    return [isinstance(v, int), isinstance(v, (str, int)), v is None]


def t_strings(bs, **k):
    s = 'a' if bs[0] else 'b'
    s += 'b' if bs[1] else ''
    return [s, s.startswith('a'), len(s), s.upper() == 'AB', 'b' in s]


def t_join(bs, **k):
    return ''.join(c for c, b in zip('abc', bs) if b)


def t_fstring(xs, **k):
    s = f'{xs[0]}-{xs[1]:d}'
    return isinstance(s, str)


def t_default_args(xs, **k):
    def f(a, b=2, *c, d=1, **e):
        return [a, b, len(c), d, len(e)]
    return f(xs[0]) + f(xs[0], 1, 2, 3) + f(*xs, d=5, z=1)[:3]


def t_nonlocal(xs, **k):
    t = 0

    def add(x):
        nonlocal t
        t += x
        return t
    return [add(x) for x in xs]


def t_closure_late(xs, **k):
    fs = [lambda: i for i in range(3)]
    return [f() for f in fs]


def t_recursion(xs, **k):
    def depth(i):
        return 0 if i >= 4 else max(depth(i + 1), 1 + depth(i + xs[i] + 1))
    return depth(0)


def t_generator(xs, **k):
    def gen():
        for i, x in enumerate(xs):
            if x == 2:
                return
            yield i
            yield x
    return list(gen())


def t_yield_from(S, T, **k):
    def gen(a):
        yield from sorted(a)
        yield -1
    return list(gen(S)) + list(gen(T))


def t_generator_next(S, **k):
    it = iter(sorted(S))
    return [next(it, None), next(it, -1), list(it)]


def t_stop_iteration(S, **k):
    it = iter(sorted(S))
    return next(it)


def t_generator_try(xs, **k):
    def gen():
        log = []
        try:
            for x in xs:
                yield x
        finally:
            log.append(1)
    r = []
    for v in gen():
        if v == 3:
            break
        r.append(v)
    return r


def t_comp_nested(S, T, **k):
    return [a * 4 + b for a in sorted(S) for b in sorted(T) if a < b][:7]


def t_comp_cond(xs, **k):
    return {x: (x if x > 2 else -x) for x in xs if x != 1}


def t_setcomp(xs, **k):
    return {x % 3 for x in xs}


def t_dict_of_lists(xs, **k):
    d = {}
    for i, x in enumerate(xs):
        d.setdefault(x, []).append(i)
    return d


def t_lambda_default(xs, **k):
    fs = [lambda v, i=i: v + i for i in range(3)]
    return [f(xs[0]) for f in fs]


def t_assert(xs, **k):
    try:
        assert xs[0] > 1, 'small'
    except AssertionError:
        return -1
    return xs[0]


def t_try_else_finally(xs, **k):
    r = []
    try:
        r.append(4 // xs[0])
    except ZeroDivisionError:
        r.append(-1)
    else:
        r.append(1)
    finally:
        r.append(2)
    return r


def t_try_return_finally(xs, **k):
    r = []

    def f():
        try:
            return 4 // xs[0]
        except ZeroDivisionError:
            return -1
        finally:
            r.append(5)
    return [f(), r]


def t_raise_from(xs, **k):
    try:
        try:
            raise KeyError(xs[0])
        except KeyError as e:
            if e.args[0] > 2:
                raise ValueError('v') from e
            raise
    except ValueError:
        return 1
    except KeyError:
        return 2


def t_custom_exc(xs, **k):
    class E(Exception):
        def __init__(self, v):
            super().__init__(v)
            self.v = v
    try:
        for x in xs:
            if x > 3:
                raise E(x)
    except E as e:
        return e.v
    return -1


def t_with(xs, **k):
    log = []

    class C:
        def __enter__(self):
            log.append(1)
            return self

        def __exit__(self, t, v, tb):
            log.append(2 if t else 3)
            return t is not None and issubclass(t, ZeroDivisionError)
    with C() as c:
        log.append(4 // xs[0])
    return log


def t_contextmanager(xs, **k):
    log = []

    @contextmanager
    def cm(v):
        log.append(v)
        try:
            yield v + 1
        finally:
            log.append(7)
    with cm(1) as w:
        log.append(w)
        if xs[0] > 2:
            log.append(8)
    return log


def t_contextmanager_exc(xs, **k):
    log = []

    @contextmanager
    def cm():
        try:
            yield
        except ZeroDivisionError:
            log.append(-1)
    with cm():
        log.append(4 // xs[0])
    return log


def t_match(xs, bs, **k):
    r = []
    for x, b in zip(xs, bs):
        match x:
            case 0 | 1:
                r.append(0)
            case v if b:
                r.append(v)
            case _:
                r.append(-1)
    return r


def t_star_literals(S, xs, **k):
    return [*sorted(S), *xs[:2], *(x for x in xs if x > 3)]


def t_dict_merge(xs, **k):
    a = {0: xs[0], 1: xs[1]}
    b = {1: xs[2], 2: xs[3]}
    return [a | b, {**b, **a}]


def t_dict_pop(S, **k):
    d = {x: x + 1 for x in S}
    return [d.pop(1, None), d.pop(2, -1), d]


def t_dict_keyerror(S, **k):
    d = dict.fromkeys(S, 3)
    return d[1]


def t_dict_items(S, **k):
    d = {x: -x for x in sorted(S)}
    return [sorted(d.items()), list(d), sorted(d.values())]


def t_dict_get_chain(xs, **k):
    d = {0: 'a', 1: 'b'}
    return [d.get(x, 'x') for x in xs]


def t_dict_views(S, T, **k):
    a = {x: 1 for x in S}
    b = {x: 1 for x in T}
    return [a.keys() & b.keys(), a.keys() - b.keys(), a.keys() <= b.keys()]


def t_dict_update(xs, **k):
    d = {}
    d.update((x, i) for i, x in enumerate(xs))
    d.update({7: 1}, **{})
    return d


def t_dict_eq(S, T, **k):
    return {x: 1 for x in S} == {x: 1 for x in T}


# --- sets -----------------------------------------------------------------
def t_set_ops(S, T, **k):
    return [S | T, S & T, S - T, S ^ T]


def t_set_cmp(S, T, **k):
    return [S <= T, S < T, S >= T, S == T, S.isdisjoint(T), bool(S & T)]


def t_set_inplace(S, T, **k):
    A = set(S)
    B = A
    A |= T
    C = set(S)
    D = C
    C = C | T
    return [B, D]


def t_set_mut(S, n, **k):
    S.add(n)
    S.discard(1)
    S.update([5], {6})
    S -= {2}
    return S


def t_set_remove(S, n, **k):
    S.remove(n)
    return S


def t_set_union_star(S, T, **k):
    return [set().union(*[S, T]), set.union(S, T),
            set.intersection(*[S, T]), S.difference(T, {0})]


def t_frozenset(S, T, **k):
    d = {frozenset(S): 1, frozenset(T): 2}
    return [len(d), d[frozenset(T)]]


def t_set_pop_len(S, **k):
    c = 0
    while S:
        S.pop()
        c += 1
    return c


def t_set_of_tuples(xs, **k):
    P = {(xs[i], xs[i + 1]) for i in range(3)}
    return [len(P), (1, 2) in P]


def t_set_unpack(S, **k):
    x, = S
    return x


def t_next_iter_set(S, **k):
    x = next(iter(S), None)
    return x is None


def t_reduce_sets(S, T, **k):
    return functools.reduce(set.union, [S, T, {5}], set())


def t_reduce_op(xs, **k):
    return functools.reduce(operator.add, xs, 1)


def t_set_truth(S, T, **k):
    return [not S, bool(T), len(S) == len(T)]


def t_set_isub(S, T, **k):
    for x in list(S):
        if x in T:
            S.remove(x)
    return S


# --- itertools, collections -------------------------------------------------
def t_combinations(S, **k):
    return [list(c) for c in itertools.combinations(sorted(S), 2)]


def t_permutations(S, **k):
    return len(list(itertools.permutations(S, 2)))


def t_product(S, T, **k):
    return sum(a * b for a, b in itertools.product(S, T))


def t_chain(S, T, **k):
    return [list(itertools.chain(sorted(S), sorted(T))),
            set(itertools.chain.from_iterable([S, T]))]


def t_takewhile(xs, **k):
    return [list(itertools.takewhile(lambda x: x < 3, xs)),
            list(itertools.dropwhile(lambda x: x < 3, xs))]


def t_accumulate(xs, **k):
    return [list(itertools.accumulate(xs)),
            list(itertools.accumulate(xs, max))]


def t_groupby(xs, **k):
    return [[kk, len(list(g))] for kk, g in itertools.groupby(sorted(xs))]


def t_pairwise(xs, **k):
    return all(a <= b for a, b in itertools.pairwise(xs))


def t_islice(S, n, **k):
    return list(itertools.islice(sorted(S), 2))


def t_compress(xs, bs, **k):
    return list(itertools.compress(xs, bs))


def t_count_zip(S, **k):
    return [i * x for i, x in zip(itertools.count(1), sorted(S))]


def t_cycle(xs, **k):
    it = itertools.cycle([0, 1])
    return [next(it) + x for x in xs]


def t_repeat(xs, **k):
    return [a + b for a, b in zip(xs, itertools.repeat(1))]


def t_starmap(xs, **k):
    return list(itertools.starmap(operator.mul, zip(xs, range(4))))


def t_defaultdict(xs, **k):
    d = defaultdict(set)
    for i, x in enumerate(xs):
        d[x].add(i)
    return [d, len(d)]


def t_counter(xs, **k):
    c = Counter(xs)
    return [c[2], c[0], max(c.values())]


def t_ordereddict(xs, **k):
    return list(OrderedDict.fromkeys(xs))


def t_dict_fromkeys_order(xs, **k):
    return list(dict.fromkeys(xs))


def t_deque(S, **k):
    d = deque(sorted(S))
    r = []
    while d:
        r.append(d.popleft())
        if d and d[0] == 2:
            d.append(5)
            d.popleft()
    return r


def t_partial(xs, **k):
    f = functools.partial(lambda a, b, c=1: a + 2 * b + c, 1, c=xs[0])
    return f(xs[1])


def t_itemgetter(xs, **k):
    return sorted([(x, i) for i, x in enumerate(xs)],
                  key=operator.itemgetter(1, 0))[0][0]


def t_cmp_to_key(xs, **k):
    return sorted(xs, key=functools.cmp_to_key(lambda a, b: b - a))


def t_lru(xs, **k):
    @functools.lru_cache(maxsize=None)
    def f(i):
        return 0 if i == 0 else xs[i - 1] + f(i - 1)
    return f(4)


# --- objects ----------------------------------------------------------------
class Base:
    kind = 0
    made = 0

    def __init__(self, v):
        self.v = v
        type(self).made += 0

    def __eq__(self, o):
        return isinstance(o, Base) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __lt__(self, o):
        return self.v < o.v

    def __len__(self):
        return self.v

    def __getitem__(self, i):
        if i >= self.v:
            raise IndexError(i)
        return i * 2

    def __contains__(self, i):
        return i < self.v

    def __call__(self, w):
        return self.v + w

    @property
    def double(self):
        return 2 * self.v

    @double.setter
    def double(self, w):
        self.v = w // 2

    @classmethod
    def make(cls, v):
        return cls(v + 1)

    @staticmethod
    def plus(a, b):
        return a + b

    def val(self):
        return self.v


class Derived(Base):
    kind = 1

    def val(self):
        return super().val() + 1


def t_objects(xs, **k):
    o = [Base(x) for x in xs]
    return [o[0] == o[1], len(set(o)), sorted(o)[0].v, max(o).v, len(o[0]),
            list(o[1]), 1 in o[2], o[3](1), bool(o[0])]


def t_obj_poly(xs, bs, **k):
    o = Derived(xs[0]) if bs[0] else Base(xs[1])
    o.double = 6 if bs[1] else o.double
    return [o.val(), o.kind, type(o) is Base, isinstance(o, Derived),
            Derived.make(2).v, o.plus(1, 2), getattr(o, 'v'),
            hasattr(o, 'nope'), getattr(o, 'nope', 3)]


def t_obj_attr_del(xs, bs, **k):
    o = Base(xs[0])
    if bs[0]:
        del o.v
    return [hasattr(o, 'v'), getattr(o, 'v', -1)]


def t_obj_in_list(xs, **k):
    o = [Base(x) for x in xs]
    return [Base(2) in o, o.index(Base(2))]


def t_obj_dict_key(xs, **k):
    d = {Base(x): i for i, x in enumerate(xs)}
    return [len(d), d.get(Base(1), -1)]


def t_slots_and_setattr(xs, bs, **k):
    o = Base(0)
    setattr(o, 'w' if bs[0] else 'v', xs[0])
    return [o.v, getattr(o, 'w', None)]


def t_vars(xs, **k):
    o = Base(xs[0])
    o.__dict__['q'] = 1
    o.__dict__.update(v=3)
    return [o.q, o.v, len(vars(o))]


def t_bound_method(xs, **k):
    o = Base(xs[0])
    g = o.val
    o.v = 3
    return [g(), list(map(Base.val, [Base(x) for x in xs]))]


def t_identity(bs, **k):
    a, b = Base(1), Base(1)
    c = a if bs[0] else b
    return [c is a, c is b, a == b, c in [b], any(x is a for x in [c])]


# --- numpy --------------------------------------------------------------------
def t_np_where(xs, **k):
    a = np.array(xs)
    return [np.where(a > 2, a, -1), np.where(a > 2)[0]]


def t_np_bool_index(xs, bs, **k):
    a = np.array(xs)
    return a[np.array(bs)]


def t_np_matrix(bs, **k):
    M = np.zeros((2, 2), dtype=bool)
    M[0, 1] = bs[0]
    M[1, :] = [bs[1], bs[2]]
    return [M.any(axis=0), M.all(axis=1), M.sum(), np.count_nonzero(M),
            M.T, ~M, (M | M.T), np.argwhere(M)]


def t_np_matmul(xs, **k):
    A = np.array(xs).reshape(2, 2)
    return [A @ A, np.dot(A, [1, 2]), A.trace(), np.diag(A)]


def t_np_triu(xs, **k):
    A = np.array(xs).reshape(2, 2)
    return [np.triu(A, 1), np.tril(A), np.fill_diagonal(A, 0), A]


def t_np_argsort(xs, **k):
    a = np.array(xs)
    return [np.sort(a), a[np.argsort(a)], a.argmax(), np.argmin(a)]


def t_np_lexsort(xs, **k):
    return np.lexsort((np.arange(4), np.array(xs)))


def t_np_unique(xs, **k):
    return np.unique(np.array(xs))


def t_np_cumsum(xs, **k):
    a = np.array(xs)
    return [np.cumsum(a), np.diff(a), np.prod(a[:2]), np.clip(a, 1, 3)]


def t_np_stack(xs, **k):
    a = np.array(xs)
    return [np.vstack((a, a))[1], np.hstack((a[:2], a[:1])),
            np.column_stack((a, a))[1], np.stack([a, a], axis=1)[2],
            np.append(a, 5), np.concatenate(([1], a[:2])),
            np.repeat(a[:2], 2), np.tile(a[:2], 2)]


def t_np_roll(xs, **k):
    a = np.array(xs)
    return [np.roll(a, 1), np.flip(a), a[::-1], np.roll(a, -1)]


def t_np_ix(bs, n, **k):
    M = np.arange(9).reshape(3, 3) % 5
    return [M[np.ix_([0, 2], [1, 0])], M[[0, 1], [1, 2]], M[n - 1],
            M[:, n - 1]]


def t_np_float(rs, **k):
    a = np.array(rs)
    return [np.sum(a), a.max(), np.abs(a), np.minimum(a, 0.5),
            np.maximum(a, a[0]), np.square(a), np.sign(a), np.dot(a, a),
            np.linalg.norm(a) > 1.0]


def t_np_floor(rs, **k):
    return [float(math.floor(rs[0])), math.ceil(rs[1]) * 1.0, 1.0 * int(rs[2]),
            np.floor(rs[0]), round(rs[1]) <= 1, np.copysign(1.0, rs[0])]


def t_np_mod(rs, **k):
    return [rs[0] % 1.5, math.fmod(rs[0], 1.5), np.mod(rs[1], 0.5),
            rs[0] // 0.5]


def t_np_einsum(xs, **k):
    A = np.array(xs).reshape(2, 2)
    return [np.einsum('ij,jk->ik', A, A), np.einsum('ii', A),
            np.einsum('ij->j', A)]


def t_np_outer(xs, **k):
    a = np.array(xs[:2])
    return [np.outer(a, a), np.subtract.outer(a, a), a[:, None] + a[None, :],
            np.add.reduce(a), np.multiply.reduce(a)]


def t_np_logical(bs, cs, **k):
    a, b = np.array(bs), np.array(cs)
    return [np.logical_and(a, b), np.logical_or.reduce([a, b]),
            np.logical_xor(a, b), np.logical_not(a), a & ~b, a ^ b,
            np.any(a), np.all(b), np.flatnonzero(a)]


def t_np_broadcast(xs, **k):
    A = np.array(xs).reshape(2, 2)
    return [A + np.array([1, 2]), A - A.mean() <= 0, (A == A.T).all(),
            np.array_equal(A, A.T), np.isclose(A, A.T)]


def t_np_inplace(xs, **k):
    a = np.array(xs)
    b = a[1:]
    b += 1
    a *= 2
    a[a > 6] = 0
    return [a, b]


def t_np_view_copy(xs, **k):
    A = np.array(xs).reshape(2, 2)
    r = A[0]
    c = A[0].copy()
    r[:] = 7
    return [A, c, A.tolist(), A.flatten()]


def t_np_meshgrid(xs, **k):
    X, Y = np.meshgrid(np.array(xs[:2]), np.arange(2))
    return [X, Y]


def t_np_apply(xs, **k):
    A = np.array(xs).reshape(2, 2)
    return [np.apply_along_axis(lambda r: r.sum(), 1, A),
            np.vectorize(lambda v: v + 1)(A)]


def t_np_in1d(xs, **k):
    return [np.isin(np.array(xs), [1, 2]), 2 in np.array(xs)]


def t_np_searchsorted(xs, **k):
    return np.searchsorted(np.array([1, 2, 3]), np.array(xs))


def t_np_fromiter(S, **k):
    return np.fromiter(sorted(S), dtype=int)


def t_np_iter(xs, **k):
    A = np.array(xs).reshape(2, 2)
    return [[int(v) for r in A for v in r], [i for i, v in np.ndenumerate(A)
                                             if v][:1] == [(0, 0)],
            list(zip(*np.nonzero(A)))]


def t_np_full(n, xs, **k):
    return [np.full(3, xs[0]), np.ones(2), np.eye(2, dtype=bool),
            np.zeros(2, int), np.empty(0), np.linspace(0.0, 1.0, 3),
            np.identity(2), np.full((2, 2), True)]


def t_np_delete(xs, **k):
    a = np.array(xs)
    return [np.delete(a, 1), np.insert(a, 0, 7)]


def t_np_take(xs, **k):
    a = np.array([5, 6, 7, 8, 4])
    return [a[xs], np.take(a, xs), a[np.array(xs[:2])]]


def t_np_minmax_axis(rs, xs, **k):
    A = np.array(xs).reshape(2, 2)
    return [A.min(axis=0), A.max(1), np.amax(A), np.ptp(A),
            A.argmax(axis=1), A.sum(axis=1, keepdims=True)]


def t_math(rs, **k):
    return [math.hypot(rs[0], rs[1]) <= 1.5, math.fabs(rs[0]),
            math.isclose(rs[0], rs[0]), math.prod([2, 3]),
            math.sqrt(rs[1] * rs[1]), pow(rs[2], 2), math.copysign(1, rs[0])]


def t_backwards(xs, **k):
    L = [[x, 2 * x] for x in xs]
    F = [p for p in L if p[0] > 0][::-1]
    n = 0
    out = []
    for p in F:
        a = np.array(p)
        if a[1] == 4:
            n += 1
        out.append(a[0])
    return [n, out, len(F)]


def t_backwards_pop(xs, **k):
    F = [[x, 2 * x] for x in xs if x > 0]
    n, out = 0, []
    while F:
        p = F.pop()
        a, b = np.array(p)
        n += a == 2
        out.append(b - a)
    return [int(n), out]


def t_backwards_tuples(xs, **k):
    F = sorted([(x, 3 - x) for x in xs if x > 0], reverse=True)
    n = 0
    for a, b in reversed(F):
        if np.array([a, b]).max() == 2:
            n += 1
    return [n, [np.sum(p) for p in F], [min(p) for p in F[::-1]]]


def t_filtered_arrays(xs, **k):
    F = [np.array([x, 1]) for x in xs if x > 0]
    n = 0
    for a in F[::-1]:
        if a[0] + a[1] == 3:
            n += 1
    return [n, [int(a[0]) for a in reversed(F)]]


def t_filtered_strings(xs, **k):
    F = ['ab'[x % 2] + 'c' for x in xs if x > 0]
    n = 0
    for s in F[::-1]:
        n += s.startswith('a')
    return [n, [len(s.strip('c')) for s in reversed(F)]]
