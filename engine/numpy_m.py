"""Model of the part of numpy (and of real-valued functions) the code uses.

Arrays are numpy object arrays of Cells, so that slicing, transposition and
broadcasting are numpy's own and views share their cells."""
import ast
import itertools
import math
import operator
import os
from fractions import Fraction
import numpy as np
import z3
from core import *
import builtins_m as bm


class SArray:
    __slots__ = ('a', 'kind', 'birth', 'guards', 'f32')

    def __init__(self, a, kind, birth, guards=None, f32=False):
        self.a = a              # np.ndarray(dtype=object) of Cell
        self.kind = kind        # 'b', 'i', 'f', 'O'
        self.birth = birth
        self.guards = guards    # per entry of axis 0, or None
        self.f32 = f32

    def __repr__(self):
        return '<array %s %s>' % (self.a.shape, self.kind)


NDARRAY = Intrinsic('ndarray', None)


class DType:
    def __init__(self, kind, name, f32=False):
        self.kind, self.name, self.f32 = kind, name, f32

    def __repr__(self):
        return self.name


RANK = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def kind_of(v):
    t = type(v)
    if t in (bool, SBool):
        return 'b'
    if t is int:
        return 'i'
    if t in (float, SNum, Fraction):
        return 'f'
    if t is Union:
        ks = [kind_of(x) for g, x in v.alts]
        return max(ks, key=RANK.get)
    if isinstance(v, SArray):
        return v.kind
    return 'O'


def dtype_kind(I, d):
    """(kind, f32) of a dtype argument"""
    if d is None:
        return None, False
    if isinstance(d, DType):
        return d.kind, d.f32
    if isinstance(d, Intrinsic):
        k = {'int': 'i', 'float': 'f', 'bool': 'b', 'object': 'O'}.get(
            d.name)
        if k:
            return k, False
    if isinstance(d, str):
        s = d.lstrip('<>=')
        if s.startswith('int') or s.startswith('uint') or s[0] in 'iu':
            return 'i', False
        if s.startswith('float') or s[0] in 'fd':
            return 'f', s in ('float32', 'f4')
        if s.startswith('bool') or s == '?':
            return 'b', False
        if s.startswith('object') or s == 'O':
            return 'O', False
    raise Unsupported('dtype %r' % (d,))


def cast(I, v, kind, f32=False):
    t = type(v)
    if t is Union:
        return I.mkunion([(g, cast(I, x, kind, f32)) for g, x in v.alts])
    if isinstance(v, SArray):
        if v.a.size != 1:
            I.throw(ExcVal(ValueError, ('setting an array element with a '
                                        'sequence.',)))
        return cast(I, v.a.flat[0].v, kind, f32)
    if kind == 'f':
        if t is bool or t is int or t is Fraction:
            v = float(v)
            t = float
        if t is SBool:
            return Union([(v.lit, 1.0), (v.lit ^ 1, 0.0)])
        if t is float and f32:
            return float(np.float32(v))
        if t is float or t is SNum:
            return v
        if t is str:
            try:
                return float(v)
            except ValueError as e:
                bm.throw_native(I, e)
        if t is SList or v is None or t is SObj:
            I.throw(ExcVal(ValueError if t is SList else TypeError, (
                'setting an array element with a sequence.',)))
        raise Unsupported('cast %r to float' % (v,))
    if kind == 'i':
        if t is SBool:
            return I.boolint(v)
        if t is bool:
            return int(v)
        if t is int:
            return v
        if t is float:
            return int(v) if v == v and abs(v) != math.inf else \
                -9223372036854775808
        if t is SNum:
            return bm.b_int(I, [v], {})
        if v is None or t in (SObj, SList):
            I.throw(ExcVal(TypeError, ('int() argument',)))
        raise Unsupported('cast %r to int' % (v,))
    if kind == 'b':
        return I.mkbool(I.truth(v))
    return v


def mk(I, shape, vals, kind, guards=None, f32=False):
    a = np.empty(shape, dtype=object)
    fl = a.reshape(-1)
    for i, v in enumerate(vals):
        fl[i] = Cell(v)
    return SArray(fl.reshape(shape), kind, I.pc, guards, f32)


def from_native(I, x):
    k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'O': 'O', 'U': 'O'}.get(
        x.dtype.kind)
    if k is None:
        raise Unsupported('native array dtype')
    return mk(I, x.shape, [bm.raise_native(I, y)
                           for y in x.reshape(-1).tolist()], k)


def view(arr, a, guards=None):
    return SArray(a, arr.kind, arr.birth, guards, arr.f32)


def copy(I, arr, kind=None, f32=None):
    k = kind or arr.kind
    f = arr.f32 if f32 is None else f32
    vals = [c.v for c in arr.a.reshape(-1)]
    if k != arr.kind or f:
        vals = [cast(I, v, k, f) for v in vals]
    return mk(I, arr.a.shape, vals, k, arr.guards, f)


def result(I, shape, vals, guards=None, kind=None):
    if shape == ():
        return vals[0]
    if kind is None:
        kind = max((kind_of(v) for v in vals), key=RANK.get, default='f')
    return mk(I, shape, vals, kind, guards)


def toarray(I, v, dt=None):
    """asarray of any value (shares cells when it is already an array)"""
    v = I.pruned(v)
    kind, f32 = dtype_kind(I, dt)
    if isinstance(v, SArray):
        if kind is None or kind == v.kind:
            return v
        return copy(I, v, kind, f32)
    if type(v) is Union:
        c = I.coalesce(v)
        if type(c) is SList and not c.dense():
            c = SList(I.compact(c.slots), c.kind, I.pc)
        if isinstance(c, Union):
            if any(isinstance(x, (SList, SArray)) for g, x in c.alts):
                # arrays of equal shape merge cellwise
                arrs = [(g, toarray(I, x, dt)) for g, x in c.alts]
                if len({x.a.shape for g, x in arrs}) == 1 and all(
                        x.guards is None for g, x in arrs):
                    vals = [I.mkunion([(g, x.a.reshape(-1)[i].v)
                                       for g, x in arrs])
                            for i in range(arrs[0][1].a.size)]
                    k = max((x.kind for g, x in arrs), key=RANK.get)
                    return mk(I, arrs[0][1].a.shape, vals, k)
                raise MixedShapes('array of differently shaped unions')
            return mk(I, (), [cast(I, v, kind, f32) if kind else v],
                      kind or kind_of(v), None, f32)
        v = c
    if isinstance(v, (SList, SIter, range, SSet)) or (
            isinstance(v, SObj) and v.cls.lookup('__iter__') is not UNSET
            and False):
        if isinstance(v, (SSet, SIter)):
            return mk(I, (), [v], 'O')
        slots = I.elements(v)
        slots = [(I.simp(I.pc, g), x) for g, x in slots]
        slots = present(I, slots)
        items = []
        for g, x in slots:
            x = I.pruned(x)
            if isinstance(x, (SList, SArray, range)) or (
                    type(x) is Union and any(isinstance(y, (SList, SArray))
                                             for h, y in x.alts)):
                items.append(toarray(I, x))
            else:
                items.append(x)
        guards = None if all(g == 1 for g, x in slots) else \
            [g for g, x in slots]
        if any(isinstance(x, SArray) and x.a.ndim >= 0 for x in items):
            arrs = [x if isinstance(x, SArray) else mk(I, (), [x],
                                                       kind_of(x))
                    for x in items]
            if any(x.guards is not None for x in arrs):
                raise Unsupported('nested arrays of symbolic length')
            if len({x.a.shape for x in arrs}) != 1:
                I.throw(ExcVal(ValueError, (
                    'setting an array element with a sequence. The '
                    'requested array has an inhomogeneous shape',)))
            vals = [c.v for x in arrs for c in x.a.reshape(-1)]
            shape = (len(arrs),) + arrs[0].a.shape
        else:
            vals = items
            shape = (len(items),)
        k = kind
        if k is None:
            k = max((kind_of(x) for x in vals), key=RANK.get, default='f')
        if k != 'O':
            vals = [cast(I, x, k, f32) for x in vals]
        return mk(I, shape, vals, k, guards, f32)
    if isinstance(v, str):
        return mk(I, (), [v], 'O')
    k = kind or kind_of(v)
    return mk(I, (), [cast(I, v, k, f32) if k != 'O' else v], k, None, f32)


def present(I, slots):
    """without those elements that are never there"""
    aig = I.aig
    known = {}
    for g, x in slots:
        if g not in known:
            # absent, present or both
            known[g] = g if g == 1 or g == 0 else \
                0 if not I.feasible(aig.AND(I.pc.lit, g)) else \
                g if I.feasible(aig.AND(I.pc.lit, g ^ 1)) else 1
    return [(known[g], x) for g, x in slots if known[g]]


def np_array(I, args, kwargs):
    dt = kwargs.get('dtype', args[1] if len(args) > 1 else None)

    def one(v):
        r = toarray(I, v, dt)
        r = copy(I, r)
        nd = kwargs.get('ndmin', 0)
        if r.a.ndim < nd:
            r.a = r.a.reshape((1,) * (nd - r.a.ndim) + r.a.shape)
        return r
    return one(args[0])


def np_asarray(I, args, kwargs):
    return toarray(I, args[0], kwargs.get(
        'dtype', args[1] if len(args) > 1 else None))


def shape_arg(I, s):
    if isinstance(s, int):
        return (s,)
    if isinstance(s, SNum) or type(s) is Union:
        return None
    if isinstance(s, SArray):
        return tuple(bm.lower(I, c.v) for c in s.a.reshape(-1))
    return tuple(bm.lower(I, x) for g, x in I.elements(s))


def np_full(val):
    def f(I, args, kwargs):
        a = list(args)
        s = a.pop(0) if a else kwargs['shape']
        v = val
        if val is None:
            v = a.pop(0) if a else kwargs['fill_value']
        dt = a.pop(0) if a else kwargs.get('dtype')

        def one(s):
            kind, f32 = dtype_kind(I, dt)
            if kind is None:
                kind = 'f' if val is not None else kind_of(v)
            sh = shape_arg(I, s)
            n = 1
            for k in sh:
                if k < 0:
                    I.throw(ExcVal(ValueError, (
                        'negative dimensions are not allowed',)))
                n *= k
            if val == 'empty':
                w = NANV if kind == 'f' else 0
            else:
                w = v
            w = cast(I, w, kind, f32) if kind != 'O' else w
            return mk(I, sh, [w] * n, kind, None, f32)
        if isinstance(s, SArray) and s.a.ndim == 0:
            s = s.a[()].v
        if isinstance(s, SList) and any(type(x) is Union
                                        for g, x in s.slots):
            xs = [x for g, x in s.slots]

            def go(done, todo):
                if not todo:
                    return one(I.mktuple(done))
                return I.lift(todo[0], lambda x: go(done + [x], todo[1:]))
            return go([], xs)
        return I.lift(s, one)
    return f


# the contents of np.empty are arbitrary: one fixed odd value stands for them
NANV = 12345.678


def np_like(val):
    def f(I, args, kwargs):
        a = toarray(I, args[0])
        kind, f32 = dtype_kind(I, kwargs.get('dtype'))
        kind = kind or a.kind
        v = val if val != 'empty' else NANV
        if val is None:
            v = args[1]
        return mk(I, a.a.shape, [cast(I, v, kind)] * a.a.size, kind)
    return f


def np_arange(I, args, kwargs):
    def go(done, todo):
        if not todo:
            return from_native(I, np.arange(*done))
        x = todo[0]
        if type(x) is SNum:
            raise Unsupported('arange of a symbolic real')
        return I.lift(I.boolint(x), lambda y: go(done + [y], todo[1:]))
    r = go([], list(args))
    if kwargs.get('dtype') is not None:
        r = toarray(I, r, kwargs['dtype'])
    return r


def np_linspace(I, args, kwargs):
    a, b = args[0], args[1]
    n = args[2] if len(args) > 2 else kwargs.get('num', 50)
    end = kwargs.get('endpoint', True)

    def one(n):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return from_native(I, np.linspace(a, b, n, endpoint=end))
        d = n - 1 if end else n
        vals = []
        for i in range(n):
            if i == 0:
                vals.append(a)
            elif i == d:
                vals.append(b)
            else:
                vals.append(I.binop('add', a, I.binop(
                    'mul', I.binop('sub', b, a), Fraction(i, d))))
        return mk(I, (n,), [cast(I, v, 'f') for v in vals], 'f')
    return I.lift(n, one)


# ----------------------------------------------------------------------
# elementwise
# ----------------------------------------------------------------------
def arr_of(v):
    return isinstance(v, SArray)


def as_operand(I, v):
    if isinstance(v, SArray):
        return v
    if isinstance(v, (SList, range)):
        return toarray(I, v)
    if type(v) is Union and any(isinstance(x, (SList, SArray))
                                for g, x in v.alts):
        return toarray(I, v)
    return mk(I, (), [v], kind_of(v))


def zipwith(I, fn, ops, kind=None):
    ops = [as_operand(I, o) for o in ops]
    guards = None
    for o in ops:
        if o.guards is not None:
            if guards is None:
                guards = o.guards
            elif guards != o.guards:
                if len(guards) == len(o.guards):
                    raise Unsupported('arrays of different symbolic length')
                raise Unsupported('arrays of different symbolic length')
    try:
        bs = np.broadcast_arrays(*[o.a for o in ops], subok=False)
    except ValueError as e:
        I.throw(ExcVal(ValueError, e.args))
    shape = bs[0].shape
    if guards is not None:
        for o in ops:
            if o.guards is None and o.a.ndim and o.a.shape[0] not in (1,) \
                    and o.a.ndim == len(shape):
                raise Unsupported('symbolic length against fixed length')
    vals = []
    n0 = 1
    for s in shape[1:]:
        n0 *= s
    fl = [b.reshape(-1) for b in bs]
    for i in range(fl[0].size):
        xs = [f[i].v for f in fl]
        if guards is not None:
            pc0 = I.pc
            p = I.extend(pc0, guards[i // n0])
            if p is None:
                vals.append(0)
                continue
            I.pc = p
            try:
                vals.append(fn(*xs))
            finally:
                I.pc = pc0
        else:
            vals.append(fn(*xs))
    return result(I, shape, vals, guards, kind)


def elementwise(I, fn, v, kind=None):
    return zipwith(I, fn, [v], kind)


def np_div(I, x, y):
    """numpy true division: never raises"""
    def one(x, y):
        if isinstance(x, (int, float, Fraction)) and \
                isinstance(y, (int, float, Fraction)):
            with np.errstate(all='ignore'):
                return float(np.float64(float(x)) / np.float64(float(y)))
        if type(y) is SNum:
            z = I.aig.atom(y.e == 0)
            if z != 0 and I.simp(I.pc, z) != 0:
                p1, p0 = I.split(z)
                if p1 is not None:
                    num = I.num_e(x)
                    pos = I.aig.atom(num > 0)
                    zero = I.aig.atom(num == 0)
                    safe = SNum(I.num_e(x) / z3.If(y.e == 0, z3.RealVal(1),
                                                   y.e))
                    aig = I.aig
                    return I.mkunion([
                        (aig.AND(z, zero), math.nan),
                        (aig.AND(z, aig.AND(zero ^ 1, pos)), math.inf),
                        (aig.AND(z, aig.AND(zero ^ 1, pos ^ 1)), -math.inf),
                        (z ^ 1, safe)])
            return SNum(z3.simplify(I.num_e(x) / y.e))
        if isinstance(y, (int, float, Fraction)) and y == 0:
            num = I.num_e(x)
            pos = I.aig.atom(num > 0)
            zero = I.aig.atom(num == 0)
            return I.mkunion([(zero, math.nan),
                              (I.aig.AND(zero ^ 1, pos), math.inf),
                              (I.aig.AND(zero ^ 1, pos ^ 1), -math.inf)])
        return I.binop('truediv', x, y)
    x = I.boolint(x) if type(x) is SBool else x
    y = I.boolint(y) if type(y) is SBool else y
    return I.lift(x, lambda a: I.lift(y, lambda b: one(a, b)))


def scalar_op(I, op):
    def f(x, y):
        if op == 'truediv':
            return np_div(I, x, y)
        bx = kind_of(x) == 'b'
        by = kind_of(y) == 'b'
        if bx and by:
            lx, ly = I.truth(x), I.truth(y)
            if op in ('and', 'mul'):
                return I.mkbool(I.aig.AND(lx, ly))
            if op in ('or', 'add'):
                return I.mkbool(I.aig.OR(lx, ly))
            if op == 'xor':
                return I.mkbool(I.aig.XOR(lx, ly))
            if op == 'sub':
                I.throw(ExcVal(TypeError, ('numpy boolean subtract',)))
        if op in ('floordiv', 'mod') and isinstance(y, (int, float)) and \
                y == 0:
            return 0 if isinstance(y, int) else math.nan
        if op == 'pow':
            return power(I, x, y)
        if isinstance(x, float) and isinstance(y, (int, float)) or \
                isinstance(y, float) and isinstance(x, (int, float)):
            with np.errstate(all='ignore'):
                return float(bmops(op)(np.float64(x), np.float64(y)))
        return I.binop(op, x, y)
    return f


def bmops(op):
    import operator
    return {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
            'mod': operator.mod, 'floordiv': operator.floordiv,
            'pow': operator.pow}[op]


def binop(I, op, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SArray) and isinstance(y, SObj):
            n = '__r%s__' % op
            if x is a and y.cls.lookup(n) is not UNSET:
                return I.callmethod(y, n, [x])
    if op == 'matmul':
        return np_dot(I, [a, b], {})
    return zipwith(I, scalar_op(I, op), [a, b])


def inplace(I, op, a, b):
    if a.guards is not None:
        raise Unsupported('in-place operation on a compressed array')
    bb = as_operand(I, b)
    try:
        fb = np.broadcast_to(bb.a, a.a.shape)
    except ValueError as e:
        I.throw(ExcVal(ValueError, e.args))
    f = scalar_op(I, op)
    vals = [f(x.v, y.v) for x, y in zip(a.a.reshape(-1), fb.reshape(-1))]
    if RANK[max((kind_of(v) for v in vals), key=RANK.get, default='b')] > \
            RANK[a.kind] and a.kind in 'bi':
        I.throw(ExcVal(TypeError, ('Cannot cast ufunc output',)))
    it = a.a
    for idx, v in zip(np.ndindex(it.shape), vals):
        I.cellwrite(it[idx], cast(I, v, a.kind), a.birth)
    return a


def compare(I, op, a, b):
    if (a is None or b is None) and op in ('eq', 'ne'):
        return op == 'ne'
    def f(x, y):
        if type(x) in (SBool, bool) and type(y) in (SBool, bool) and \
                op in ('eq', 'ne'):
            return I.compare(op, x, y)
        return I.compare(op, x, y)
    return zipwith(I, f, [a, b], 'b')


def unary(I, op, v):
    if op is ast.Invert and v.kind == 'b':
        return elementwise(I, lambda x: I.mkbool(I.truth(x) ^ 1), v, 'b')
    return elementwise(I, lambda x: I.unary(op, x), v)


def truth(I, v):
    if v.guards is not None:
        raise Unsupported('truth of a compressed array')
    if v.a.size == 1:
        return I.truth(v.a.reshape(-1)[0].v)
    if v.a.size == 0:
        return 0
    I.throw(ExcVal(ValueError, ('The truth value of an array with more than '
                                'one element is ambiguous.',)))


def length(I, v):
    if v.a.ndim == 0:
        I.throw(ExcVal(TypeError, ('len() of unsized object',)))
    if v.guards is not None:
        return I.count_val([I.simp(I.pc, g) for g in v.guards])
    return v.a.shape[0]


def iterate(I, v):
    if v.a.ndim == 0:
        I.throw(ExcVal(TypeError, ('iteration over a 0-d array',)))
    out = []
    for i in range(v.a.shape[0]):
        g = 1 if v.guards is None else v.guards[i]
        if v.a.ndim == 1:
            out.append((g, v.a[i].v))
        else:
            out.append((g, view(v, v.a[i])))
    return out


def slots_of(v):
    """flattened guarded values"""
    fl = v.a.reshape(-1)
    if v.guards is None:
        return [(1, c.v) for c in fl]
    n0 = 1
    for s in v.a.shape[1:]:
        n0 *= s
    return [(v.guards[i // n0], c.v) for i, c in enumerate(fl)]


# ----------------------------------------------------------------------
# indexing
# ----------------------------------------------------------------------
class Idx:
    pass


def norm_index(I, i):
    """list of index components"""
    if isinstance(i, SList) and i.kind == 'tuple':
        parts = [x for g, x in i.slots]
    else:
        parts = [i]
    out = []
    for p in parts:
        if isinstance(p, SList):
            p = toarray(I, p)
            if p.a.size == 0:
                p = mk(I, p.a.shape, [], 'i')
        if isinstance(p, range):
            p = toarray(I, p)
        if isinstance(p, SArray) and p.a.ndim == 0:
            p = p.a[()].v
        if type(p) is SBool:
            raise Unsupported('boolean scalar index')
        out.append(p)
    return out


def simple(p):
    return p is None or p is Ellipsis or (type(p) is int) or \
        (type(p) is bm.SSlice and p.concrete())


def nat(p):
    return p.native() if type(p) is bm.SSlice else p


def expand(parts, nd):
    if any(p is Ellipsis for p in parts):
        k = [i for i, p in enumerate(parts) if p is Ellipsis][0]
        used = sum(1 for p in parts if p is not None and p is not Ellipsis)
        parts = parts[:k] + [bm.SSlice(None, None, None)] * (nd - used) + \
            parts[k + 1:]
    return parts


def concrete_mask(I, m):
    ls = [I.simp(I.pc, I.truth(c.v)) for c in m.a.reshape(-1)]
    if all(l <= 1 for l in ls):
        return np.array([bool(l) for l in ls], dtype=bool).reshape(m.a.shape)
    return None


def full(p):
    return type(p) is bm.SSlice and p.start is None and p.stop is None and \
        p.step is None


def getitem(I, o, i):
    parts = expand(norm_index(I, i), o.a.ndim)
    for k, p in enumerate(parts):
        if type(p) is Union:
            def one(x):
                return getitem(I, o, I.mktuple(parts[:k] + [x] +
                                               parts[k + 1:]))
            return I.lift(p, one)
        if type(p) is bm.SSlice and not p.concrete():
            return bm.lift_slice(I, p, lambda s: getitem(I, o, I.mktuple(
                parts[:k] + [bm.SSlice(s.start, s.stop, s.step)] +
                parts[k + 1:])))
    if type(i) is SNum:
        raise Unsupported('symbolic real index')
    if o.guards is not None and parts:
        p = parts[0]
        if full(p):
            sub = [nat(x) for x in parts]
            if all(simple(x) for x in parts):
                return view(o, o.a[tuple(sub)], o.guards)
        if type(p) is int:
            rows = [(g, r) for g, r in iterate(I, o)]
            el = I.compact(rows if p >= 0 else list(reversed(rows)))
            j = p if p >= 0 else -p - 1
            if j >= len(el):
                I.throw(ExcVal(IndexError, ('index out of bounds',)))
            I.raise_if(el[j][0] ^ 1, ExcVal(IndexError, ('out of bounds',)))
            r = el[j][1]
            if len(parts) > 1:
                return getitem(I, r, I.mktuple(parts[1:]))
            return r
        if type(p) is bm.SSlice and len(parts) == 1 and o.a.ndim == 1:
            sl = bm.slice_slots(I, slots_of(o), p.native())
            return mk(I, (len(sl),), [x for g, x in sl], o.kind,
                      [g for g, x in sl])
        if isinstance(p, SArray) and p.kind == 'b' and len(parts) == 1 and \
                p.guards == o.guards:
            gs = [I.aig.AND(g, I.truth(c.v))
                  for g, c in zip(o.guards, p.a.reshape(-1))]
            return view_copy(I, o, o.a, gs)
        if isinstance(p, SArray) and p.kind == 'i' and len(parts) == 1 and \
                o.a.ndim == 1:
            lst = SList(slots_of(o), 'list', I.pc)
            vals = []
            for g, x in slots_of(p):
                vals.append((g, I.branch(
                    g, lambda: bm.getitem(I, lst, x), lambda: 0)))
            return mk(I, (len(vals),), [x for g, x in vals], o.kind,
                      p.guards)
        raise Unsupported('index into a compressed array')
    if all(simple(p) for p in parts):
        try:
            r = o.a[tuple(nat(p) for p in parts)]
        except IndexError as e:
            I.throw(ExcVal(IndexError, e.args))
        if isinstance(r, Cell):
            return r.v
        return view(o, r)
    # one advanced index
    adv = [k for k, p in enumerate(parts) if not simple(p)]
    for k in adv:
        if not isinstance(parts[k], SArray):
            if isinstance(parts[k], float):
                I.throw(ExcVal(IndexError, (
                    'only integers, slices, ellipsis, numpy.newaxis and '
                    'integer or boolean arrays are valid indices',)))
            raise Unsupported('index %r' % (parts[k],))
    nats = []
    ok = True
    for p in parts:
        if isinstance(p, SArray):
            if p.guards is not None:
                ok = False
                break
            if p.kind == 'b':
                m = concrete_mask(I, p)
                if m is None:
                    ok = False
                    break
                nats.append(m)
            else:
                vs = [c.v for c in p.a.reshape(-1)]
                if not all(type(v) is int for v in vs):
                    ok = False
                    break
                nats.append(np.array(vs, dtype=int).reshape(p.a.shape))
        else:
            nats.append(nat(p))
    if ok:
        try:
            r = o.a[tuple(nats)]
        except IndexError as e:
            I.throw(ExcVal(IndexError, e.args))
        if isinstance(r, Cell):
            return r.v
        return view_copy(I, o, r, None)
    sym = symbolic_index(o, parts)
    if sym is not None:
        pre, shape, post, entry = sym
        a = np.empty(pre + shape + post, dtype=object)
        for b in np.ndindex(shape):
            r = merge_rows(I, getitem(I, o, I.mktuple(entry(b))))
            for x in np.ndindex(pre):
                for y in np.ndindex(post):
                    a[x + b + y] = Cell(r.a[x + y].v if pre or post else r)
        return SArray(a, o.kind, I.pc, None, o.f32)
    if len(adv) == 1:
        k = adv[0]
        m = parts[k]
        if m.a.ndim == 1 and all(type(p) is int or p is None
                                 for p in parts[:k]) and \
                all(full(p) for p in parts[k + 1:]):
            base = o.a[tuple(parts[:k])] if k else o.a
            if m.kind == 'b':
                if m.guards is not None:
                    raise Unsupported('compressed mask')
                if m.a.shape[0] != base.shape[0]:
                    I.throw(ExcVal(IndexError, (
                        'boolean index did not match',)))
                return view_copy(I, o, base, [I.truth(c.v)
                                              for c in m.a])
            if base.ndim == 1 or all(type(c.v) is int for c in m.a):
                rows = []
                src = view(o, base)
                for g, x in slots_of(m):
                    rows.append(I.branch(
                        g, lambda: getitem(I, src, x), lambda: None)
                        if g != 1 else getitem(I, src, x))
                if base.ndim == 1:
                    rows = [strip_none(I, r) for r in rows]
                    return mk(I, (len(rows),), rows, o.kind, m.guards)
                rows = [strip_none(I, r) for r in rows]
                a = np.empty((len(rows),) + base.shape[1:], dtype=object)
                for j, r in enumerate(rows):
                    for idx in np.ndindex(base.shape[1:]):
                        a[(j,) + idx] = Cell(r.a[idx].v)
                return SArray(a, o.kind, I.pc, m.guards)
        if m.kind == 'b' and m.a.ndim == o.a.ndim and len(parts) == 1:
            return mk(I, (m.a.size,), [c.v for c in o.a.reshape(-1)],
                      o.kind, [I.truth(c.v) for c in m.a.reshape(-1)])
    if len(adv) == 2 and len(parts) == 2 and all(
            parts[k].kind == 'i' for k in adv):
        r, c = parts
        if r.a.ndim == 1 and c.a.ndim == 1 and r.guards == c.guards:
            vals = []
            for (g, x), (_, y) in zip(slots_of(r), slots_of(c)):
                vals.append(strip_none(I, I.branch(
                    g, lambda: getitem(I, o, I.mktuple([x, y])),
                    lambda: None)))
            return mk(I, (len(vals),), vals, o.kind, r.guards)
    raise Unsupported('array index')


def symbolic_index(o, parts):
    """index arrays with symbolic entries, all in one block between slices:
    (shape before, shape of the index arrays, shape after, index of one
    entry) or None"""
    parts = list(parts)
    while len(parts) < o.a.ndim:
        parts.append(bm.SSlice(None, None, None))
    adv = [k for k, p in enumerate(parts)
           if isinstance(p, SArray) or type(p) is int]
    if not any(isinstance(p, SArray) for p in parts) or len(parts) != \
            o.a.ndim or adv != list(range(adv[0], adv[-1] + 1)):
        return None
    for k, p in enumerate(parts):
        if isinstance(p, SArray):
            if p.kind != 'i' or p.guards is not None:
                return None
        elif k not in adv and not (type(p) is bm.SSlice and p.concrete()):
            return None
    pre = [nat(p) for p in parts[:adv[0]]]
    post = [nat(p) for p in parts[adv[-1] + 1:]]

    def dims(first, sl):
        return tuple(len(range(*x.indices(o.a.shape[first + j])))
                     for j, x in enumerate(sl))
    arrs = [parts[k].a if isinstance(parts[k], SArray) else parts[k]
            for k in adv]
    try:
        shape = np.broadcast_shapes(*[x.shape for x in arrs
                                      if not isinstance(x, int)])
    except ValueError:
        return None
    arrs = [x if isinstance(x, int) else np.broadcast_to(x, shape)
            for x in arrs]

    def entry(b):
        return list(parts[:adv[0]]) + [
            x if isinstance(x, int) else x[b].v for x in arrs] + \
            list(parts[adv[-1] + 1:])
    return dims(0, pre), shape, dims(adv[-1] + 1, post), entry


def merge_rows(I, r):
    """alternatives of arrays of one shape as one array"""
    if type(r) is not Union or not any(isinstance(x, SArray)
                                       for g, x in r.alts):
        return r
    r = I.pruned(r)
    if type(r) is not Union:
        return r
    (g, x0), rest = r.alts[0], r.alts[1:]
    if any(not isinstance(x, SArray) or x.a.shape != x0.a.shape or
           x.guards is not None for g, x in r.alts):
        raise Unsupported('rows of different shapes')
    a = np.empty(x0.a.shape, dtype=object)
    for idx in np.ndindex(a.shape):
        v = x0.a[idx].v
        for g, x in rest:
            v = I.ite(g, x.a[idx].v, v)
        a[idx] = Cell(v)
    return SArray(a, x0.kind, I.pc, None, x0.f32)


def strip_none(I, v):
    if type(v) is Union:
        al = [(g, x) for g, x in v.alts if x is not None]
        if len(al) == 1:
            return al[0][1]
        return Union(al)
    return v


def view_copy(I, o, cells, guards):
    a = np.empty(cells.shape, dtype=object)
    for idx in np.ndindex(cells.shape):
        a[idx] = Cell(cells[idx].v)
    return SArray(a, o.kind, I.pc, guards, o.f32)


def spread(a, shape):
    """what an assignment broadcasts: leading axes of length 1 are dropped"""
    while a.ndim > len(shape) and a.shape[0] == 1:
        a = a[0]
    return np.broadcast_to(a, shape)


def setitem(I, o, i, v):
    v = I.pruned(v)
    if type(v) is Union and len({x.a.shape if isinstance(x, SArray) else
                                 type(x) is SList for g, x in v.alts}) > 1:
        I.lift(v, lambda x: setitem(I, o, i, x))
        return
    parts = expand(norm_index(I, i), o.a.ndim)
    for k, p in enumerate(parts):
        if type(p) is Union:
            I.lift(p, lambda x: setitem(I, o, I.mktuple(
                parts[:k] + [x] + parts[k + 1:]), v))
            return
        if type(p) is bm.SSlice and not p.concrete():
            bm.lift_slice(I, p, lambda s: setitem(I, o, I.mktuple(
                parts[:k] + [bm.SSlice(s.start, s.stop, s.step)] +
                parts[k + 1:]), v))
            return
    if o.guards is not None:
        raise Unsupported('assignment into a compressed array')
    nats, masks = [], []
    for k, p in enumerate(parts):
        if isinstance(p, SArray):
            if p.kind == 'b':
                m = None if p.guards is not None else concrete_mask(I, p)
                if m is None:
                    masks.append(k)
                    nats.append(p)
                else:
                    nats.append(m)
            else:
                if p.guards is not None:
                    masks.append(k)
                    nats.append(p)
                    continue
                vs = [c.v for c in p.a.reshape(-1)]
                if not all(type(x) is int for x in vs):
                    sym = symbolic_index(o, parts)
                    if sym is None:
                        raise Unsupported('symbolic index array assignment')
                    pre, shape, post, entry = sym
                    vv = as_operand(I, v)
                    if vv.guards is not None:
                        raise Unsupported('assignment from a compressed '
                                          'array')
                    try:
                        src = spread(vv.a, pre + shape + post)
                    except ValueError as e:
                        I.throw(ExcVal(ValueError, e.args))
                    for b in np.ndindex(shape):
                        w = src[(slice(None),) * len(pre) + b]
                        w = w.v if isinstance(w, Cell) else view(vv, w)
                        setitem(I, o, I.mktuple(entry(b)), w)
                    return
                nats.append(np.array(vs, dtype=int).reshape(p.a.shape))
        elif simple(p):
            nats.append(nat(p))
        else:
            if isinstance(p, float):
                I.throw(ExcVal(IndexError, ('only integers...',)))
            raise Unsupported('index %r' % (p,))
    if not masks:
        try:
            tgt = o.a[tuple(nats)]
        except IndexError as e:
            I.throw(ExcVal(IndexError, e.args))
        if isinstance(tgt, Cell):
            I.cellwrite(tgt, cast(I, v, o.kind, o.f32)
                        if o.kind != 'O' else v, o.birth)
            return
        vv = as_operand(I, v)
        if vv.guards is not None:
            raise Unsupported('assignment from a compressed array')
        try:
            src = spread(vv.a, tgt.shape)
        except ValueError as e:
            I.throw(ExcVal(ValueError, e.args))
        vals = [c.v for c in src.reshape(-1)]
        for idx, x in zip(np.ndindex(tgt.shape), vals):
            I.cellwrite(tgt[idx], cast(I, x, o.kind, o.f32)
                        if o.kind != 'O' else x, o.birth)
        return
    if len(masks) == 1 and all(type(p) is int for p in parts[:masks[0]]) \
            and all(full(p) for p in parts[masks[0] + 1:]):
        k = masks[0]
        m = parts[k]
        base = o.a[tuple(parts[:k])] if k else o.a
        vv = as_operand(I, v)
        if m.kind == 'i':
            if m.a.ndim != 1:
                raise Unsupported('index array assignment')
            for j, (g, x) in enumerate(slots_of(m)):
                if vv.a.ndim > 1 or base.ndim > 1 and vv.a.ndim:
                    raise Unsupported('index array assignment')
                w = vv.a.reshape(-1)[j if vv.a.ndim else 0].v
                pc0 = I.pc
                p = I.extend(pc0, g)
                if p is None:
                    continue
                I.pc = p
                setitem(I, view(o, base), x, w)
                I.pc = pc0
            return
        if m.a.ndim == base.ndim and vv.a.ndim == 0:
            for idx in np.ndindex(base.shape):
                wr(I, o, base[idx], I.truth(m.a[idx].v), vv.a[()].v)
            return
        if m.a.ndim == 1 and base.ndim >= 1:
            gs = [I.truth(c.v) for c in m.a]
            if vv.a.ndim == 0 or (vv.guards == gs):
                for j in range(base.shape[0]):
                    row = base[j]
                    if isinstance(row, Cell):
                        wr(I, o, row, gs[j], vv.a[()].v if vv.a.ndim == 0
                           else vv.a[j].v)
                    else:
                        for idx in np.ndindex(row.shape):
                            wr(I, o, row[idx], gs[j], vv.a[()].v
                               if vv.a.ndim == 0 else vv.a[j][idx].v)
                return
    raise Unsupported('masked assignment')


def wr(I, o, cell, g, v):
    pc0 = I.pc
    p = I.extend(pc0, g)
    if p is None:
        return
    I.pc = p
    I.cellwrite(cell, cast(I, v, o.kind, o.f32), o.birth)
    I.pc = pc0


# ----------------------------------------------------------------------
# reductions and functions
# ----------------------------------------------------------------------
def reduce_axis(I, fn, a, axis, keep=False):
    if axis is None:
        return fn(slots_of(a))
    if axis < 0:
        axis += a.a.ndim
    if a.guards is not None:
        if axis != 0 and a.a.ndim == 2:
            vals = [fn([(1, c.v) for c in row]) for row in a.a]
            return mk(I, (len(vals),), vals, kind_of(vals[0]), a.guards)
        if axis == 0:
            m = np.moveaxis(a.a, 0, -1)
            vals = [fn([(g, c.v) for g, c in zip(a.guards, m[idx])])
                    for idx in np.ndindex(m.shape[:-1])]
            return result(I, m.shape[:-1], vals)
        raise Unsupported('axis reduction of a compressed array')
    m = np.moveaxis(a.a, axis, -1)
    vals = [fn([(1, c.v) for c in m[idx]])
            for idx in np.ndindex(m.shape[:-1])]
    return result(I, m.shape[:-1], vals)


def reduction(name):
    def fn(I, slots):
        sl = SList(slots, 'list', I.pc)
        if name == 'sum':
            return bm.b_sum(I, [sl], {})
        if name in ('min', 'max'):
            return bm.minmax(I, [sl], {}, name)
        if name == 'prod':
            return bm.numeric_fold(I, 'mul', slots, 1)
        if name == 'any':
            return I.mkbool(I.aig.ors([I.aig.AND(g, I.truth(x))
                                       for g, x in slots]))
        if name == 'all':
            return I.mkbool(I.aig.ands([I.aig.OR(g ^ 1, I.truth(x))
                                        for g, x in slots]))
        if name == 'count_nonzero':
            return I.count_val([I.aig.AND(g, I.truth(x)) for g, x in slots])
        if name == 'mean':
            return np_div(I, bm.b_sum(I, [sl], {}),
                          I.count_val([g for g, x in slots]))
        if name in ('argmin', 'argmax'):
            idx = [(g, I.mktuple([x, -i])) for i, (g, x)
                   in enumerate(slots)]
            if any(g != 1 for g, x in slots):
                raise Unsupported('argmin of a compressed array')
            key = Intrinsic('k', lambda I, a, k: a[0].slots[0][1])
            t = bm.minmax(I, [SList([(g, I.mktuple([x, i])) for i, (g, x)
                                     in enumerate(slots)], 'list', I.pc)],
                          {'key': key}, name[3:])
            return bm.getitem(I, t, 1)

    def f(I, args, kwargs):
        v = args[0]
        if type(v) is SIter:
            v = SList(I.elements(v), 'list', I.pc)
        a = toarray(I, v)
        axis = kwargs.get('axis', args[1] if len(args) > 1 else None)
        if isinstance(axis, SList):
            raise Unsupported('axis tuple')
        r = reduce_axis(I, lambda s: fn(I, s), a, axis)
        if kwargs.get('keepdims'):
            shape = (1,) * a.a.ndim if axis is None else tuple(
                1 if k == axis % a.a.ndim else m
                for k, m in enumerate(a.a.shape))
            r = toarray(I, r) if axis is not None else mk(
                I, (1,), [r], kind_of(r))
            if r.guards is not None:
                raise Unsupported('keepdims of a compressed array')
            return view(r, r.a.reshape(shape))
        return r
    return f


def np_where(I, args, kwargs):
    c = toarray(I, args[0])
    if len(args) == 1:
        return np_nonzero(I, [c], {})
    return zipwith(I, lambda g, x, y: I.ite(I.truth(g), x, y),
                   [c] + [a if isinstance(a, SArray) else a
                          for a in args[1:]])


def np_nonzero(I, args, kwargs):
    c = toarray(I, args[0])
    if c.guards is not None:
        if c.a.ndim != 1:
            raise Unsupported('where of a compressed array')
        sl = bm.indexed(I, slots_of(c))
        gs = [I.aig.AND(g, I.truth(x)) for g, i, x in sl]
        return I.mktuple([mk(I, (len(sl),), [i for g, i, x in sl], 'i',
                             gs)])
    idx = list(np.ndindex(c.a.shape))
    gs = [I.simp(I.pc, I.truth(c.a[i].v)) for i in idx]
    keep = [(g, i) for g, i in zip(gs, idx) if g]
    guards = None if all(g == 1 for g, i in keep) else [g for g, i in keep]
    return I.mktuple([mk(I, (len(keep),), [i[d] for g, i in keep], 'i',
                         guards) for d in range(c.a.ndim)])


def np_unique(I, args, kwargs):
    if any(kwargs.values()):
        raise Unsupported('unique options')
    a = toarray(I, args[0])
    fl = bm.scalar_alts(I, slots_of(a))
    if fl is None:
        raise Unsupported('unique of symbolic reals')
    by = {}
    for l, y in fl:
        by[y] = I.aig.OR(by.get(y, 0), l)
    ks = sorted(by)
    gs = [I.simp(I.pc, by[k]) for k in ks]
    keep = [(k, g) for k, g in zip(ks, gs) if g]
    guards = None if all(g == 1 for k, g in keep) else \
        [g for k, g in keep]
    return mk(I, (len(keep),), [k for k, g in keep], a.kind, guards)


def np_argsort(I, args, kwargs):
    a = toarray(I, args[0])
    if a.a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    sl = bm.indexed(I, slots_of(a))
    pairs = [(g, I.mktuple([x, i])) for g, i, x in sl]
    key = Intrinsic('k', lambda I, aa, k: bm.getitem(I, aa[0], 0))
    vals = [x for g, i, x in sl]
    for v in vals:
        for h, y in I.alts(v):
            if y is None:
                I.throw(ExcVal(TypeError, ("'<' not supported",)))
    out = bm.sort_slots(I, pairs, key)
    guards = None if all(g == 1 for g, x in out) else [g for g, x in out]
    return mk(I, (len(out),), [bm.getitem(I, x, 1) for g, x in out], 'i',
              guards)


def np_sort(I, args, kwargs):
    a = toarray(I, args[0])
    if a.a.ndim != 1:
        raise Unsupported('sort of a matrix')
    out = bm.sort_slots(I, slots_of(a))
    guards = None if all(g == 1 for g, x in out) else [g for g, x in out]
    return mk(I, (len(out),), [x for g, x in out], a.kind, guards)


def np_lexsort(I, args, kwargs):
    keys = [toarray(I, x) for g, x in I.elements(args[0])]
    n = keys[0].a.shape[0]
    rows = [(1, I.mktuple([I.mktuple([k.a[i].v for k in reversed(keys)]),
                           i])) for i in range(n)]
    key = Intrinsic('k', lambda I, aa, k: bm.getitem(I, aa[0], 0))
    out = bm.sort_slots(I, rows, key)
    return mk(I, (n,), [bm.getitem(I, x, 1) for g, x in out], 'i')


def np_flip(I, args, kwargs):
    a = toarray(I, args[0])
    ax = kwargs.get('axis', args[1] if len(args) > 1 else None)
    if a.guards is not None:
        return view(a, a.a[::-1], list(reversed(a.guards)))
    return view(a, np.flip(a.a, ax))


def np_fliplr(I, args, kwargs):
    a = toarray(I, args[0])
    return view(a, np.fliplr(a.a))


def np_outer(I, args, kwargs):
    a, b = toarray(I, args[0]), toarray(I, args[1])
    f = scalar_op(I, 'mul')
    x, y = a.a.reshape(-1), b.a.reshape(-1)
    return result(I, (x.size, y.size),
                  [f(p.v, q.v) for p in x for q in y])


def np_dot(I, args, kwargs):
    a, b = toarray(I, args[0]), toarray(I, args[1])
    mul = scalar_op(I, 'mul')

    def inner(xs, ys):
        acc = 0
        for x, y in zip(xs, ys):
            acc = I.binop('add', acc, mul(x.v, y.v))
        return acc
    if a.a.ndim == 1 and b.a.ndim == 1:
        return inner(a.a, b.a)
    if a.a.ndim == 2 and b.a.ndim == 1:
        return result(I, (a.a.shape[0],), [inner(r, b.a) for r in a.a])
    if a.a.ndim == 1 and b.a.ndim == 2:
        return result(I, (b.a.shape[1],), [inner(a.a, b.a[:, j])
                                           for j in range(b.a.shape[1])])
    if a.a.ndim == 2 and b.a.ndim == 2:
        return result(I, (a.a.shape[0], b.a.shape[1]),
                      [inner(r, b.a[:, j]) for r in a.a
                       for j in range(b.a.shape[1])])
    raise Unsupported('dot')


def np_concat(I, args, kwargs):
    axis = kwargs.get('axis', args[1] if len(args) > 1 else 0)
    xs = [toarray(I, x) for g, x in I.elements(args[0])]
    kind = max((x.kind for x in xs if x.a.size), key=RANK.get, default='f')
    if any(x.guards is not None for x in xs):
        if axis not in (0, None) or any(x.a.ndim != 1 for x in xs):
            raise Unsupported('concatenate compressed arrays')
        sl = [s for x in xs for s in slots_of(x)]
        return mk(I, (len(sl),), [x for g, x in sl], kind,
                  [g for g, x in sl])
    try:
        if axis is None:
            a = np.concatenate([x.a.reshape(-1) for x in xs])
        else:
            a = np.concatenate([x.a for x in xs], axis=axis)
    except ValueError as e:
        I.throw(ExcVal(ValueError, e.args))
    return mk(I, a.shape, [cast(I, c.v, kind) if kind != 'O' else c.v
                           for c in a.reshape(-1)], kind)


def np_stack(I, args, kwargs):
    axis = kwargs.get('axis', 0)
    xs = [toarray(I, x) for g, x in I.elements(args[0])]
    a = np.stack([x.a for x in xs], axis=axis)
    kind = max((x.kind for x in xs), key=RANK.get)
    return mk(I, a.shape, [cast(I, c.v, kind) for c in a.reshape(-1)], kind)


def np_hv(fn):
    def f(I, args, kwargs):
        xs = [toarray(I, x) for g, x in I.elements(args[0])]
        a = fn([x.a for x in xs])
        kind = max((x.kind for x in xs), key=RANK.get)
        return mk(I, a.shape, [cast(I, c.v, kind) for c in a.reshape(-1)],
                  kind)
    return f


def np_append(I, args, kwargs):
    return np_concat(I, [I.mklist(list(args[:2]))],
                     {'axis': kwargs.get('axis')})


def np_insert(I, args, kwargs):
    a = toarray(I, args[0])
    fl = [c.v for c in a.a.reshape(-1)]
    i = bm.lower(I, args[1])
    vals = fl[:i] + [cast(I, args[2], a.kind)] + fl[i:]
    return mk(I, (len(vals),), vals, a.kind)


def np_native(name):
    """structural functions delegated to numpy on the cell array"""
    real = np.__getattribute__(name)

    def f(I, args, kwargs):
        a = toarray(I, args[0])
        if a.guards is not None:
            raise Unsupported('%s of a compressed array' % name)
        rest = [bm.lower(I, x) for x in args[1:]]
        kw = {k: bm.lower(I, x) for k, x in kwargs.items()}
        try:
            r = real(a.a, *rest, **kw)
        except Exception as e:
            bm.throw_native(I, e)
        if isinstance(r, Cell):
            return r.v
        return view(a, r)
    return f


def np_take(I, args, kwargs):
    a = toarray(I, args[0])
    axis = kwargs.get('axis', args[2] if len(args) > 2 else None)
    i = toarray(I, args[1]) if isinstance(args[1], SList) else args[1]
    if axis is None:
        return getitem(I, method(I, a, 'ravel', [], {}), i)
    if axis == 0:
        return getitem(I, a, i)
    if axis == 1:
        return getitem(I, a, I.mktuple([bm.SSlice(None, None, None), i]))
    raise Unsupported('take along an axis')


def np_tri(name):
    real = np.__getattribute__(name)

    def f(I, args, kwargs):
        a = toarray(I, args[0])
        k = bm.lower(I, args[1] if len(args) > 1 else kwargs.get('k', 0))
        m = real(np.ones(a.a.shape, dtype=int), k)
        z = {'b': False, 'i': 0, 'f': 0.0}[a.kind]
        return mk(I, a.a.shape, [c.v if x else z for c, x in zip(
            a.a.reshape(-1), m.reshape(-1))], a.kind)
    return f


def np_eye(I, args, kwargs):
    kind, f32 = dtype_kind(I, kwargs.get('dtype'))
    r = from_native(I, np.eye(*[bm.lower(I, a) for a in args]))
    return copy(I, r, kind or 'f')


def np_size(I, args, kwargs):
    a = toarray(I, args[0])
    if a.guards is not None:
        return length(I, a)
    ax = kwargs.get('axis', args[1] if len(args) > 1 else None)
    return a.a.size if ax is None else a.a.shape[ax]


def np_shape(I, args, kwargs):
    a = toarray(I, args[0])
    if a.guards is not None:
        return I.mktuple([length(I, a)] + list(a.a.shape[1:]))
    return I.mktuple(list(a.a.shape))


def np_array_equal(I, args, kwargs):
    a, b = toarray(I, args[0]), toarray(I, args[1])
    if a.a.shape != b.a.shape:
        return False
    return I.mkbool(I.aig.ands([I.eq_lit(x.v, y.v) for x, y in zip(
        a.a.reshape(-1), b.a.reshape(-1))]))


def np_isclose(I, args, kwargs):
    rtol = kwargs.get('rtol', args[2] if len(args) > 2 else 1e-5)
    atol = kwargs.get('atol', args[3] if len(args) > 3 else 1e-8)

    def f(x, y):
        d = bm.b_abs(I, [I.binop('sub', x, y)], {})
        t = I.binop('add', atol, I.binop('mul', rtol, bm.b_abs(I, [y], {})))
        return I.compare('le', d, t)
    return zipwith(I, f, args[:2], None)


def np_allclose(I, args, kwargs):
    r = np_isclose(I, args, kwargs)
    if isinstance(r, SArray):
        return reduction('all')(I, [r], {})
    return r


def np_diff(I, args, kwargs):
    a = toarray(I, args[0])
    return zipwith(I, scalar_op(I, 'sub'), [view(a, a.a[..., 1:]),
                                            view(a, a.a[..., :-1])])


def np_cumsum(I, args, kwargs):
    a = toarray(I, args[0])
    acc, out = None, []
    for c in a.a.reshape(-1):
        acc = c.v if acc is None else I.binop('add', acc, c.v)
        out.append(acc)
    return mk(I, (len(out),), out, kind_of(out[-1]) if out else a.kind)


def np_clip(I, args, kwargs):
    lo = args[1] if len(args) > 1 else kwargs.get('a_min')
    hi = args[2] if len(args) > 2 else kwargs.get('a_max')

    def f(x):
        if lo is not None:
            x = bm.minmax(I, [x, lo], {}, 'max')
        if hi is not None:
            x = bm.minmax(I, [x, hi], {}, 'min')
        return x
    return elementwise(I, f, args[0])


def np_linalg_norm(I, args, kwargs):
    a = toarray(I, args[0])
    if kwargs or len(args) > 1:
        raise Unsupported('norm options')
    acc = 0.0
    for g, x in slots_of(a):
        if g != 1:
            raise Unsupported('norm of a compressed array')
        acc = I.binop('add', acc, I.binop('mul', x, x))
    return math_call(I, 'sqrt', [acc], True)


def np_savetxt(I, args, kwargs):
    fn = args[0]
    a = toarray(I, args[1])
    I.fs[I.fskey(fn)] = ('csv', copy(I, a), kwargs.get('delimiter', ' '),
                         kwargs.get('fmt', '%.18e'))


def np_genfromtxt(I, args, kwargs):
    k = I.fskey(args[0])
    if k not in I.fs:
        I.throw(ExcVal(FileNotFoundError, ('%s not found.' % (args[0],),)))
    _, a, delim, fmt = I.fs[k]
    kind, _ = dtype_kind(I, kwargs.get('dtype', DType('f', 'float')))
    d2 = kwargs.get('delimiter')
    if d2 is None:
        d2 = ' '
    if d2 != delim:
        if a.a.ndim == 2 and a.a.shape[1] > 1:
            r = mk(I, (a.a.shape[0],), [
                {'i': -1, 'f': math.nan, 'b': False}[kind]] *
                a.a.shape[0], kind)
        else:
            r = copy(I, a, kind)
    else:
        r = copy(I, a, kind)
    skip = kwargs.get('skip_header', 0)
    r.a = np.squeeze(r.a[skip:])
    if r.a.shape == () and not isinstance(r.a, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = r.a
        r.a = b
    if kwargs.get('ndmin', 0) == 2:
        r.a = np.atleast_2d(r.a) if a.a.shape[0] == 1 or r.a.ndim == 0 \
            else (r.a.reshape(-1, 1) if r.a.ndim == 1 else r.a)
    return r


def getattr(I, o, name):
    if name == 'T':
        if o.guards is not None and o.a.ndim > 1:
            raise Unsupported('transpose of a compressed array')
        return view(o, o.a.T, o.guards)
    if name == 'shape':
        return np_shape(I, [o], {})
    if name == 'size':
        return np_size(I, [o], {})
    if name == 'ndim':
        return o.a.ndim
    if name == 'dtype':
        return {'b': DT['bool_'], 'i': DT['int64'], 'f': DT['float64'],
                'O': DT['object_']}[o.kind]
    if name == 'flat':
        return view(o, o.a.reshape(-1))
    if name in METHODS:
        return BuiltinMethod(name, o)
    if name == 'real':
        return o
    return bm.missing_attr(I, o, name, np.ndarray)


METHODS = {'astype', 'copy', 'transpose', 'reshape', 'tolist', 'sum', 'min',
           'max', 'any', 'all', 'flatten', 'ravel', 'argsort', 'nonzero',
           'item', 'mean', 'fill', 'dot', 'sort', 'argmin', 'argmax',
           'cumsum', 'prod', 'squeeze', '__len__', '__getitem__',
           '__iter__', 'swapaxes', 'clip', 'round', 'diagonal', 'trace',
           '__contains__', '__setitem__', 'repeat', 'view', 'take'}


def method(I, o, name, args, kwargs):
    if name == 'astype':
        k, f = dtype_kind(I, args[0] if args else kwargs['dtype'])
        return copy(I, o, k, f)
    if name == 'copy':
        return copy(I, o)
    if name == 'tolist':
        if o.a.ndim == 0:
            return o.a[()].v
        if o.a.ndim == 1:
            return SList(list(iterate(I, o)), 'list', I.pc)
        return SList([(g, method(I, r, 'tolist', [], {}))
                      for g, r in iterate(I, o)], 'list', I.pc)
    if name in ('sum', 'min', 'max', 'any', 'all', 'mean', 'argmin',
                'argmax', 'prod'):
        return reduction(name)(I, [o] + list(args), kwargs)
    if name == 'item':
        if args:
            return getitem(I, o, args[0])
        if o.a.size != 1:
            I.throw(ExcVal(ValueError, ('can only convert an array of size '
                                        '1',)))
        return o.a.reshape(-1)[0].v
    if name in ('flatten', 'ravel'):
        if o.guards is not None and o.a.ndim > 1:
            raise Unsupported('flatten compressed')
        r = view(o, o.a.reshape(-1), o.guards)
        return copy(I, r) if name == 'flatten' else r
    if name == 'argsort':
        return np_argsort(I, [o], kwargs)
    if name == 'nonzero':
        return np_nonzero(I, [o], {})
    if name == 'dot':
        return np_dot(I, [o] + list(args), {})
    if name == 'fill':
        setitem(I, o, bm.SSlice(None, None, None), args[0])
        return None
    if name == 'sort':
        r = np_sort(I, [o], {})
        if r.guards is not None:
            raise Unsupported('sort of compressed')
        setitem(I, o, bm.SSlice(None, None, None), r)
        return None
    if name == 'cumsum':
        return np_cumsum(I, [o], {})
    if name == 'clip':
        return np_clip(I, [o] + list(args), kwargs)
    if name == 'round':
        return elementwise(I, lambda x: bm.b_round(I, [x], {}), o)
    if name == 'reshape':
        if o.guards is not None:
            raise Unsupported('reshape compressed')
        if len(args) == 1 and isinstance(args[0], SList):
            s = shape_arg(I, args[0])
        else:
            s = tuple(bm.lower(I, a) for a in args)
        try:
            return view(o, o.a.reshape(s))
        except ValueError as e:
            I.throw(ExcVal(ValueError, e.args))
    if name == 'transpose':
        return view(o, o.a.transpose(*[bm.lower(I, a) for a in args]))
    if name in ('squeeze', 'swapaxes', 'diagonal', 'repeat', 'take'):
        r = np.ndarray.__dict__[name](o.a, *[bm.lower(I, a) for a in args])
        return view(o, r)
    if name == 'trace':
        return bm.b_sum(I, [view(o, o.a.diagonal())], {})
    if name in ('__len__', '__iter__', '__getitem__', '__contains__',
                '__setitem__'):
        return bm.dunder(I, o, name, args)
    raise Unsupported('ndarray.%s' % name)


# ----------------------------------------------------------------------
# real functions
# ----------------------------------------------------------------------
def const_of(v):
    if type(v) is SNum:
        e = z3.simplify(v.e)
        if z3.is_rational_value(e):
            return e.as_fraction()
        return None
    return v


def power(I, a, b):
    def one(x, y):
        cx, cy = const_of(x), const_of(y)
        if cx is not None and cy is not None:
            try:
                if type(x) is SNum or type(y) is SNum:
                    cx = float(cx)
                    cy = float(cy)
                return cx ** cy
            except Exception as e:
                bm.throw_native(I, e)
        if cy is not None:
            if cy == int(cy) and abs(cy) <= 8:
                n = int(cy)
                if n == 0:
                    return 1.0
                e = x.e
                r = e
                for _ in range(abs(n) - 1):
                    r = r * e
                if n < 0:
                    z = I.aig.atom(e == 0)
                    I.raise_if(z, ExcVal(ZeroDivisionError, ('0.0 cannot be '
                               'raised to a negative power',)))
                    r = 1 / r
                return SNum(r)
            if cy == 0.5:
                return math_call(I, 'sqrt', [x], True)
            if cy == -0.5:
                return np_div(I, 1.0, math_call(I, 'sqrt', [x], True))
            return rpow(I, x, cy)
        raise Unsupported('power with a symbolic exponent')
    return I.lift(a, lambda x: I.lift(b, lambda y: one(x, y)))


def rpow(I, x, c):
    """x ** c for rational c = p/q (x >= 0): y with y**q = x**p"""
    c = Fraction(c).limit_denominator(12)
    p, q = c.numerator, c.denominator
    if q > 6 or abs(p) > 12:
        raise Unsupported('power with exponent %s' % c)
    neg = I.aig.atom(x.e < 0)
    if neg != 0 and I.aig.surely(I.aig.AND(I.pc.lit, neg)):
        raise Unsupported('fractional power of a negative number')
    if p < 0:
        z = I.aig.atom(x.e == 0)
        I.raise_if(z, ExcVal(ZeroDivisionError, ('0.0 cannot be raised to a '
                                                 'negative power',)))
    key = ('pow', c, x.e.get_id())
    v = I.apps.get(key)
    if v is None:
        v = z3.Real('pow!%d' % len(I.apps))
        I.apps[key] = v
        I.aig.rdef[str(v)] = (lambda a: a ** float(c), [x.e])
        I.keep.append(x.e)

        def pw(e, n):
            r = e
            for _ in range(n - 1):
                r = r * e
            return r
        lhs = pw(v, q)
        if p > 0:
            f = z3.And(v >= 0, lhs == pw(x.e, p))
        else:
            f = z3.And(v > 0, lhs * pw(x.e, -p) == 1)
        I.aig.base_z3.append(((str(v),), z3.Implies(x.e >= 0 if p > 0 else
                                                    x.e > 0, f)))
    return SNum(v)


PAIRED = {'sin': ('sin', 'cos'), 'cos': ('sin', 'cos'),
          'sinh': ('sinh', 'cosh'), 'cosh': ('sinh', 'cosh')}
MONO = {'exp', 'log', 'tanh', 'arctanh', 'arctan', 'sinh'}


def app(I, name, e):
    """auxiliary variable for name(e), with its side conditions"""
    e = z3.simplify(I.aig.poly.normal(e))
    key = (name, e.get_id())
    v = I.apps.get(key)
    if v is not None:
        return v
    I.keep.append(e)
    base = I.aig.base_z3
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        v = I.apps[key] = z3.If(e.arg(0), app(I, name, e.arg(1)),
                                app(I, name, e.arg(2)))
        return v
    if name in ('exp', 'tanh'):
        c = condition(e)
        if c is not None:
            v = I.apps[key] = z3.If(
                c.arg(0), *[app(I, name, z3.substitute(e, (c, c.arg(k))))
                            for k in (1, 2)])
            return v
    if name == 'log':
        f, g = I.aig.poly.scale(e)
        if f != 1:
            c = z3.Q(*Fraction(math.log(f)).as_integer_ratio())
            v = I.apps[key] = z3.simplify(app(I, 'log', g) + c)
            return v
    if name == 'sqrt':
        v = I.aig.poly.square(e)
        if v is not None and str(v).startswith('sqrt!'):
            I.apps[key] = v
            return v
        v = z3.Real('sqrt!%d' % len(I.apps))
        I.apps[key] = v
        I.aig.rdef[str(v)] = (np.sqrt, [e])
        I.aig.poly.rule(v, 2, e)
        base.append(((str(v),), z3.Implies(e >= 0, z3.And(v >= 0,
                                                          v * v == e))))
        return v
    if name in PAIRED:
        a, b = PAIRED[name]
        k = len(I.apps)
        parts = I.aig.poly.summands(e)
        if parts is not None:
            # addition theorem
            S, C = z3.RealVal(0), z3.RealVal(1)
            for neg, t in parts:
                s, c = app(I, a, t), app(I, b, t)
                if neg:
                    s = -s
                S, C = S * c + C * s, \
                    (C * c - S * s if a == 'sin' else C * c + S * s)
            norm = I.aig.poly.normal
            S, C = z3.simplify(norm(S)), z3.simplify(norm(C))
            I.apps[a, e.get_id()] = S
            I.apps[b, e.get_id()] = C
            if a == 'sinh':
                own = tuple(str(app(I, f, t)) for neg, t in parts
                            for f in (a, b))
                if len(parts) > 1:
                    base.append((own, z3.And(C >= 1, (S > 0) == (e > 0),
                                             (S < 0) == (e < 0))))
            return I.apps[key]
        s, c = z3.Real('%s!%d' % (a, k)), z3.Real('%s!%d' % (b, k))
        I.apps[a, e.get_id()] = s
        I.apps[b, e.get_id()] = c
        I.aig.rdef[str(s)] = (np.__dict__[a], [e])
        I.aig.rdef[str(c)] = (np.__dict__[b], [e])
        own = (str(s),), (str(c),)
        if a == 'sin':
            I.aig.poly.rule(c, 2, 1 - s * s)
            f = z3.And(s * s + c * c == 1, z3.Implies(e == 0, z3.And(
                s == 0, c == 1)))
        else:
            I.aig.poly.rule(c, 2, 1 + s * s)
            f = z3.And(c * c - s * s == 1, c >= 1, (s > 0) == (e > 0),
                       (s < 0) == (e < 0))
        d = I.aig.rdef.get(str(e)) if a == 'sin' and z3.is_const(e) else None
        if d is not None and d[0] is np.arctan:
            f = z3.And(f, c > 0, s == d[1][0] * c)
        elif d is not None and d[0] is np.arctan2:
            y, x = d[1]
            r = app(I, 'sqrt', x * x + y * y)
            f = z3.And(f, z3.If(r > 0, z3.And(c * r == x, s * r == y),
                                z3.And(c == 1, s == 0)))
        for o in own:
            base.append((o, f))
        if a == 'sinh':
            mono(I, a, s, e)
        return I.apps[key]
    if name == 'tanh':
        d = I.aig.rdef.get(str(e)) if z3.is_const(e) else None
        if d is not None and d[0] is np.arctanh:
            I.apps[key] = d[1][0]
            return d[1][0]
        parts = I.aig.poly.summands(e)
        if parts is not None:
            T = None
            for neg, t in parts:
                u = app(I, 'tanh', t)
                u = -u if neg else u
                if T is None:
                    T = u
                    continue
                k = len(I.apps)
                w = z3.Real('tanhsum!%d' % k)
                I.apps['tanhsum', k] = w
                I.aig.rdef[str(w)] = (lambda a, b: (a + b) / (1 + a * b),
                                      [T, u])
                base.append(((str(w),), z3.Implies(
                    z3.And(T > -1, T < 1, u > -1, u < 1),
                    z3.And(w * (1 + T * u) == T + u, w > -1, w < 1,
                           1 + T * u > 0))))
                T = w
            I.apps[key] = T
            return T
    if name == 'exp':
        parts = I.aig.poly.summands(e)
        if parts is not None:
            # addition theorem
            E = z3.RealVal(1)
            own = []
            for neg, t in parts:
                u = app(I, 'exp', t)
                own.append(str(u))
                if neg:
                    u = app_inverse(I, u)
                    own.append(str(u))
                E = E * u
            E = z3.simplify(I.aig.poly.normal(E))
            I.apps[key] = E
            if not z3.is_const(E):
                base.append((tuple(own), z3.And(
                    E > 0, (E > 1) == (e > 0), (E < 1) == (e < 0))))
            return E
    v = z3.Real('%s!%d' % (name, len(I.apps)))
    I.apps[key] = v
    I.aig.rdef[str(v)] = (np.__dict__[name], [e])
    o = (str(v),)
    if name == 'exp':
        base.append((o, z3.And(v > 0, (v > 1) == (e > 0),
                               (v < 1) == (e < 0), v >= 1 + e)))
    elif name == 'log':
        base.append((o, z3.Implies(e > 0, z3.And(
            (v > 0) == (e > 1), (v < 0) == (e < 1), v <= e - 1,
            v * e >= e - 1))))
    elif name == 'tanh':
        base.append((o, z3.And(v > -1, v < 1, (v > 0) == (e > 0),
                               (v < 0) == (e < 0))))
    elif name in ('arctanh', 'arctan'):
        base.append((o, z3.And((v > 0) == (e > 0), (v < 0) == (e < 0))))
        if name == 'arctan':
            base.append((o, z3.And(v > -z3.Q(1571, 1000),
                                   v < z3.Q(1571, 1000))))
    mono(I, name, v, e)
    return v


def condition(e):
    """first subterm that depends on a condition"""
    todo, seen = [e], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return e
        todo.extend(e.children())
    return None


def app_inverse(I, u):
    """auxiliary variable for 1 / u, with u > 0 the value of exp"""
    key = ('inverse', u.get_id())
    w = I.apps.get(key)
    if w is None:
        w = I.apps[key] = z3.Real('inverse!%d' % len(I.apps))
        I.aig.rdef[str(w)] = (lambda x: 1.0 / x, [u])
        I.aig.base_z3.append(((str(w),), z3.And(
            w > 0, w * u == 1, (w < 1) == (u > 1), (w > 1) == (u < 1))))
    return w


def mono(I, name, v, e):
    lst = I.monos.setdefault(name, [])
    dom = (lambda x: x > 0) if name == 'log' else (lambda x: None)
    for w, f in lst:
        fact = z3.And((v < w) == (e < f), (v == w) == (e == f))
        if name == 'log':
            fact = z3.Implies(z3.And(e > 0, f > 0), fact)
        elif name == 'arctanh':
            fact = z3.Implies(z3.And(e > -1, f > -1, e < 1, f < 1), fact)
        I.aig.base_z3.append(((str(v), str(w)), fact))
    lst.append((v, e))


ALIAS = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan',
         'atanh': 'arctanh', 'asinh': 'arcsinh', 'acosh': 'arccosh',
         'fabs': 'abs', 'absolute': 'abs'}


def math_call(I, name, args, numpy=False):
    """real function of values, at least one of them symbolic (or any value
    with numpy=True)"""
    name = ALIAS.get(name, name)
    if any(type(a) is Union for a in args):
        k = [i for i, a in enumerate(args) if type(a) is Union][0]
        return I.lift(args[k], lambda x: math_call(
            I, name, args[:k] + [x] + args[k + 1:], numpy))
    args = [I.boolint(a) if type(a) in (SBool, bool) else a for a in args]
    if any(type(a) is Union for a in args):
        return math_call(I, name, args, numpy)
    consts = [const_of(a) for a in args]
    if all(c is not None for c in consts) and name != 'abs':
        real = np.__dict__.get(name)
        if real is None:
            raise Unsupported('function %s' % name)
        if numpy or any(type(a) is SNum for a in args):
            with np.errstate(all='ignore'):
                r = real(*[float(c) for c in consts])
            if not numpy and r != r:
                I.throw(ExcVal(ValueError, ('math domain error',)))
            return bm.raise_native(I, r)
        return bm.raise_native(I, real(*consts))
    if name == 'abs':
        return bm.b_abs(I, args, {})
    x = args[0]

    def domain(bad, badval):
        """split off the part outside the domain"""
        if bad == 0:
            return None
        bad = I.simp(I.pc, bad)
        if bad == 0:
            return None
        p1, p0 = I.split(bad)
        if p1 is None:
            return None
        if not numpy:
            I.raise_if(bad, ExcVal(ValueError, ('math domain error',)))
            return None
        return (bad, badval)
    if name == 'sqrt':
        d = domain(I.aig.atom(x.e < 0), math.nan)
        v = SNum(app(I, 'sqrt', x.e))
        return v if d is None else I.mkunion([d, (d[0] ^ 1, v)])
    if name == 'log':
        d = domain(I.aig.atom(x.e < 0), math.nan)
        z = domain(I.aig.atom(x.e == 0), -math.inf)
        v = SNum(app(I, 'log', x.e))
        if d is None and z is None:
            return v
        al = [y for y in (d, z) if y is not None]
        return I.mkunion(al + [(I.aig.ors([y[0] for y in al]) ^ 1, v)])
    if name == 'arctanh':
        bad = I.aig.OR(I.aig.atom(x.e <= -1), I.aig.atom(x.e >= 1))
        d = domain(bad, math.nan)
        v = SNum(app(I, 'arctanh', x.e))
        return v if d is None else I.mkunion([d, (d[0] ^ 1, v)])
    if name in ('sin', 'cos', 'sinh', 'cosh', 'exp', 'tanh', 'arctan'):
        return SNum(app(I, name, x.e))
    if name == 'tan':
        return np_div(I, SNum(app(I, 'sin', x.e)), SNum(app(I, 'cos', x.e)))
    if name in ('floor', 'ceil', 'trunc'):
        fl = z3.ToReal(z3.ToInt(x.e))
        if name == 'floor':
            return SNum(fl)
        if name == 'ceil':
            return SNum(-z3.ToReal(z3.ToInt(-x.e)))
        return bm.b_int(I, [x], {})
    if name in ('isnan', 'isinf'):
        return False
    if name == 'isfinite':
        return True
    if name == 'pow':
        return power(I, *args)
    if name == 'copysign':
        a = bm.b_float(I, [bm.b_abs(I, [x], {})], {})
        if type(args[1]) is SNum:
            return I.ite(I.aig.atom(args[1].e < 0), I.unary(ast.USub, a), a)
        return I.unary(ast.USub, a) if math.copysign(1.0, args[1]) < 0 \
            else a
    if name == 'degrees':
        return I.binop('mul', x, 180.0 / math.pi)
    if name == 'radians':
        return I.binop('mul', x, math.pi / 180.0)
    if name == 'arctan2':
        key = ('arctan2', I.num_e(args[0]).get_id(),
               I.num_e(args[1]).get_id())
        v = I.apps.get(key)
        if v is None:
            v = I.apps[key] = z3.Real('arctan2!%d' % len(I.apps))
            I.aig.rdef[str(v)] = (np.arctan2, [I.num_e(args[0]),
                                               I.num_e(args[1])])
            I.keep.append((args[0], args[1]))
        return SNum(v)
    if name == 'fmod':
        # the remainder with the sign of the dividend
        def one(q):
            t = I.binop('mod', bm.b_abs(I, [args[0]], {}),
                        bm.b_abs(I, [q], {}))
            return I.ite(I.truth(I.compare('lt', args[0], 0.0)),
                         I.unary(ast.USub, t), t)
        return I.lift(args[1], one)
    raise Unsupported('function %s of a symbolic real' % name)


def ufunc1(name):
    def f(I, args, kwargs):
        v = args[0]
        fn = lambda x: math_call(I, name, [x], True)
        if isinstance(v, (SArray, SList)):
            return elementwise(I, fn, v)
        return fn(v)
    return f


def ufunc2(fn):
    def f(I, args, kwargs):
        g = lambda x, y: fn(I, x, y)
        if any(isinstance(a, (SArray, SList)) for a in args[:2]):
            return zipwith(I, g, args[:2])
        return g(args[0], args[1])
    return f


def np_square(I, args, kwargs):
    f = scalar_op(I, 'mul')
    if isinstance(args[0], (SArray, SList)):
        return elementwise(I, lambda x: f(x, x), args[0])
    return f(args[0], args[0])


def np_sign(I, args, kwargs):
    def one(x):
        if type(x) is Union:
            return I.lift(x, one)
        if type(x) is SNum:
            p = I.aig.atom(x.e > 0)
            n = I.aig.atom(x.e < 0)
            return I.mkunion([(p, 1.0), (n, -1.0),
                              (I.aig.AND(p ^ 1, n ^ 1), 0.0)])
        return bm.raise_native(I, np.sign(x))
    if isinstance(args[0], (SArray, SList)):
        return elementwise(I, one, args[0])
    return one(args[0])


def np_heaviside(I, x, y):
    def one(x):
        if type(x) is SNum:
            p = I.aig.atom(x.e > 0)
            n = I.aig.atom(x.e < 0)
            return I.mkunion([(p, 1.0), (n, 0.0),
                              (I.aig.AND(p ^ 1, n ^ 1), y)])
        return 1.0 if x > 0 else 0.0 if x < 0 else y
    return I.lift(x, one)


def np_abs(I, args, kwargs):
    return bm.b_abs(I, [toarray(I, args[0]) if isinstance(args[0], SList)
                        else args[0]], {})


def np_logical(op):
    def fn(I, x, y):
        return I.mkbool({'and': I.aig.AND, 'or': I.aig.OR,
                         'xor': I.aig.XOR}[op](I.truth(x), I.truth(y)))
    return ufunc2(fn)


def np_lnot(I, args, kwargs):
    f = lambda x: I.mkbool(I.truth(x) ^ 1)
    return elementwise(I, f, args[0], 'b') if isinstance(
        args[0], (SArray, SList)) else f(args[0])


class ErrState(bm.NullCtx):
    pass


def np_errstate(I, args, kwargs):
    return Intrinsic('errstate', lambda I, a, k: a[0])


DT = {}
for n, k in (('float64', 'f'), ('float_', 'f'), ('double', 'f'),
             ('float32', 'f'), ('float16', 'f'), ('int64', 'i'),
             ('int32', 'i'), ('int8', 'i'), ('int16', 'i'), ('uint8', 'i'),
             ('int_', 'i'), ('intp', 'i'), ('bool_', 'b'),
             ('object_', 'O'), ('floating', 'f'), ('integer', 'i'),
             ('number', 'f')):
    DT[n] = DType(k, n, n == 'float32')


def same_dtype(I, a, b):
    try:
        return dtype_kind(I, a)[0] == dtype_kind(I, b)[0]
    except Unsupported:
        return False


def np_dtype(I, args, kwargs):
    k, f32 = dtype_kind(I, args[0] if args else kwargs['dtype'])
    return DT['float32'] if f32 else {
        'b': DT['bool_'], 'i': DT['int64'], 'f': DT['float64'],
        'O': DT['object_'], None: DT['float64']}[k]


def dt_call(I, d, args):
    return cast(I, args[0], d.kind, d.f32) if not isinstance(
        args[0], (SArray, SList)) else copy(I, toarray(I, args[0]), d.kind)


DType.__call__ = lambda self, *a: None


def install(I):
    I.apps = {}
    I.monos = {}
    I.keep = []
    I.fskey = lambda fn: str(fn) if isinstance(fn, str) else id(fn)
    ns = {'ndarray': NDARRAY, 'pi': math.pi, 'e': math.e, 'inf': math.inf,
          'nan': math.nan, 'PINF': math.inf, 'NINF': -math.inf,
          'Inf': math.inf, 'newaxis': None, 'euler_gamma': np.euler_gamma}
    for n, d in DT.items():
        ns[n] = d
        I.models[d] = (lambda d: lambda I, a, k: dt_call(I, d, a))(d)

    def reg(name, f):
        ns[name] = Intrinsic(name, f)
    reg('array', np_array)
    for n in ('asarray', 'asanyarray', 'ascontiguousarray'):
        reg(n, np_asarray)
    reg('dtype', np_dtype)
    reg('zeros', np_full(0))
    reg('ones', np_full(1))
    reg('empty', np_full('empty'))
    reg('full', np_full(None))
    reg('zeros_like', np_like(0))
    reg('ones_like', np_like(1))
    reg('empty_like', np_like('empty'))
    reg('full_like', np_like(None))
    reg('arange', np_arange)
    reg('linspace', np_linspace)
    reg('where', np_where)
    reg('nonzero', np_nonzero)
    reg('flatnonzero', lambda I, a, k: bm.getitem(I, np_nonzero(
        I, [method(I, toarray(I, a[0]), 'ravel', [], {})], {}), 0))
    for n, r in (('sum', 'sum'), ('min', 'min'), ('max', 'max'),
                 ('amin', 'min'), ('amax', 'max'), ('prod', 'prod'),
                 ('any', 'any'), ('all', 'all'), ('mean', 'mean'),
                 ('argmin', 'argmin'), ('argmax', 'argmax'),
                 ('count_nonzero', 'count_nonzero')):
        reg(n, reduction(r))
    for n, f in (('unique', np_unique), ('argsort', np_argsort),
                 ('sort', np_sort), ('lexsort', np_lexsort),
                 ('flip', np_flip), ('fliplr', np_fliplr),
                 ('outer', np_outer), ('dot', np_dot), ('matmul', np_dot),
                 ('inner', np_dot), ('vdot', np_dot),
                 ('concatenate', np_concat), ('stack', np_stack),
                 ('append', np_append), ('insert', np_insert),
                 ('eye', np_eye), ('identity', np_eye), ('size', np_size),
                 ('shape', np_shape), ('array_equal', np_array_equal),
                 ('isclose', np_isclose), ('allclose', np_allclose),
                 ('diff', np_diff), ('cumsum', np_cumsum), ('take', np_take),
                 ('clip', np_clip), ('savetxt', np_savetxt),
                 ('genfromtxt', np_genfromtxt), ('loadtxt', np_genfromtxt),
                 ('square', np_square), ('sign', np_sign), ('abs', np_abs),
                 ('absolute', np_abs), ('fabs', np_abs),
                 ('errstate', np_errstate), ('logical_not', np_lnot),
                 ('copy', lambda I, a, k: copy(I, toarray(I, a[0]))),
                 ('ndim', lambda I, a, k: toarray(I, a[0]).a.ndim),
                 ('negative', lambda I, a, k: I.unary(ast.USub, a[0]))):
        reg(n, f)
    reg('vstack', np_hv(np.vstack))
    reg('hstack', np_hv(np.hstack))
    reg('column_stack', np_hv(np.column_stack))
    reg('row_stack', np_hv(np.vstack))
    for n in ('transpose', 'reshape', 'ravel', 'squeeze', 'tile', 'repeat',
              'roll', 'flipud', 'rot90', 'diag', 'diagonal', 'atleast_1d',
              'atleast_2d', 'expand_dims', 'moveaxis', 'swapaxes',
              'broadcast_to', 'delete'):
        reg(n, np_native(n))
    reg('triu', np_tri('triu'))
    reg('tril', np_tri('tril'))
    for n in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'tanh', 'sinh',
              'cosh', 'arctanh', 'arctan', 'arcsin', 'arccos', 'arccosh',
              'arcsinh', 'floor', 'ceil', 'trunc', 'isnan', 'isinf',
              'isfinite', 'log2', 'log10', 'degrees', 'radians', 'cbrt',
              'rint', 'log1p', 'expm1'):
        reg(n, ufunc1(n))
    for n in ('copysign', 'arctan2', 'hypot', 'fmod'):
        reg(n, ufunc2((lambda n: lambda I, x, y: math_call(
            I, n, [x, y], True))(n)))
    reg('hypot', ufunc2(lambda I, x, y: math_call(I, 'sqrt', [I.binop(
        'add', I.binop('mul', x, x), I.binop('mul', y, y))], True)))
    reg('power', ufunc2(power))
    reg('float_power', ufunc2(power))
    for n, o in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'),
                 ('divide', 'truediv'), ('true_divide', 'truediv'),
                 ('mod', 'mod'), ('remainder', 'mod'),
                 ('floor_divide', 'floordiv')):
        reg(n, ufunc2((lambda o: lambda I, x, y: scalar_op(I, o)(x, y))(o)))
    reg('maximum', ufunc2(lambda I, x, y: bm.minmax(I, [x, y], {}, 'max')))
    reg('minimum', ufunc2(lambda I, x, y: bm.minmax(I, [x, y], {}, 'min')))
    reg('heaviside', ufunc2(np_heaviside))
    for n in ('equal', 'not_equal', 'less', 'less_equal', 'greater',
              'greater_equal'):
        o = {'equal': 'eq', 'not_equal': 'ne', 'less': 'lt',
             'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge'}[n]
        reg(n, ufunc2((lambda o: lambda I, x, y: I.compare(o, x, y))(o)))
    for o in ('and', 'or', 'xor'):
        reg('logical_' + o, np_logical(o))
        reg('bitwise_' + o, ufunc2((lambda o: lambda I, x, y: scalar_op(
            I, o)(x, y))(o)))
    I.modproxy['numpy'] = bm.NMod('numpy', ns)
    I.modproxy['numpy.linalg'] = bm.NMod('numpy.linalg', {
        'norm': Intrinsic('norm', np_linalg_norm)})
    I.paths['numpy.random'] = os.path.join(os.path.dirname(
        os.path.abspath(__file__)), 'prelude', 'np_random.py')
    I.paths['matplotlib.patches'] = os.path.join(os.path.dirname(
        os.path.abspath(__file__)), 'prelude', 'mpl_patches.py')
    I.modproxy['numpy.typing'] = bm.NMod('numpy.typing', {}, stub=True)
    ns['linalg'] = I.modproxy['numpy.linalg']
