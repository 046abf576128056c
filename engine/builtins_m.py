"""Models of Python builtins, containers and small standard modules."""
import ast
import builtins as _b
import collections
import collections.abc
import fractions
import functools
import importlib
import inspect
import itertools
import math
import numbers
import operator
import os
import types
import typing
from fractions import Fraction
import numpy as _np
import z3
from core import *

NATIVE_OK = {'math', 'itertools', 'functools', 'operator', 'collections',
             'collections.abc', 'typing', 'numbers', 'fractions', 'abc',
             'string', 'enum', 'contextlib', 'decimal', 're'}


class SSlice:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def concrete(self):
        return all(x is None or type(x) is int
                   for x in (self.start, self.stop, self.step))

    def native(self):
        return slice(self.start, self.stop, self.step)


class TupleKey:
    __slots__ = ('key', 'val', 'h')

    def __init__(self, key, val):
        self.key, self.val = key, val
        self.h = hash(key)

    def __eq__(self, o):
        return isinstance(o, TupleKey) and self.key == o.key

    def __hash__(self):
        return self.h


class CachedProp:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def get(self, I, o):
        v = I.call(self.f, [o], {})
        I.setobj(o, self.name, v)
        return v


class NMod:
    """native module seen through models"""
    def __init__(self, name, ns, real=None, stub=False):
        self.name, self.ns, self.real, self.stub = name, ns, real, stub

    def __repr__(self):
        return '<module %s>' % self.name


class Stub:
    """value of a module that the checks do not look into"""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<stub %s>' % self.path


class Poison:
    """something of a module without a model: only its name may be used"""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<%s>' % self.path


class Suppress:
    """contextlib.suppress"""

    def __init__(self, classes):
        self.classes = classes


class FieldSpec:
    """dataclasses.field"""

    def __init__(self, kw):
        self.kw = kw


RECORD_M = {'__iter__': 'iterate', '__len__': 'length',
            '__getitem__': 'getitem', '__contains__': 'contains',
            '__add__': 'add', '_replace': 'replace', '_asdict': 'asdict'}


def record_class(I, c, named):
    """turns a class with annotated fields into a record"""
    m = I.load('engine.records')
    fields, defaults, factories = [], {}, {}
    for b in reversed(c.mro):
        if b.rec is not None:
            fields += [n for n in b.rec[0] if n not in fields]
            defaults.update(b.rec[1])
            factories.update(b.rec[2])
            continue
        for n in (b.ann if b is c else ()):
            if n not in fields:
                fields.append(n)
            cell = b.ns.get(n)
            if cell is None or cell.v is UNSET:
                continue
            v = cell.v
            if isinstance(v, FieldSpec):
                if not set(v.kw) <= {'default', 'default_factory', 'repr',
                                     'compare', 'hash'}:
                    raise Unsupported('dataclass field options')
                if 'default_factory' in v.kw:
                    factories[n] = v.kw['default_factory']
                if 'default' in v.kw:
                    defaults[n] = v.kw['default']
                del b.ns[n]
            else:
                defaults[n] = v
                if named:
                    del b.ns[n]

    c.rec = fields, defaults, factories

    def sd(d):
        r = SDict(I.pc)
        for k, v in d.items():
            I.dict_set(r, k, v)
        return r
    put = {'_fields': I.mktuple(list(fields)), '_field_defaults': sd(defaults),
           '_field_factories': sd(factories), '__init__': m.ns['init'].v,
           '__eq__': m.ns['equal'].v}
    if named:
        put.update((k, m.ns[v].v) for k, v in RECORD_M.items())
    for k, v in put.items():
        if k not in c.ns:
            c.ns[k] = Cell(v)


def c_namedtuple(I, args, kwargs):
    name, names = args[0], args[1] if len(args) > 1 else kwargs['field_names']
    names = lower(I, names)
    if isinstance(names, str):
        names = names.replace(',', ' ').split()
    d = kwargs.get('defaults')
    d = [] if d is None else [x for g, x in I.elements(d)]
    c = IClass(name, [], I.load('engine.records'))
    c.ann = list(names)
    for n, v in zip(names[len(names) - len(d):], d):
        c.ns[n] = Cell(v)
    record_class(I, c, True)
    return c


def d_dataclass(I, args, kwargs):
    if args:
        record_class(I, args[0], False)
        return args[0]
    if any(kwargs.get(k) for k in ('order', 'kw_only', 'slots')):
        raise Unsupported('dataclass options')
    return Intrinsic('dataclass', d_dataclass)


class NullCtx:
    def __init__(self, value=None):
        self.value = value


class GenContext:
    """a call of a contextlib.contextmanager function"""

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class NotConcrete(Unsupported):
    pass


# ----------------------------------------------------------------------
# lowering / raising
# ----------------------------------------------------------------------
def lower(I, v):
    t = type(v)
    if isinstance(v, SCAL):
        return v
    if t is SBool:
        l = I.simp(I.pc, v.lit)
        if l <= 1:
            return bool(l)
        raise NotConcrete
    if t is SList:
        if any(I.simp(I.pc, g) > 1 for g, x in v.slots):
            raise NotConcrete
        xs = [lower(I, x) for g, x in v.slots if I.simp(I.pc, g) == 1]
        return tuple(xs) if v.kind == 'tuple' else xs
    if t is SSet:
        if any(g > 1 for g in v.m.values()):
            raise NotConcrete
        s = {lower(I, I.unkey(k)) for k, g in v.m.items() if g}
        return frozenset(s) if v.frozen else s
    if t is SDict:
        if any(e[0] > 1 for e in v.m.values()):
            raise NotConcrete
        return {lower(I, I.unkey(k)): lower(I, e[1])
                for k, e in v.m.items() if e[0]}
    if t is SSlice:
        if v.concrete():
            return v.native()
        raise NotConcrete
    if t is SIter and v.lazy is not None:
        return raw_lazy(v)
    if t in (SNum, Union, SObj, IFunction, IClass, BoundMethod, Opaque,
             SIter, Intrinsic, BuiltinMethod, Stub):
        raise NotConcrete
    if isinstance(v, I.nm.SArray):
        raise NotConcrete
    return v


SCAL = (int, float, str, bool, type(None), Fraction, bytes, complex)


def raise_native(I, x):
    if isinstance(x, (bool, str, type(None))) or type(x) in (int, float):
        return x
    if isinstance(x, _np.bool_):
        return bool(x)
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, _np.floating):
        return float(x)
    if isinstance(x, _np.ndarray):
        return I.nm.from_native(I, x)
    if type(x) is tuple:
        return I.mktuple([raise_native(I, y) for y in x])
    if type(x) is list:
        return I.mklist([raise_native(I, y) for y in x])
    if isinstance(x, (set, frozenset)):
        s = SSet(I.pc, frozen=isinstance(x, frozenset))
        for y in x:
            I.set_add(s, raise_native(I, y))
        return s
    if type(x) is dict:
        d = SDict(I.pc)
        for k, y in x.items():
            I.dict_set(d, raise_native(I, k), raise_native(I, y))
        return d
    if isinstance(x, (collections.abc.Iterator,)) and not \
            isinstance(x, SIter):
        return lazy_iter(I, x)
    return x


def lazy_iter(I, x):
    return SIter(lazy=x, birth=I.pc)


class Spent:
    """an iterator of which an unknown number of elements were taken"""

    def __next__(self):
        raise Unsupported('native iterator used up on some paths only')

    def __iter__(self):
        return self


def raw_lazy(it):
    if it.lst is not None and any(g for g, x in it.lst.slots):
        raise Unsupported('native iterator used up on some paths only')
    return it.lazy


def throw_native(I, e):
    I.throw(ExcVal(type(e), tuple(e.args)))


def call_native(I, f, args, kwargs):
    m = None
    try:
        m = I.models.get(f)
    except TypeError:
        pass
    if m is not None:
        return m(I, args, kwargs)
    if isinstance(f, Stub):
        return Stub(f.path + '()')
    if isinstance(f, types.BuiltinMethodType) and \
            isinstance(f.__self__, str) and f.__name__ == 'join':
        return str_join(I, f.__self__, args[0])
    mod = getattr(f, '__module__', None)
    if mod == 'typing' or mod == 'collections.abc':
        return args[0] if args else Stub('typing')
    if any(isinstance(a, Opaque) for a in args):
        return Opaque('native')
    for i, a in enumerate(args):
        if type(a) is Union:
            return I.lift(a, lambda x: I.call(
                f, args[:i] + [x] + args[i + 1:], kwargs))
        if type(a) is SBool:
            return I.lift(I.mkunion([(a.lit, True), (a.lit ^ 1, False)])
                          if False else
                          Union([(a.lit, 1), (a.lit ^ 1, 0)]),
                          lambda x: I.call(f, args[:i] + [bool(x)] +
                                           args[i + 1:], kwargs))
    for k, a in kwargs.items():
        if type(a) is Union:
            return I.lift(a, lambda x: I.call(f, args, {**kwargs, k: x}))
    if not native_allowed(f):
        raise Unsupported('call of native %r' % (f,))
    try:
        la = [lower(I, a) for a in args]
        lk = {k: lower(I, a) for k, a in kwargs.items()}
    except NotConcrete:
        raise Unsupported('native %s with symbolic arguments' %
                          getattr(f, '__name__', f))
    try:
        return raise_native(I, f(*la, **lk))
    except Exception as e:
        throw_native(I, e)


def native_allowed(f):
    mod = getattr(f, '__module__', None)
    s = getattr(f, '__self__', None)
    if s is not None and not isinstance(s, types.ModuleType):
        return isinstance(s, SCAL + (range, type, itertools.count))
    return mod is None or mod.split('.')[0] in (
        'math', '_operator', 'operator', 'itertools', 'builtins',
        'fractions', 'collections', 'functools', '_functools', 're',
        'string', 'decimal', 'cmath', 'colorsys')


# ----------------------------------------------------------------------
# strings
# ----------------------------------------------------------------------
def to_str(I, v, how='str'):
    """str()/repr() of a value: str, Union of str or Opaque"""
    t = type(v)
    if t is Union:
        return I.lift(v, lambda x: to_str(I, x, how))
    if isinstance(v, SCAL):
        return str(v) if how == 'str' else repr(v)
    if t is SBool:
        return I.lift(Union([(v.lit, 1), (v.lit ^ 1, 0)]),
                      lambda x: str(bool(x)))
    if t is SObj:
        if how == 'str' and v.cls.lookup('__str__') is not UNSET:
            return I.callmethod(v, '__str__', [])
        if v.cls.lookup('__repr__') is not UNSET:
            return I.callmethod(v, '__repr__', [])
        return Opaque('object')
    if t is SList and v.kind in ('list', 'tuple') and v.dense():
        parts = []
        for i, (g, x) in enumerate(v.slots):
            if i:
                parts.append(', ')
            parts.append(to_str(I, x, 'repr'))
        if v.kind == 'tuple':
            return concat_strs(I, ['('] + parts + [
                ',)' if len(v.slots) == 1 else ')'])
        return concat_strs(I, ['['] + parts + [']'])
    if t is SSet:
        for k in v.m:
            x = I.unkey(k)
            if isinstance(x, SObj):
                to_str(I, x, 'repr')
        return Opaque('set')
    if t is SList:
        for g, x in v.slots:
            to_str(I, x, 'repr')
        return Opaque('list')
    if t is IClass:
        return "<class '%s'>" % v.name
    if t is ExcVal:
        if len(v.args) == 1:
            return to_str(I, v.args[0], how)
        return Opaque('exc')
    return Opaque(str(t))


def format_value(I, v, conv, spec):
    if conv == 114:
        v = to_str(I, v, 'repr')
    elif conv in (115, 97):
        v = to_str(I, v, 'str')
    if type(spec) is Opaque:
        return spec

    def one(x):
        if type(x) is SNum or type(x) is Opaque:
            return Opaque('num')
        if isinstance(x, SCAL):
            if type(spec) is Union:
                return I.lift(spec, lambda s: fmt(x, s))
            return fmt(x, spec)
        if type(x) is SBool:
            return I.lift(Union([(x.lit, 1), (x.lit ^ 1, 0)]),
                          lambda y: fmt(bool(y), spec))
        return to_str(I, x)

    def fmt(x, s):
        try:
            return format(x, s)
        except Exception as e:
            throw_native(I, e)
    return I.lift(v, one)


def concat_strs(I, parts):
    acc = ''
    for p in parts:
        if type(acc) is Opaque or type(p) is Opaque:
            acc = Opaque('str')
            continue
        if type(p) is Union and any(type(x) is Opaque for g, x in p.alts):
            acc = Opaque('str')
            continue
        if type(acc) is str and type(p) is str:
            acc = acc + p
        else:
            acc = I.lift2(acc, p, lambda x, y: x + y)
    return acc


def percent_format(I, a, b):
    try:
        return a % lower(I, b)
    except NotConcrete:
        return Opaque('percent')
    except Exception as e:
        throw_native(I, e)


def str_join(I, sep, it):
    slots = I.elements(it)
    for g, x in slots:
        for h, y in I.alts(x):
            if not isinstance(y, (str, Opaque)):
                I.throw(ExcVal(TypeError, ('sequence item: expected str',)))
    acc, some = '', 0
    for g, x in slots:
        if type(x) is Opaque or type(acc) is Opaque or (
                type(x) is Union and any(type(y) is Opaque
                                         for h, y in x.alts)):
            acc = Opaque('join')
            continue
        l = I.simp(I.pc, g)
        if l == 0:
            continue
        if some == 1:
            nxt = concat_strs(I, [acc, sep, x])
        elif some == 0:
            nxt = x
        else:
            nxt = I.ite(some, concat_strs(I, [acc, sep, x]), x)
        acc = I.ite(l, nxt, acc)
        some = I.aig.OR(some, l)
    return acc


# ----------------------------------------------------------------------
# attribute access on modelled values
# ----------------------------------------------------------------------
SET_M = {'add', 'discard', 'remove', 'pop', 'clear', 'update',
         'difference_update', 'intersection_update',
         'symmetric_difference_update', 'union', 'intersection',
         'difference', 'symmetric_difference', 'issubset', 'issuperset',
         'isdisjoint', 'copy', '__contains__', '__len__', '__iter__',
         '__or__', '__and__', '__sub__', '__xor__', '__le__', '__lt__',
         '__ge__', '__gt__', '__eq__', '__ne__'}
LIST_M = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count',
          'reverse', 'sort', 'copy', 'clear', 'appendleft', 'popleft',
          'extendleft', 'rotate', '__len__', '__contains__', '__getitem__',
          '__iter__', '__setitem__', '__eq__', '__add__'}
DICT_M = {'get', 'items', 'keys', 'values', 'pop', 'setdefault', 'update',
          'copy', 'clear', '__contains__', '__getitem__', '__setitem__',
          '__len__', '__iter__', 'popitem'}


# modules whose models are completed by interpreted functions
EXTRA = {'numpy': 'engine.np_extra', 'itertools': 'engine.it_extra',
         'functools': 'engine.it_extra'}
UFUNCS = {'add', 'subtract', 'multiply', 'logical_and', 'logical_or',
          'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
          'maximum', 'minimum', 'equal', 'not_equal', 'less', 'less_equal',
          'greater', 'greater_equal', 'divide', 'true_divide', 'power',
          'hypot'}
DUNDER = {}         # special methods of builtin types, by name


def missing_attr(I, o, name, real):
    """an attribute that the model of a builtin type does not have"""
    if hasattr(real, name):
        f = DUNDER.get(name)
        if f is None or name in ('__eq__', '__ne__') and real is object:
            raise Unsupported('%s.%s' % (real.__name__, name))
        return Intrinsic(name, lambda I, a, k: f(I, [o] + list(a), k))
    I.throw(ExcVal(AttributeError, (
        '%r object has no attribute %r' % (real.__name__, name),)))


def getattr_other(I, o, name):
    t = type(o)
    if t is SSet and name in SET_M:
        return BuiltinMethod(name, o)
    if t is SList and name in LIST_M:
        return BuiltinMethod(name, o)
    if t is SList and hasattr(o, 'fields') and name in o.fields:
        return o.slots[o.fields.index(name)][1]
    if t is SDict and name in DICT_M:
        return BuiltinMethod(name, o)
    if t is SIter and name in ('__next__', '__iter__'):
        return BuiltinMethod(name, o)
    if isinstance(o, I.nm.SArray):
        return I.nm.getattr(I, o, name)
    if t is Opaque:
        return BuiltinMethod(name, o)
    if t is NMod:
        if name in o.ns:
            return o.ns[name]
        sub = I.modproxy.get(o.name + '.' + name)
        if sub is not None:
            return sub
        if o.name + '.' + name in I.paths:
            return I.import_module(o.name + '.' + name)
        if o.stub:
            return Stub(o.name + '.' + name)
        if o.real is not None and hasattr(o.real, name):
            if o.name not in NATIVE_OK:
                return Poison(o.name + '.' + name)
            v = getattr(o.real, name)
            if isinstance(v, types.ModuleType):
                return native_module(I, v.__name__)
            return v
        if o.name in EXTRA:
            m = I.load(EXTRA[o.name])
            if name in m.ns:
                return m.ns[name].v
        try:
            real = importlib.import_module(o.name)
        except Exception:
            raise Unsupported('%s.%s' % (o.name, name))
        if hasattr(real, name):
            raise Unsupported('%s.%s' % (o.name, name))
        I.throw(ExcVal(AttributeError, (
            'module %r has no attribute %r' % (o.name, name),)))
    if t is Stub:
        return Stub(o.path + '.' + name)
    if t is Poison:
        raise Unsupported('%s.%s' % (o.path, name))
    if t is BoundMethod:
        if name == '__self__':
            return o.self
        if name == '__func__':
            return o.f
        return I.getattr(o.f, name)
    if t is IFunction:
        c = o.attrs.get(name)
        if c is not None and c.v is not UNSET:
            return c.v
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            return ast.get_docstring(o.node) if not isinstance(
                o.node, ast.Lambda) else None
        if name == '__module__':
            return o.module.name
        if name == '__dict__':
            return SDict(I.root)
        I.throw(ExcVal(AttributeError, (name,)))
    if t is Intrinsic:
        if name == '__name__':
            return o.name
        if name == 'from_iterable':
            return Intrinsic('chain.from_iterable', it_chain_from)
        if name in ('cache_clear', 'cache_info'):
            return getattr(o, 'clear', None)
        # attributes of builtin types that are modelled as intrinsics
        real = getattr(_b, o.name, None)
        if real is not None and isinstance(real, type):
            kind = {'set': SET_M, 'list': LIST_M, 'dict': DICT_M,
                    'frozenset': SET_M, 'tuple': LIST_M}.get(o.name)
            if kind and name in kind:
                return Intrinsic(name, lambda I, a, k: call_method(
                    I, a[0], name, a[1:], k))
            if name == 'fromkeys':
                def fromkeys(I, a, k):
                    d = SDict(I.pc)
                    for g, x in I.elements(a[0]):
                        dict_set_g(I, d, x, a[1] if len(a) > 1 else None, g)
                    return d
                return Intrinsic(name, fromkeys)
            if name == '__init__' and o.name == 'object':
                return object_method(I, name)
            if name == '__setattr__' and o.name == 'object':
                return object_method(I, name)
            if hasattr(real, name):
                return getattr(real, name)
        if o.name in UFUNCS and name in ('reduce', 'outer', 'accumulate'):
            f = I.load(EXTRA['numpy']).ns['ufunc_' + name].v
            return Intrinsic(name, lambda I, a, k: I.call(
                f, [o] + list(a), k))
        if o.name == 'OrderedDict' and name == 'fromkeys':
            return I.getattr(I.builtins['dict'], name)
        raise Unsupported('%s.%s' % (o.name, name))
    if t is IProperty:
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
        if name in ('setter', 'getter', 'deleter'):
            def mk(I, a, k):
                p = IProperty(o.fget, o.fset, o.fdel)
                setattr(p, {'setter': 'fset', 'getter': 'fget',
                            'deleter': 'fdel'}[name], a[0])
                return p
            return Intrinsic(name, mk)
    if t is ExcVal:
        if o.obj is not None and name in o.obj.attrs:
            return I.objattr(o.obj, name)
        if name == 'args':
            return I.mktuple(list(o.args))
        if name == '__class__':
            return o.cls
        if name in ('__traceback__', '__cause__', '__context__'):
            return None
        if name == 'with_traceback':
            return Intrinsic(name, lambda I, a, k: o)
        I.throw(ExcVal(AttributeError, (name,)))
    if t is SNum:
        if name == 'real':
            return o
        if name == 'is_integer':
            return Intrinsic(name, lambda I, a, k: I.mkbool(
                I.aig.atom(z3.IsInt(o.e))))
        if name in ('item', 'conjugate'):
            return Intrinsic(name, lambda I, a, k: o)
        return missing_attr(I, o, name, float)
    if t is SBool:
        if name == 'item':
            return Intrinsic(name, lambda I, a, k: o)
        return missing_attr(I, o, name, bool)
    if name == '__class__':
        return type_of(I, o)
    if t in (int, float, bool) and name == 'item':
        return Intrinsic(name, lambda I, a, k: o)
    if t in (SSet, SList, SDict):
        return missing_attr(I, o, name, dict if t is SDict else {
            SSet: frozenset if getattr(o, 'frozen', 0) else set,
            SList: {'tuple': tuple, 'deque': collections.deque}.get(
                getattr(o, 'kind', ''), list)}[t])
    if t in (int, float, bool) and name in DUNDER:
        return missing_attr(I, o, name, t)
    try:
        v = getattr(o, name)
    except AttributeError as e:
        throw_native(I, e)
    if isinstance(v, (int, float, str, bool, tuple)) and type(v) is not \
            tuple:
        return v
    return v


def setattr_other(I, o, name, v):
    if type(o) is ExcVal and o.obj is not None:
        I.setobj(o.obj, name, v)
        return True
    if type(o) is Stub:
        return True
    if type(o) is NMod:
        if name in o.ns or o.stub:
            o.ns[name] = v
            return True
    if isinstance(o, I.nm.SArray) and name == 'shape':
        raise Unsupported('array shape assignment')
    return False


def obj_dict(I, o):
    d = SDict(I.pc, None, o)
    for k, c in o.attrs.items():
        bad, v = I.unset_split(c.v)
        if bad != 1:
            d.m[k] = [bad ^ 1, v]
    return d


def object_method(I, name):
    if name in ('__init__', '__init_subclass__', '__del__'):
        return Intrinsic(name, lambda I, a, k: None)
    if name == '__setattr__':
        return Intrinsic(name, lambda I, a, k: I.setobj(*a))
    if name == '__delattr__':
        return Intrinsic(name, lambda I, a, k: I.delattr(*a))
    if name == '__getattribute__':
        return Intrinsic(name, lambda I, a, k: I.getattr(*a))
    if name in ('__repr__', '__str__'):
        return Intrinsic(name, lambda I, a, k: Opaque('object'))
    if name == '__hash__':
        return Intrinsic(name, lambda I, a, k: a[0].oid)
    if name == '__eq__':
        return Intrinsic(name, lambda I, a, k: True if a[0] is a[1]
                         else NotImplemented)
    if name == '__ne__':
        return Intrinsic(name, lambda I, a, k: False if a[0] is a[1]
                         else NotImplemented)
    return None


def ignorable_base(b):
    if isinstance(b, (Stub,)):
        return True
    mod = getattr(b, '__module__', '')
    return mod in ('typing', 'abc', 'collections.abc') or b is object


def cl_contextmanager(I, args, kwargs):
    f = args[0]

    def make(I, a, k):
        g, a = f, list(a)
        if isinstance(g, BoundMethod):
            g, a = g.f, [g.self] + a
        if not isinstance(g, IFunction) or not g.info.isgen:
            raise Unsupported('contextmanager of %r' % (g,))
        return GenContext(g, a, k)
    return Intrinsic(getattr(f, 'name', 'context'), make, 'method')


def is_keys(v):
    return type(v) is SList and v.kind == 'keys'


def null_context(cm):
    return isinstance(cm, (NullCtx, Stub))


# ----------------------------------------------------------------------
# sets
# ----------------------------------------------------------------------
def as_set(I, v):
    """any iterable as a fresh-viewed SSet (not to be mutated)"""
    v = I.coalesce(v)
    if type(v) is SSet:
        return v
    if type(v) is Union:
        v = I.pruned(v)
        if type(v) is SSet:
            return v
    s = SSet(I.pc)
    for g, x in I.elements(v):
        I.set_add(s, x, g)
    return s


def set_compare(I, op, a, b):
    aig = I.aig
    keys = list(dict.fromkeys(list(a.m) + list(b.m)))
    A = lambda k: a.m.get(k, 0)
    B = lambda k: b.m.get(k, 0)
    if op in ('eq', 'ne'):
        l = aig.ands([aig.IFF(A(k), B(k)) for k in keys])
        return l if op == 'eq' else l ^ 1
    if op in ('gt', 'ge'):
        return set_compare(I, {'gt': 'lt', 'ge': 'le'}[op], b, a)
    sub = aig.ands([aig.OR(A(k) ^ 1, B(k)) for k in keys])
    if op == 'le':
        return sub
    return aig.AND(sub, aig.ors([aig.AND(A(k) ^ 1, B(k)) for k in keys]))


def set_op(I, op, a, b):
    aig = I.aig
    r = SSet(I.pc, frozen=a.frozen)
    m = r.m
    if op == 'or':
        for k, g in a.m.items():
            m[k] = g
        for k, g in b.m.items():
            m[k] = aig.OR(m[k], g) if k in m else g
    elif op == 'and':
        bm = b.m
        for k, g in a.m.items():
            h = bm.get(k, 0)
            if h:
                l = aig.AND(g, h)
                if l:
                    m[k] = l
    elif op == 'sub':
        bm = b.m
        for k, g in a.m.items():
            l = aig.AND(g, bm.get(k, 0) ^ 1)
            if l:
                m[k] = l
    else:
        for k in dict.fromkeys(list(a.m) + list(b.m)):
            l = aig.XOR(a.m.get(k, 0), b.m.get(k, 0))
            if l:
                m[k] = l
    return r


def set_assign(I, s, new):
    """s := new (dict key -> literal) under the current pc"""
    aig = I.aig
    r = I.rel(I.pc, s.birth)
    if r == 1:
        new = dict(new)
        s.m.clear()
        s.m.update(new)
        return
    for k in list(dict.fromkeys(list(s.m) + list(new))):
        s.m[k] = aig.ITE(r, new.get(k, 0), s.m.get(k, 0))


def set_inplace(I, op, a, b):
    if b is a:
        b = SSet(I.pc, dict(b.m))
    if op == 'or':
        aig = I.aig
        r = I.rel(I.pc, a.birth)
        for k, g in b.m.items():
            l = aig.AND(g, r)
            if l:
                a.m[k] = aig.OR(a.m.get(k, 0), l)
        return
    if op == 'sub':
        aig = I.aig
        r = I.rel(I.pc, a.birth)
        for k, g in b.m.items():
            if k in a.m:
                a.m[k] = aig.AND(a.m[k], aig.AND(g, r) ^ 1)
        return
    set_assign(I, a, set_op(I, op, a, b).m)


def set_method(I, s, name, args, kwargs):
    aig = I.aig
    if name == 'add':
        I.set_add(s, args[0])
        return None
    if name in ('discard', 'remove'):
        v = args[0]
        if name == 'remove':
            l = I.contains(s, v)
            I.raise_if(l ^ 1, ExcVal(KeyError, (v,)))
        r = I.rel(I.pc, s.birth)
        for g, k in I.key_alts(v):
            if k in s.m:
                s.m[k] = aig.AND(s.m[k], aig.AND(g, r) ^ 1)
        return None
    if name == 'pop':
        el = I.compact(list(I.live_iter(s)))
        if not el:
            I.throw(ExcVal(KeyError, ('pop from an empty set',)))
        I.raise_if(el[0][0] ^ 1, ExcVal(KeyError, ('pop from empty set',)))
        v = el[0][1]
        set_method(I, s, 'discard', [v], {})
        return v
    if name == 'clear':
        set_assign(I, s, {})
        return None
    if name == 'update':
        for it in args:
            it = I.coalesce(it)
            if type(it) is SSet:
                set_inplace(I, 'or', s, it)
            else:
                for g, x in I.elements(it):
                    I.set_add(s, x, g)
        return None
    if name in ('difference_update', 'intersection_update',
                'symmetric_difference_update'):
        op = {'difference_update': 'sub', 'intersection_update': 'and',
              'symmetric_difference_update': 'xor'}[name]
        for it in args:
            set_inplace(I, op, s, as_set(I, it))
        return None
    if name in ('union', 'intersection', 'difference',
                'symmetric_difference'):
        op = {'union': 'or', 'intersection': 'and', 'difference': 'sub',
              'symmetric_difference': 'xor'}[name]
        r = SSet(I.pc, dict(s.m), s.frozen)
        for it in args:
            r = set_op(I, op, r, as_set(I, it))
        return r
    if name == 'issubset':
        return I.mkbool(set_compare(I, 'le', s, as_set(I, args[0])))
    if name == 'issuperset':
        return I.mkbool(set_compare(I, 'ge', s, as_set(I, args[0])))
    if name == 'isdisjoint':
        r = set_op(I, 'and', s, as_set(I, args[0]))
        return I.mkbool(aig.ors(list(r.m.values())) ^ 1)
    if name == 'copy':
        return SSet(I.pc, dict(s.m), s.frozen)
    return dunder(I, s, name, args)


DOPS = {'__or__': 'or', '__and__': 'and', '__sub__': 'sub', '__xor__': 'xor',
        '__add__': 'add'}
DCMP = {'__le__': 'le', '__lt__': 'lt', '__ge__': 'ge', '__gt__': 'gt',
        '__eq__': 'eq', '__ne__': 'ne'}


def dunder(I, s, name, args):
    if name == '__contains__':
        return I.mkbool(I.contains(s, args[0]))
    if name == '__len__':
        return b_len(I, [s], {})
    if name == '__iter__':
        return b_iter(I, [s], {})
    if name == '__getitem__':
        return getitem(I, s, args[0])
    if name == '__setitem__':
        return setitem(I, s, *args)
    if name in DOPS:
        return I.binop(DOPS[name], s, args[0])
    if name in DCMP:
        return I.compare(DCMP[name], s, args[0])
    raise Unsupported('method %s' % name)


# ----------------------------------------------------------------------
# lists
# ----------------------------------------------------------------------
def list_replace(I, l, slots):
    aig = I.aig
    r = I.rel(I.pc, l.birth)
    if r == 1:
        l.slots[:] = list(slots)
        return
    if len(slots) == len(l.slots) and all(
            a[0] == 1 and b[0] == 1 for a, b in zip(slots, l.slots)):
        l.slots[:] = [(1, I.ite(r, a[1], b[1]))
                      for a, b in zip(slots, l.slots)]
        return
    new = []
    for g, x in l.slots:
        h = aig.AND(g, r ^ 1)
        if h:
            new.append((h, x))
    for g, x in slots:
        h = aig.AND(g, r)
        if h:
            new.append((h, x))
    l.slots[:] = new


def list_extend(I, l, it):
    aig = I.aig
    els = I.elements(it)
    r = I.rel(I.pc, l.birth)
    for g, x in els:
        h = aig.AND(g, r)
        if h:
            l.slots.append((h, x))


def list_op(I, op, a, b):
    if op == 'add':
        b = I.coalesce(b)
        if type(b) is not SList:
            return NotImplemented
        if b.kind != a.kind:
            I.throw(ExcVal(TypeError, ('can only concatenate same kinds',)))
        return SList(list(a.slots) + list(b.slots), a.kind, I.pc)
    if op == 'mul':
        def one(n):
            if not isinstance(n, int):
                I.throw(ExcVal(TypeError, ("can't multiply sequence",)))
            return SList(list(a.slots) * n, a.kind, I.pc)
        if type(b) is SNum:
            raise Unsupported('list times symbolic real')
        return I.lift(I.boolint(b), one)
    return NotImplemented


def list_compare(I, op, a, b):
    aig = I.aig
    if a.kind != b.kind and op in ('eq', 'ne'):
        return op == 'ne'
    if op in ('eq', 'ne'):
        if a.dense() and b.dense():
            if len(a.slots) != len(b.slots):
                return op == 'ne'
            l = aig.ands([I.eq_lit(x[1], y[1])
                          for x, y in zip(a.slots, b.slots)])
        else:
            ca, cb = I.compact(a.slots), I.compact(b.slots)
            ls = []
            for i in range(max(len(ca), len(cb))):
                ga = ca[i][0] if i < len(ca) else 0
                gb = cb[i][0] if i < len(cb) else 0
                ls.append(aig.IFF(ga, gb))
                both = aig.AND(ga, gb)
                if both:
                    e = eq_under(I, both, ca[i][1], cb[i][1])
                    ls.append(aig.OR(both ^ 1, e))
            l = aig.ands(ls)
        return I.mkbool(l if op == 'eq' else l ^ 1)
    if op in ('gt', 'ge'):
        return list_compare(I, {'gt': 'lt', 'ge': 'le'}[op], b, a)
    ca, cb = I.compact(a.slots), I.compact(b.slots)
    res = 0 if op == 'lt' else 1
    n = max(len(ca), len(cb))
    for i in reversed(range(n)):
        ga = ca[i][0] if i < len(ca) else 0
        gb = cb[i][0] if i < len(cb) else 0
        both = aig.AND(ga, gb)
        r = aig.AND(ga ^ 1, gb)          # a ended first
        if op == 'le':
            r = aig.OR(r, aig.AND(ga ^ 1, gb ^ 1))
        if both:
            e = eq_under(I, both, ca[i][1], cb[i][1])
            lt = lt_under(I, both, ca[i][1], cb[i][1])
            r = aig.OR(r, aig.AND(both, aig.OR(lt, aig.AND(e, res))))
        res = r
    return I.mkbool(res)


def eq_under(I, g, x, y):
    """literal x == y, evaluated under g"""
    pc0, mark = I.pc, len(I.kills)
    p = I.extend(pc0, g)
    if p is None:
        return 0
    I.pc = p
    try:
        l = I.eq_lit(x, y)
    finally:
        I.pc = pc0
    return l


def lt_under(I, g, x, y):
    pc0 = I.pc
    p = I.extend(pc0, g)
    if p is None:
        return 0
    I.pc = p
    try:
        l = I.truth(I.compare('lt', x, y))
    finally:
        I.pc = pc0
    return l


def sort_slots(I, slots, key=None, reverse=False):
    """stable sort of guarded slots; returns guarded slots"""
    aig = I.aig
    slots = [(I.simp(I.pc, g), x) for g, x in slots]
    slots = [(g, x) for g, x in slots if g]
    ks = []
    for g, x in slots:
        if key is None:
            ks.append(x)
        else:
            pc0 = I.pc
            p = I.extend(pc0, g)
            if g == 1:
                ks.append(I.call(key, [x], {}))
            else:
                ks.append(I.branch(g, lambda: I.call(key, [x], {}),
                                   lambda: None))
                kk = ks[-1]
                if type(kk) is Union:
                    al = [(h, y) for h, y in kk.alts if y is not None]
                    ks[-1] = al[0][1] if len(al) == 1 else Union(al)
    low = []
    try:
        for k in ks:
            low.append(lower(I, k))
        idx = sorted(range(len(slots)), key=lambda i: low[i],
                     reverse=reverse)
        return [slots[i] for i in idx]
    except NotConcrete:
        pass
    except TypeError as e:
        throw_native(I, e)
    n = len(slots)
    # rank of slot i: number of present slots that come before it
    before = {}
    for i in range(n):
        for j in range(i + 1, n):
            both = aig.AND(slots[i][0], slots[j][0])
            if both == 0:
                before[j, i] = before[i, j] = 0
                continue
            if reverse:
                l = lt_under(I, both, ks[i], ks[j])
            else:
                l = lt_under(I, both, ks[j], ks[i])
            # l: j strictly before i; otherwise i before j (stable)
            before[j, i] = aig.AND(l, slots[j][0])
            before[i, j] = aig.AND(l ^ 1, slots[i][0])
    cols = [[] for _ in range(n)]
    for i in range(n):
        cnt = I.count([before[j, i] for j in range(n) if j != i])
        for p, c in enumerate(cnt):
            l = aig.AND(slots[i][0], c)
            if l:
                cols[p].append((l, slots[i][1]))
    out = []
    for c in cols:
        if c:
            g = aig.ors([l for l, x in c])
            out.append((g, I.mkunion(c)))
    return out


def list_method(I, l, name, args, kwargs):
    aig = I.aig
    if l.kind == 'tuple' and name not in ('index', 'count', '__len__',
                                          '__contains__', '__getitem__',
                                          '__iter__', '__eq__', '__add__'):
        I.throw(ExcVal(AttributeError, ("'tuple' object has no attribute "
                                        "%r" % name,)))
    if name == 'append':
        l.slots.append((I.rel(I.pc, l.birth), args[0]))
        return None
    if name == 'appendleft':
        l.slots.insert(0, (I.rel(I.pc, l.birth), args[0]))
        return None
    if name == 'extend':
        list_extend(I, l, args[0])
        return None
    if name == 'extendleft':
        for g, x in I.elements(args[0]):
            l.slots.insert(0, (aig.AND(g, I.rel(I.pc, l.birth)), x))
        return None
    if name == 'insert':
        def ins(i):
            r = I.rel(I.pc, l.birth)
            if i == 0:
                l.slots.insert(0, (r, args[1]))
                return None
            if l.dense():
                n = len(l.slots)
                if i < 0:
                    i = max(0, n + i)
                l.slots.insert(min(i, n), (r, args[1]))
                return None
            el = I.compact(l.slots)
            if i < 0:
                raise Unsupported('insert at a negative index')
            # element goes before position i, or at the end
            new = el[:i] + [(1, args[1])] + el[i:]
            list_replace(I, l, new)
            return None
        return I.lift(args[0], ins)
    if name in ('pop', 'popleft'):
        i = 0 if name == 'popleft' else (args[0] if args else -1)

        def pop(i):
            if l.dense() and I.rel(I.pc, l.birth) == 1:
                try:
                    return l.slots.pop(i)[1]
                except IndexError as e:
                    throw_native(I, e)
            v = getitem(I, l, i)
            delitem(I, l, i)
            return v
        return I.lift(i, pop)
    if name in ('remove', 'index'):
        el = l.slots if l.dense() else I.compact(l.slots)
        found = 0
        alts, new = [], []
        hits = []
        for p, (g, x) in enumerate(el):
            if g == 0:
                continue
            e = aig.AND(g, eq_under(I, g, x, args[0]))
            first = aig.AND(e, found ^ 1)
            hits.append(first)
            found = aig.OR(found, e)
            if first:
                alts.append((first, p))
        I.raise_if(found ^ 1, ExcVal(ValueError, ('value not in list',)))
        if name == 'index':
            return I.mkunion(alts)
        list_replace(I, l, [(aig.AND(g, h ^ 1), x)
                            for (g, x), h in zip(el, hits)])
        return None
    if name == 'count':
        return I.count_val([aig.AND(g, eq_under(I, g, x, args[0]))
                            for g, x in l.slots])
    if name == 'reverse':
        list_replace(I, l, list(reversed(l.slots)))
        return None
    if name == 'sort':
        rev = bool(lower(I, kwargs.get('reverse', False)))
        list_replace(I, l, sort_slots(I, l.slots, kwargs.get('key'), rev))
        return None
    if name == 'copy':
        return SList(list(l.slots), l.kind, I.pc)
    if name == 'clear':
        list_replace(I, l, [])
        return None
    if name == 'rotate':
        n = lower(I, args[0]) if args else 1
        if not l.dense():
            raise Unsupported('rotate of a symbolic deque')
        d = collections.deque(l.slots)
        d.rotate(n)
        list_replace(I, l, list(d))
        return None
    return dunder(I, l, name, args)


# ----------------------------------------------------------------------
# dicts
# ----------------------------------------------------------------------
def dict_set_g(I, d, k, v, g):
    p = I.extend(I.pc, g)
    if p is None:
        return
    pc0, I.pc = I.pc, p
    try:
        I.dict_set(d, k, v)
    finally:
        I.pc = pc0


def dict_update(I, d, other):
    other = I.pruned(other)
    if type(other) is Union:
        I.lift(other, lambda x: dict_update(I, d, x))
        return
    if type(other) is SDict:
        for g, k, v in other.ordered():
            dict_set_g(I, d, I.unkey(k), v, g)
        return
    for g, kv in I.elements(other):
        k, v = I.unpack(kv, 2)
        dict_set_g(I, d, k, v, g)


def dict_copy(I, d):
    r = SDict(I.pc, d.factory)
    for k, (g, v) in d.m.items():
        r.m[k] = [g, v]
    return r


def dict_eq(I, a, b):
    aig = I.aig
    ls = []
    for k in dict.fromkeys(list(a.m) + list(b.m)):
        ga, va = a.m.get(k, (0, None))
        gb, vb = b.m.get(k, (0, None))
        ls.append(aig.IFF(ga, gb))
        both = aig.AND(ga, gb)
        if both:
            ls.append(aig.OR(both ^ 1, eq_under(I, both, va, vb)))
    return aig.ands(ls)


def dict_get(I, d, k, default):
    """default: function called where the key is missing"""
    alts = []
    aig = I.aig
    rest = 1
    for g, kk in I.key_alts(k):
        e = d.m.get(kk)
        if e is None or e[0] == 0:
            continue
        l = aig.AND(g, e[0])
        alts.append((l, e[1]))
        rest = aig.AND(rest, l ^ 1)
    rest = I.simp(I.pc, rest)
    if rest != 0:
        p1, p0 = I.split(rest)
        if p1 is not None:
            if p0 is None:
                return default()
            v = I.mkunion(alts)
            return I.branch(rest, default, lambda: v)
    if not alts:
        return default()
    return I.mkunion(alts)


def dict_method(I, d, name, args, kwargs):
    aig = I.aig
    if name == 'get':
        dv = args[1] if len(args) > 1 else kwargs.get('default')
        return dict_get(I, d, args[0], lambda: dv)
    if name == 'items':
        return SList([(g, I.mktuple([I.unkey(k), x]))
                      for g, k, x in d.ordered()], 'list', I.pc)
    if name == 'keys':
        return SList([(g, I.unkey(k)) for g, k, x in d.ordered()], 'keys',
                     I.pc)
    if name == 'values':
        return SList([(g, x) for g, k, x in d.ordered()], 'list', I.pc)
    if name == 'popitem':
        el = I.compact([(g, I.unkey(k)) for g, k, x in d.ordered()])
        k = getitem(I, SList(el, 'list', I.pc), -1)
        v = dict_method(I, d, 'pop', [k], {})
        return I.mktuple([k, v])
    if name == 'pop':
        k = args[0]

        def miss():
            if len(args) > 1:
                return args[1]
            I.throw(ExcVal(KeyError, (k,)))
        v = dict_get(I, d, k, miss)
        dict_del(I, d, k)
        return v
    if name == 'setdefault':
        def miss():
            v = args[1] if len(args) > 1 else None
            I.dict_set(d, args[0], v)
            return v
        return dict_get(I, d, args[0], miss)
    if name == 'update':
        for a in args:
            dict_update(I, d, a)
        for k, v in kwargs.items():
            I.dict_set(d, k, v)
        return None
    if name == 'copy':
        return dict_copy(I, d)
    if name == 'clear':
        r = I.rel(I.pc, d.birth)
        if d.owner is not None:
            for k in list(d.m):
                dict_del(I, d, k)
        for e in d.m.values():
            e[0] = aig.AND(e[0], r ^ 1)
        for e in d.log or ():
            e[1] = aig.AND(e[1], r ^ 1)
        return None
    return dunder(I, d, name, args)


def dict_del(I, d, k):
    r = I.rel(I.pc, d.birth)
    for g, kk in I.key_alts(k):
        if kk in d.m:
            e = d.m[kk]
            if d.owner is not None:
                p = I.extend(I.pc, I.aig.AND(g, e[0]))
                if p is not None:
                    pc0, I.pc = I.pc, p
                    try:
                        I.cellwrite(d.owner.attrs[kk], UNSET, d.owner.birth)
                    finally:
                        I.pc = pc0
            e[0] = I.aig.AND(e[0], I.aig.AND(g, r) ^ 1)
            for e2 in d.log or ():
                if e2[0] is kk or e2[0] == kk:
                    e2[1] = I.aig.AND(e2[1], I.aig.AND(g, r) ^ 1)
            if e[0] == 0:
                del d.m[kk]


def call_method(I, s, name, args, kwargs):
    t = type(s)
    if t is Union:
        return I.lift(s, lambda x: call_method(I, x, name, args, kwargs))
    if t is SSet:
        return set_method(I, s, name, args, kwargs)
    if t is SList:
        return list_method(I, s, name, args, kwargs)
    if t is SDict:
        return dict_method(I, s, name, args, kwargs)
    if t is SIter:
        if name == '__next__':
            return b_next(I, [s], {})
        return s
    if t is Opaque:
        return Opaque('method')
    if isinstance(s, I.nm.SArray):
        return I.nm.method(I, s, name, args, kwargs)
    return I.call(I.getattr(s, name), args, kwargs)


# ----------------------------------------------------------------------
# subscripts
# ----------------------------------------------------------------------
def slice_slots(I, slots, s):
    if all(g == 1 for g, x in slots):
        return slots[s]
    el = I.compact(slots)
    st, sp, step = s.start, s.stop, s.step
    if step is None:
        step = 1
    if step > 0 and (st is None or st >= 0) and (sp is None or sp >= 0):
        return el[s]
    if step == -1 and st is None and sp is None:
        return list(reversed(el))
    if step == 1:
        # negative bounds count from the end: position from the end
        out = el
        if sp is not None and sp < 0:
            rev = I.compact(list(reversed(out)))[-sp:]
            # drop the last -sp present elements: element p survives when
            # position p - sp exists
            n = len(el)
            out = []
            for p in range(n):
                q = p - sp
                g = el[q][0] if q < n else 0
                if g:
                    out.append((g, el[p][1]))
        elif sp is not None:
            out = out[:sp]
        if st is not None and st < 0:
            rev = I.compact(list(reversed(out)))[:-st]
            return list(reversed(rev))
        if st is not None:
            out = I.compact(out)[st:]
        return out
    raise Unsupported('slice of a symbolic-length list')


def getitem(I, o, i):
    t = type(o)
    if t is Union:
        if type(I.coalesce(o)) is SList and not isinstance(i, SSlice):
            o = I.coalesce(o)
            t = SList
        else:
            return I.lift(o, lambda x: getitem(I, x, i))
    if t is SList:
        if type(i) is SSlice:
            def sl(s):
                return SList(slice_slots(I, o.slots, s), o.kind
                             if o.kind != 'deque' else 'list', I.pc)
            return lift_slice(I, i, sl)
        i = I.boolint(i) if type(i) in (SBool, Union) else i
        dense = o.dense()
        memo = {}
        pc0 = I.pc

        def el(rev):
            # shared by all alternatives of i: simplify only under pc0
            if rev not in memo:
                pc, I.pc = I.pc, pc0
                try:
                    memo[rev] = I.compact(list(reversed(o.slots)) if rev
                                          else o.slots)
                finally:
                    I.pc = pc
            return memo[rev]

        def one(i):
            if not isinstance(i, int):
                if type(i) is SNum:
                    raise Unsupported('symbolic real index')
                if isinstance(i, I.nm.SArray) and i.a.ndim == 0:
                    return I.lift(i.a[()].v, one)
                I.throw(ExcVal(TypeError, ('list indices must be integers '
                                           'or slices',)))
            if dense:
                try:
                    return o.slots[i][1]
                except IndexError:
                    I.throw(ExcVal(IndexError, ('index out of range',)))
            e = el(i < 0)
            j = i if i >= 0 else -i - 1
            if j >= len(e):
                I.throw(ExcVal(IndexError, ('index out of range',)))
            I.raise_if(e[j][0] ^ 1, ExcVal(IndexError, (
                'index out of range',)))
            return e[j][1]
        return I.lift(i, one)
    if t is SDict:
        def miss():
            if o.factory is not None:
                v = I.call(o.factory, [], {})
                I.dict_set(o, i, v)
                return v
            I.throw(ExcVal(KeyError, (i,)))
        return dict_get(I, o, i, miss)
    if isinstance(o, I.nm.SArray):
        return I.nm.getitem(I, o, i)
    if t is SObj:
        return I.callmethod(o, '__getitem__', [i])
    if isinstance(o, (str, range, bytes, tuple, list, dict)):
        if type(i) is SSlice:
            return lift_slice(I, i, lambda s: o[s])

        def one(x):
            if type(x) is SNum:
                raise Unsupported('symbolic real subscript')
            try:
                return raise_native(I, o[x])
            except Exception as e:
                throw_native(I, e)
        return I.lift(I.boolint(i), one)
    if t is Stub:
        return Stub(o.path + '[]')
    if isinstance(o, (IClass, type)) or \
            getattr(o, '__module__', '') in ('typing', 'collections.abc') \
            or t is Intrinsic:
        return o if not isinstance(o, type) else o
    if t is Opaque:
        return Opaque('item')
    if o is None or isinstance(o, SCAL) or t in (SNum, SBool):
        I.throw(ExcVal(TypeError, ('%s object is not subscriptable' %
                                   t.__name__,)))
    if t is SSet or t is SIter:
        I.throw(ExcVal(TypeError, ('object is not subscriptable',)))
    raise Unsupported('subscript of %r' % (o,))


def lift_slice(I, s, fn):
    def go(parts, todo):
        if not todo:
            return fn(slice(*parts))
        x = todo[0]
        if isinstance(x, I.nm.SArray):
            x = x.a[()].v
        return I.lift(I.boolint(x), lambda y: go(parts + [y], todo[1:]))
    return go([], [s.start, s.stop, s.step])


def setitem(I, o, i, v):
    t = type(o)
    if t is Union:
        I.lift(o, lambda x: setitem(I, x, i, v))
        return
    if t is SList:
        if o.kind == 'tuple':
            I.throw(ExcVal(TypeError, ('tuple does not support item '
                                       'assignment',)))
        if type(i) is SSlice:
            def sl(s):
                if not o.dense():
                    raise Unsupported('slice assignment')
                new = list(o.slots)
                els = I.elements(v)
                if s.step in (None, 1):
                    new[s] = els
                else:
                    if len(new[s]) != len(els):
                        I.throw(ExcVal(ValueError, ('slice size',)))
                    new[s] = els
                list_replace(I, o, new)
            lift_slice(I, i, sl)
            return

        def one(i):
            if not isinstance(i, int):
                I.throw(ExcVal(TypeError, ('list indices must be '
                                           'integers',)))
            r = I.rel(I.pc, o.birth)
            if o.dense():
                try:
                    old = o.slots[i][1]
                except IndexError:
                    I.throw(ExcVal(IndexError, ('index out of range',)))
                o.slots[i] = (1, I.ite(r, v, old))
                return
            el = I.compact(o.slots)
            if i < 0:
                el = I.compact(list(reversed(o.slots)))
                j = -i - 1
            else:
                j = i
            if j >= len(el):
                I.throw(ExcVal(IndexError, ('index out of range',)))
            I.raise_if(el[j][0] ^ 1, ExcVal(IndexError, (
                'index out of range',)))
            new = el[:j] + [(el[j][0], v)] + el[j + 1:]
            if i < 0:
                new.reverse()
            list_replace(I, o, new)
        I.lift(I.boolint(i), one)
        return
    if t is SDict:
        I.dict_set(o, i, v)
        return
    if isinstance(o, I.nm.SArray):
        I.nm.setitem(I, o, i, v)
        return
    if t is SObj:
        I.callmethod(o, '__setitem__', [i, v])
        return
    if t is Stub:
        return
    I.throw(ExcVal(TypeError, ('object does not support item assignment',)))


def delitem(I, o, i):
    t = type(o)
    if t is Union:
        I.lift(o, lambda x: delitem(I, x, i))
        return
    if t is SDict:
        l = I.contains(o, i)
        I.raise_if(l ^ 1, ExcVal(KeyError, (i,)))
        dict_del(I, o, i)
        return
    if t is SList:
        if type(i) is SSlice:
            def sl(s):
                if not o.dense():
                    raise Unsupported('slice deletion')
                new = list(o.slots)
                del new[s]
                list_replace(I, o, new)
            lift_slice(I, i, sl)
            return

        def one(i):
            el = I.compact(list(reversed(o.slots)) if i < 0 else o.slots)
            j = i if i >= 0 else -i - 1
            if j >= len(el):
                I.throw(ExcVal(IndexError, ('index out of range',)))
            I.raise_if(el[j][0] ^ 1, ExcVal(IndexError, (
                'index out of range',)))
            new = el[:j] + el[j + 1:]
            if i < 0:
                new = list(reversed(new))
            # dropping a present position keeps the remaining guards valid
            list_replace(I, o, new)
        I.lift(i, one)
        return
    if t is SObj:
        I.callmethod(o, '__delitem__', [i])
        return
    raise Unsupported('del item')


def contains_other(I, c, v):
    if type(c) is Opaque:
        raise Unsupported('membership in a message')
    if isinstance(c, Stub):
        return 0
    el = I.elements(c)
    return I.aig.ors([I.aig.AND(g, I.eq_lit(x, v)) for g, x in el])


def native_binop(I, op, a, b):
    if isinstance(a, type) and op == 'or' or isinstance(a, IClass):
        return a
    if isinstance(a, Stub) or isinstance(b, Stub):
        return Stub('op')
    if isinstance(a, str) and op == 'mul':
        return NotImplemented
    return NotImplemented


# ----------------------------------------------------------------------
# builtin functions
# ----------------------------------------------------------------------
def b_len(I, args, kwargs):
    v = I.coalesce(args[0])
    t = type(v)
    if t is Union:
        return I.lift(v, lambda x: b_len(I, [x], {}))
    s = lambda gs: I.count_val([I.simp(I.pc, g) for g in gs])
    if t is SList:
        return s([g for g, x in v.slots])
    if t is SSet:
        return s(list(v.m.values()))
    if t is SDict:
        return s([e[0] for e in v.m.values()])
    if t is SObj:
        if v.cls.lookup('__len__') is UNSET:
            I.throw(ExcVal(TypeError, ('object has no len()',)))
        return I.callmethod(v, '__len__', [])
    if isinstance(v, I.nm.SArray):
        return I.nm.length(I, v)
    if t is Opaque:
        raise Unsupported('len of a message')
    try:
        return len(v)
    except TypeError as e:
        throw_native(I, e)


def type_of(I, v):
    t = type(v)
    if t is SObj:
        return v.cls
    if t is SBool:
        return I.builtins['bool']
    if t is SNum:
        return I.builtins['float']
    if t is SList:
        return I.builtins.get(v.kind, v.kind)
    if t is SSet:
        return I.builtins['frozenset' if v.frozen else 'set']
    if t is SDict:
        return I.builtins['dict']
    if isinstance(v, I.nm.SArray):
        return I.nm.NDARRAY
    if t is ExcVal:
        return v.cls
    if t is IClass:
        return I.builtins['type']
    if isinstance(v, (int, float, str, bool)):
        return I.builtins[t.__name__]
    return t


def isinst(I, v, c):
    """bool: is the leaf value v an instance of class c"""
    t = type(v)
    if isinstance(c, SList):
        return any(isinst(I, v, x) for g, x in c.slots)
    if isinstance(c, tuple):
        return any(isinst(I, v, x) for x in c)
    if isinstance(c, types.UnionType):
        return any(isinst(I, v, x) for x in c.__args__)
    if isinstance(c, Intrinsic):
        n = c.name
        if n == 'object':
            return True
        if n == 'set':
            return t is SSet and not v.frozen
        if n == 'frozenset':
            return t is SSet and v.frozen
        if n in ('list', 'tuple', 'deque'):
            return t is SList and v.kind == n
        if n == 'dict':
            return t is SDict
        if n == 'defaultdict':
            return t is SDict and v.factory is not None
        if n == 'bool':
            return t in (bool, SBool)
        if n == 'int':
            return isinstance(v, int) or t is SBool
        if n == 'float':
            return t in (float, SNum, Fraction)
        if n == 'str':
            return isinstance(v, (str, Opaque))
        if n == 'complex':
            return isinstance(v, complex)
        if n == 'type':
            return isinstance(v, (type, IClass))
        if n == 'ndarray':
            return isinstance(v, I.nm.SArray)
        if n == 'range':
            return isinstance(v, range)
        if n == 'slice':
            return t is SSlice
        if n == 'property':
            return t is IProperty
        if n in ('zip', 'map', 'filter', 'enumerate', 'reversed'):
            return t is SIter
        return False
    if isinstance(c, IClass):
        if t is SObj:
            return c in v.cls.mro
        if t is ExcVal:
            return isinstance(v.cls, IClass) and c in v.cls.mro
        return False
    if isinstance(c, type) and issubclass(c, BaseException):
        return t is ExcVal and I.exc_matches(v, c)
    if isinstance(c, Stub):
        return False
    if c is types.NoneType:
        return v is None
    n = getattr(c, '__name__', None) or getattr(c, '_name', None)
    mod = getattr(c, '__module__', '')
    if mod in ('collections.abc', 'typing'):
        def has(m):
            return t is SObj and v.cls.lookup(m) is not UNSET
        arr = isinstance(v, I.nm.SArray)
        cont = t in (SSet, SList, SDict) or isinstance(v, (str, range)) or \
            arr
        if n == 'Iterable':
            return cont or t is SIter or has('__iter__') or \
                isinstance(v, collections.abc.Iterable)
        if n == 'Iterator' or n == 'Generator':
            return t is SIter
        if n in ('Sequence',):
            return t is SList or isinstance(v, (str, range))
        if n == 'MutableSequence':
            return t is SList and v.kind != 'tuple'
        if n in ('List',):
            return t is SList and v.kind == 'list'
        if n in ('Tuple',):
            return t is SList and v.kind == 'tuple'
        if n in ('Set', 'AbstractSet', 'MutableSet', 'FrozenSet'):
            return t is SSet
        if n in ('Mapping', 'MutableMapping', 'Dict'):
            return t is SDict
        if n in ('Sized', 'Container', 'Collection'):
            return cont or has('__len__')
        if n == 'Callable':
            return t in (IFunction, BoundMethod, Intrinsic, BuiltinMethod,
                         IClass) or has('__call__') or \
                (callable(v) and not isinstance(v, SObj))
        if n == 'Hashable':
            return not cont
    if mod == 'numbers':
        num = isinstance(v, (int, float, Fraction)) or t in (SNum, SBool)
        if n in ('Number', 'Real', 'Complex'):
            return num
        if n in ('Integral',):
            return isinstance(v, int) or t is SBool
        if n == 'Rational':
            return isinstance(v, (int, Fraction)) or t is SBool
    if isinstance(c, type):
        if c.__module__ == 'numpy' or c.__module__.startswith('numpy'):
            return False
        return isinstance(v, c)
    raise Unsupported('isinstance with %r' % (c,))


def b_isinstance(I, args, kwargs):
    v, c = args
    if type(c) is Union:
        return I.lift(c, lambda x: b_isinstance(I, [v, x], {}))
    if type(v) is Union:
        return I.mkbool(I.aig.ors([g for g, x in v.alts
                                   if isinst(I, x, c)]))
    return isinst(I, v, c)


def b_issubclass(I, args, kwargs):
    a, c = args
    if isinstance(c, SList):
        return any(b_issubclass(I, [a, x], {}) for g, x in c.slots)
    if isinstance(a, IClass):
        if isinstance(c, IClass):
            return c in a.mro
        if isinstance(c, Intrinsic):
            return c.name == 'object'
        return a.native_base is not None and issubclass(a.native_base, c)
    if isinstance(a, type) and isinstance(c, type):
        return issubclass(a, c)
    return a is c


def numeric_fold(I, op, slots, start):
    acc = start
    for g, x in slots:
        l = I.simp(I.pc, g)
        if l == 0:
            continue
        if op == 'add' and l != 1:
            lx = I.linof(x)
            if lx is not None and I.linof(acc) is not None:
                la = I.linof(acc)
                acc = I.linear(la[0], list(la[1].items()) +
                               I.lin_guard(lx, l))
                continue
        if l == 1:
            acc = I.binop(op, acc, x)
        else:
            old = acc
            acc = I.branch(l, lambda: I.binop(op, old, x), lambda: old)
    return acc


def b_sum(I, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    it = args[0]
    if isinstance(it, I.nm.SArray) and it.a.ndim == 1:
        pass
    slots = I.elements(it)
    lits, rest = [], []
    for g, x in slots:
        if type(x) is bool or type(x) is int and x in (0, 1):
            if x:
                lits.append(I.simp(I.pc, g))
        elif type(x) is SBool:
            lits.append(I.simp(I.pc, I.aig.AND(g, x.lit)))
        else:
            rest.append((g, x))
    acc = start
    if lits:
        acc = I.binop('add', acc, I.count_val(lits))
    return numeric_fold(I, 'add', rest, acc)


def scalar_alts(I, slots):
    """flatten guarded slots to [(lit, scalar)] or None"""
    out = []
    for g, x in slots:
        x = I.boolint(x) if type(x) is SBool else x
        for h, y in I.alts(x):
            if not isinstance(y, (int, float, Fraction, str)):
                return None
            l = I.aig.AND(g, h)
            if l:
                out.append((l, y))
    return out


def minmax(I, args, kwargs, name):
    aig = I.aig
    key = kwargs.get('key')
    if len(args) == 1:
        slots = I.elements(args[0])
    else:
        slots = [(1, a) for a in args]
    slots = [(I.simp(I.pc, g), x) for g, x in slots]
    slots = [(g, x) for g, x in slots if g]
    some = aig.ors([g for g, x in slots])
    dflt = None
    if 'default' in kwargs:
        dflt = kwargs['default']
        if not slots:
            return dflt
    else:
        if not slots:
            I.throw(ExcVal(ValueError, (
                '%s() iterable argument is empty' % name,)))
        I.raise_if(some ^ 1, ExcVal(ValueError, (
            '%s() iterable argument is empty' % name,)))
    if key is None:
        fl = scalar_alts(I, slots)
        if fl is not None and len({type(y) is str for l, y in fl}) == 1 \
                and not any(y != y for l, y in fl):
            by = {}
            for l, y in fl:
                if y in by:
                    by[y] = (by[y][0], aig.OR(by[y][1], l))
                else:
                    by[y] = (y, l)
            ks = sorted(by, reverse=name == 'max')
            alts, none = [], 1
            for k in ks:
                y, l = by[k]
                h = aig.AND(none, l)
                if h:
                    alts.append((h, y))
                none = aig.AND(none, l ^ 1)
            if dflt is not None or 'default' in kwargs:
                alts.append((none, dflt))
            return I.mkunion(alts)
    best = None
    have = 0
    bk = None
    op = 'lt' if name == 'min' else 'gt'
    for g, x in slots:
        if key is None:
            k = x
        elif g == 1:
            k = I.call(key, [x], {})
        else:
            k = I.branch(g, lambda: I.call(key, [x], {}), lambda: None)
            if type(k) is Union:
                al = [(h, y) for h, y in k.alts if y is not None]
                k = al[0][1] if len(al) == 1 else Union(al)
        if have == 0:
            best, bk, have = x, k, g
            continue
        both = aig.AND(have, g)
        l = 0
        if both:
            pc0 = I.pc
            p = I.extend(pc0, both)
            if p is not None:
                I.pc = p
                try:
                    l = I.truth(I.compare(op, k, bk))
                finally:
                    I.pc = pc0
        take = aig.AND(g, aig.OR(have ^ 1, l))
        best = I.ite(take, x, best)
        bk = I.ite(take, k, bk) if key is not None else best
        have = aig.OR(have, g)
    if 'default' in kwargs:
        return I.ite(have, best, dflt)
    return best


def b_range(I, args, kwargs):
    def go(parts, todo):
        if not todo:
            try:
                return range(*parts)
            except Exception as e:
                throw_native(I, e)
        x = todo[0]
        if isinstance(x, I.nm.SArray) and x.a.ndim == 0:
            x = x.a[()].v
        return go(parts + [x], todo[1:])
    args = [I.boolint(a) if type(a) is not int else a for a in args]
    args = [a.a[()].v if isinstance(a, I.nm.SArray) and a.a.ndim == 0 else a
            for a in args]
    args = [I.pruned(a) for a in args]
    if all(type(a) is int for a in args):
        return go([], args)
    if any(type(a) is SNum for a in args):
        raise Unsupported('range of a symbolic real')
    if len(args) == 1:
        lo, hi, step = 0, args[0], 1
    else:
        lo, hi = args[0], args[1]
        step = args[2] if len(args) > 2 else 1
    if type(lo) is int and step == 1 and type(hi) is Union and all(
            type(x) is int for g, x in hi.alts):
        mx = max(x for g, x in hi.alts)
        return SList([(I.aig.ors([g for g, x in hi.alts if x > k]), k)
                      for k in range(lo, mx)], 'list', I.pc)
    aig = I.aig
    slots = []

    def lists(parts, g, todo):
        if not todo:
            try:
                r = range(*parts)
            except Exception as e:
                I.raise_if(g, ExcVal(type(e), e.args))
                return
            for k in r:
                slots.append((g, k))
            return
        for h, x in I.prune(todo[0]) if type(todo[0]) is Union else \
                [(1, todo[0])]:
            if not isinstance(x, int):
                I.raise_if(aig.AND(g, h), ExcVal(TypeError, (
                    'object cannot be interpreted as an integer',)))
                continue
            gh = aig.AND(g, h)
            if gh:
                lists(parts + [x], gh, todo[1:])
    lists([], 1, args)
    return SList(slots, 'list', I.pc)


def b_iter(I, args, kwargs):
    v = args[0]
    if type(v) is SIter:
        return v
    if type(v) is SObj:
        return I.callmethod(v, '__iter__', [])
    if type(v) is Union:
        v = I.coalesce(v)
        if type(v) is Union:
            return I.lift(v, lambda x: b_iter(I, [x], {}))
    return SIter(lst=SList(I.elements(v), 'list', I.pc))


def b_next(I, args, kwargs):
    it = args[0]
    if type(it) is Union:
        return I.lift(it, lambda x: b_next(I, [x] + args[1:], {}))
    if type(it) is SObj:
        return I.callmethod(it, '__next__', [])
    if type(it) is not SIter:
        I.throw(ExcVal(TypeError, ('object is not an iterator',)))
    if it.lazy is not None:
        if it.lst is None:
            it.lst = SList([], 'list', it.birth)
    else:
        I.force(it)
    aig = I.aig
    lst = it.lst
    found = 0
    alts = []
    r = I.rel(I.pc, lst.birth)
    i = -1
    while i + 1 < len(lst.slots) or it.lazy is not None and I.pull(it):
        i += 1
        g, x = lst.slots[i]
        if g == 0:
            continue
        l = I.simp(I.pc, aig.AND(g, found ^ 1))
        if l:
            alts.append((l, x))
            lst.slots[i] = (aig.AND(g, aig.AND(l, r) ^ 1), x)
        found = aig.OR(found, g)
        if I.simp(I.pc, found) == 1:
            break
    if len(args) > 1:
        alts.append((found ^ 1, args[1]))
        return I.mkunion(alts)
    if not alts:
        I.throw(ExcVal(StopIteration, ()))
    I.raise_if(found ^ 1, ExcVal(StopIteration, ()))
    return I.mkunion(alts)


def slist(I, kind):
    def f(I, args, kwargs):
        if not args:
            return SList([], kind, I.pc)
        v = args[0]
        c = I.coalesce(v)
        if type(c) is Union and not any(
                type(x) is SIter for g, x in c.alts):
            return I.lift(c, lambda x: f(I, [x], kwargs))
        return SList(I.elements(c), kind, I.pc)
    return f


def sset(frozen):
    def f(I, args, kwargs):
        s = SSet(I.pc, frozen=frozen)
        if args:
            v = I.coalesce(args[0])
            if type(v) is SSet:
                s.m.update(v.m)
            else:
                for g, x in I.elements(v):
                    I.set_add(s, x, g)
        return s
    return f


def b_dict(I, args, kwargs):
    d = SDict(I.pc)
    if args:
        dict_update(I, d, args[0])
    for k, v in kwargs.items():
        I.dict_set(d, k, v)
    return d


def b_sorted(I, args, kwargs):
    rev = kwargs.get('reverse', False)
    rev = I.truth(rev)
    els = I.elements(args[0])
    key = kwargs.get('key')

    def one(r):
        return SList(sort_slots(I, els, key, r), 'list', I.pc)
    return I.branch(rev, lambda: one(True), lambda: one(False))


def b_reversed(I, args, kwargs):
    return I.lift(args[0], lambda v: SIter(lst=SList(
        list(reversed(I.elements(v))), 'list', I.pc)))


def indexed(I, slots):
    """[(guard, index value, x)]"""
    if all(g == 1 for g, x in slots):
        return [(1, i, x) for i, (g, x) in enumerate(slots)]
    aig = I.aig
    cnt = [1]
    out = []
    for g, x in slots:
        g = I.simp(I.pc, g)
        if g == 0:
            continue
        idx = I.mkunion([(aig.AND(c, 1), p) for p, c in enumerate(cnt) if c])
        out.append((g, idx, x))
        new = [0] * (len(cnt) + 1)
        for p, c in enumerate(cnt):
            new[p] = aig.OR(new[p], aig.AND(c, g ^ 1))
            new[p + 1] = aig.OR(new[p + 1], aig.AND(c, g))
        cnt = new
    return out


def b_enumerate(I, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    it = args[0]
    if type(it) is SIter and it.lazy is not None:
        return lazy_iter(I, enumerate(raw_lazy(it), start))
    out = []
    for g, i, x in indexed(I, I.elements(it)):
        if start != 0:
            i = I.binop('add', i, start)
        out.append((g, I.mktuple([i, x])))
    return SIter(lst=SList(out, 'list', I.pc))


def zip_slots(I, its):
    """list of element lists -> [(guard, [values])]"""
    fin = []
    lazies = {}
    for i, it in enumerate(its):
        if type(it) is SIter and it.lazy is not None:
            lazies[i] = raw_lazy(it)
            fin.append(None)
        else:
            fin.append(I.elements(it))
    known = [f for f in fin if f is not None]
    if not known:
        if not lazies:
            return []
        return None
    same = all([g for g, x in f] == [g for g, x in known[0]] for f in known)
    if not same:
        known = [I.compact(f) for f in known]
    n = min(len(f) for f in known)
    k = 0
    cols = []
    for i, f in enumerate(fin):
        if f is None:
            col = []
            for _ in range(n):
                try:
                    col.append((1, raise_native(I, next(lazies[i]))))
                except StopIteration:
                    break
            cols.append(col)
        else:
            cols.append(known[k])
            k += 1
    n = min(len(c) for c in cols)
    out = []
    for j in range(n):
        g = I.aig.ands([c[j][0] for c in cols])
        if lazies and not same:
            pass
        out.append((g, [c[j][1] for c in cols]))
    if lazies and any(g != 1 for g, x in out):
        # the i-th element that is there meets the i-th of the iterator
        idx = indexed(I, [(g, None) for g, x in out])
        if len(idx) != len(out):
            out = [r for r in out if I.simp(I.pc, r[0])]
        for i in lazies:
            col = SList([(1, r[1]) for r in cols[i]], 'list', I.pc)
            for (g, k, x), row in zip(idx, out):
                row[1][i] = I.lift(k, lambda k: col.slots[k][1])
        if any(lazies[i] is not None and I.simp(I.pc, g) != 1
               for i in lazies for g, x in out):
            for i in lazies:      # how much was taken is not known any more
                its[i].lazy = Spent()
    return out


def b_zip(I, args, kwargs):
    z = zip_slots(I, args)
    if z is None:
        return lazy_iter(I, zip(*[raw_lazy(a) for a in args]))
    if kwargs.get('strict') and len(args) > 1:
        n = b_len(I, [args[0]], {})
        for a in args[1:]:
            I.raise_if(I.eq_lit(n, b_len(I, [a], {})) ^ 1, ExcVal(
                ValueError, ('zip() arguments have different lengths',)))
    return SIter(lst=SList([(g, I.mktuple(x)) for g, x in z], 'list', I.pc))


def guarded_map(I, fn, slots):
    out = []
    for g, x in slots:
        l = I.simp(I.pc, g)
        if l == 0:
            continue
        if l == 1:
            out.append((1, fn(x)))
            continue
        pc0, mark = I.pc, len(I.kills)
        p1, p0 = I.split(l)
        if p1 is None:
            continue
        I.pc = p1
        alive = [] if p0 is None else [p0]
        try:
            out.append((l, fn(x)))
            alive.append(I.pc)
        except DeadPath:
            pass
        I.join(pc0, mark, alive)
    return out


def b_map(I, args, kwargs):
    f = args[0]
    its = list(args[1:])

    def thunk():
        if len(its) == 1:
            sl = [(g, [x]) for g, x in I.elements(its[0])]
        else:
            sl = zip_slots(I, its)
        return SList(guarded_map(I, lambda x: I.call(f, x, {}), sl), 'list',
                     I.pc)
    return SIter(thunk=(thunk, None, None), birth=I.pc)


def b_filter(I, args, kwargs, neg=False):
    f, it = args

    def thunk():
        out = []
        vals = guarded_map(
            I, lambda x: (x, I.mkbool(I.truth(
                x if f is None else I.call(f, [x], {})))), I.elements(it))
        for g, (x, b) in vals:
            l = I.truth(b) ^ int(neg)
            h = I.aig.AND(g, l)
            if h:
                out.append((h, x))
        return SList(out, 'list', I.pc)
    return SIter(thunk=(thunk, None, None), birth=I.pc)


def anyall(name):
    isany = name == 'any'

    def raw(I, n, fr):
        if len(n.args) != 1 or n.keywords or not isinstance(
                n.args[0], ast.GeneratorExp):
            return NotImplemented
        ge = n.args[0]
        tok = object()
        pc0, mark = I.pc, len(I.kills)
        dead = False

        def emit(cf):
            l = I.truth(I.ev(ge.elt, cf))
            if not isany:
                l ^= 1
            p1, p0 = I.split(l)
            if p1 is not None:
                I.kills.append(Kill('break', tok, p1))
                if p0 is None:
                    raise DeadPath
                I.pc = p0
        try:
            I.comp(ge.generators, fr, emit)
        except DeadPath:
            dead = True
        brk = I.resolve(mark, 'break', tok)
        if not brk:
            if dead:
                raise DeadPath
            if len(I.kills) == mark:
                I.pc = pc0
            return not isany
        if len(I.kills) == mark:
            I.pc = pc0
        else:
            p = I.minus(pc0, mark)
            if p is None:
                raise DeadPath
            I.pc = p
        l = I.aig.ors([I.rel(k.pc, pc0) for k in brk])
        if dead:
            l = 1
        return I.mkbool(l if isany else l ^ 1)

    def f(I, args, kwargs):
        els = I.elements(args[0])
        if isany:
            return I.mkbool(I.aig.ors([I.aig.AND(g, I.truth(x))
                                       for g, x in els]))
        return I.mkbool(I.aig.ands([I.aig.OR(g ^ 1, I.truth(x))
                                    for g, x in els]))
    return Intrinsic(name, f, raw)


def super_raw(I, n, fr):
    if n.args:
        c = I.ev(n.args[0], fr)
        o = I.ev(n.args[1], fr)
        return ISuper(c, o)
    f = fr
    while f.func is None or f.yields == 'comp' or f.func.cls is None:
        f = f.parent
        if f is None:
            raise Unsupported('super()')
    while f is not None:
        a = f.func.info.args if f.func is not None else None
        if a and f.yields != 'comp':
            c = f.vars.get(a[0])
            if c is not None and c.v is not UNSET and \
                    isinstance(c.v, (SObj, IClass)):
                return ISuper(f.func.cls, c.v)
        f = f.parent
    raise Unsupported('super()')


def b_int(I, args, kwargs):
    if not args:
        return 0
    v = args[0]

    def one(v):
        t = type(v)
        if t is SBool:
            return I.boolint(v)
        if t is SNum:
            c = I.nm.const_of(v)
            if c is not None:
                return int(c)
            e = v.e
            return SNum(z3.If(e >= 0, z3.ToReal(z3.ToInt(e)),
                              -z3.ToReal(z3.ToInt(-e))))
        if isinstance(v, I.nm.SArray) and v.a.size == 1:
            return b_int(I, [v.a.flat[0].v], {})
        if isinstance(v, (int, float, str, Fraction)):
            try:
                return int(v, *[lower(I, a) for a in args[1:]])
            except Exception as e:
                throw_native(I, e)
        if t is SObj and v.cls.lookup('__int__') is not UNSET:
            return I.callmethod(v, '__int__', [])
        I.throw(ExcVal(TypeError, ('int() argument',)))
    return I.lift(v, one)


def b_float(I, args, kwargs):
    if not args:
        return 0.0

    def one(v):
        t = type(v)
        if t is SNum:
            return v
        if t is SBool:
            return Union([(v.lit, 1.0), (v.lit ^ 1, 0.0)])
        if isinstance(v, I.nm.SArray) and v.a.size == 1:
            return b_float(I, [v.a.flat[0].v], {})
        if isinstance(v, (int, float, str, Fraction)):
            try:
                return float(v)
            except Exception as e:
                throw_native(I, e)
        I.throw(ExcVal(TypeError, ('float() argument',)))
    return I.lift(args[0], one)


def b_abs(I, args, kwargs):
    def one(v):
        t = type(v)
        if t is SNum:
            return SNum(z3.If(v.e < 0, -v.e, v.e))
        if t is SBool:
            return I.boolint(v)
        if isinstance(v, I.nm.SArray):
            return I.nm.elementwise(I, lambda x: b_abs(I, [x], {}), v)
        try:
            return abs(v)
        except TypeError as e:
            throw_native(I, e)
    return I.lift(args[0], one)


def b_round(I, args, kwargs):
    def one(v):
        if type(v) is SNum:
            if len(args) > 1 and args[1] is not None or kwargs:
                raise Unsupported('round of a symbolic real to digits')
            # the nearest integer, the even one of two
            f = z3.ToInt(v.e)
            d = v.e - z3.ToReal(f)
            up = z3.Or(d > z3.RealVal('1/2'), z3.And(
                d == z3.RealVal('1/2'), f % 2 == 1))
            return SNum(z3.If(up, f + 1, f))
        try:
            return round(v, *[lower(I, a) for a in args[1:]])
        except Exception as e:
            throw_native(I, e)
    return I.lift(I.boolint(args[0]), one)


def attribute_name(I, name):
    if not any(isinstance(x, str) for g, x in I.alts(name)):
        I.throw(ExcVal(TypeError, ('attribute name must be string',)))


def b_getattr(I, args, kwargs):
    o, name = args[0], args[1]
    attribute_name(I, name)

    def one(name):
        if len(args) == 2:
            return I.getattr(o, name)
        l = I.hasattr(o, name)
        return I.branch(l, lambda: I.getattr(o, name), lambda: args[2])
    return I.lift(name, one)


def b_setattr(I, args, kwargs):
    attribute_name(I, args[1])
    I.lift(args[1], lambda n: I.setattr(args[0], n, args[2]))


def b_hasattr(I, args, kwargs):
    attribute_name(I, args[1])
    return I.lift(args[1], lambda n: I.mkbool(I.hasattr(args[0], n)))


def b_delattr(I, args, kwargs):
    attribute_name(I, args[1])
    I.lift(args[1], lambda n: I.delattr(args[0], n))


def b_type(I, args, kwargs):
    if len(args) != 1:
        raise Unsupported('type() with three arguments')
    return I.lift(args[0], lambda v: type_of(I, v))


def b_callable(I, args, kwargs):
    return I.lift(args[0], lambda v: isinst(I, v, collections.abc.Callable))


def b_id(I, args, kwargs):
    def one(v):
        if isinstance(v, SObj):
            return v.oid
        return id(v)
    return I.lift(args[0], one)


def b_hash(I, args, kwargs):
    def one(v):
        if isinstance(v, SObj):
            if v.cls.lookup('__hash__') is not UNSET:
                return I.callmethod(v, '__hash__', [])
            return v.oid
        try:
            return hash(lower(I, v))
        except NotConcrete:
            raise Unsupported('hash')
        except TypeError as e:
            throw_native(I, e)
    return I.lift(args[0], one)


def b_print(I, args, kwargs):
    for a in args:
        to_str(I, a)
    return None


def b_divmod(I, args, kwargs):
    return I.mktuple([I.binop('floordiv', *args), I.binop('mod', *args)])


def b_pow(I, args, kwargs):
    if len(args) == 3:
        raise Unsupported('three-argument pow')
    return I.binop('pow', args[0], args[1])


def b_str(I, args, kwargs):
    return to_str(I, args[0]) if args else ''


def b_slice(I, args, kwargs):
    if len(args) == 1:
        return SSlice(None, args[0], None)
    return SSlice(*(list(args) + [None] * (3 - len(args))))


def b_vars(I, args, kwargs):
    return obj_dict(I, args[0])


def b_object(I, args, kwargs):
    c = IClass('object', [], None)
    return SObj(c, I.pc)


def b_format(I, args, kwargs):
    return format_value(I, args[0], -1, args[1] if len(args) > 1 else '')


# ----------------------------------------------------------------------
# functools / itertools / collections / operator / copy
# ----------------------------------------------------------------------
def f_reduce(I, args, kwargs):
    f, it = args[0], args[1]
    slots = I.elements(it)
    if len(args) > 2:
        acc, have = args[2], 1
    else:
        acc, have = None, 0
    for g, x in slots:
        g = I.simp(I.pc, g)
        if g == 0:
            continue
        old = acc
        if have == 0:
            acc = x
        elif have == 1:
            acc = I.branch(g, lambda: I.call(f, [old, x], {}), lambda: old)
        else:
            oh = have
            acc = I.branch(g, lambda: I.branch(
                oh, lambda: I.call(f, [old, x], {}), lambda: x),
                lambda: old)
        have = I.aig.OR(have, g)
    if have != 1:
        I.raise_if(have ^ 1, ExcVal(TypeError, (
            'reduce() of empty iterable',)))
    return acc


def f_partial(I, args, kwargs):
    f, pre, kw = args[0], list(args[1:]), dict(kwargs)
    return Intrinsic('partial', lambda I, a, k: I.call(
        f, pre + list(a), {**kw, **k}))


def f_lru_cache(I, args, kwargs):
    def wrap(I, a, k):
        f = a[0]
        memo = SDict(I.root)

        def call(I, a, k):
            kk = I.mktuple([I.mktuple(list(a))] +
                           [I.mktuple([n, v]) for n, v in sorted(k.items())])

            def miss():
                v = I.call(f, a, k)
                I.dict_set(memo, kk, v)
                return v
            return dict_get(I, memo, kk, miss)
        r = Intrinsic(getattr(f, 'name', 'f'), call, 'method')
        return r
    if args and isinstance(args[0], (IFunction, Intrinsic)):
        return wrap(I, args, {})
    return Intrinsic('lru_cache', wrap)


def f_wraps(I, args, kwargs):
    return Intrinsic('wraps', lambda I, a, k: a[0])


def f_cached_property(I, args, kwargs):
    return CachedProp(args[0], args[0].name)


def it_result(I, slots):
    return SIter(lst=SList(slots, 'list', I.pc))


def it_combinations(I, args, kwargs):
    slots = I.elements(args[0])
    r = args[1] if len(args) > 1 else kwargs['r']

    def one(r):
        out = []
        for c in itertools.combinations(slots, r):
            g = I.aig.ands([h for h, x in c])
            if g:
                out.append((g, I.mktuple([x for h, x in c])))
        return it_result(I, out)
    return I.lift(r, one)


def it_permutations(I, args, kwargs):
    slots = I.elements(args[0])
    r = args[1] if len(args) > 1 else kwargs.get('r')
    if r is None:
        if any(I.simp(I.pc, g) > 1 for g, x in slots):
            raise Unsupported('permutations of a symbolic list')
        r = len([1 for g, x in slots if I.simp(I.pc, g)])

    def one(r):
        out = []
        for c in itertools.permutations(slots, r):
            g = I.aig.ands([h for h, x in c])
            if g:
                out.append((g, I.mktuple([x for h, x in c])))
        return it_result(I, out)
    return I.lift(r, one)


def it_product(I, args, kwargs):
    its = [I.elements(a) for a in args] * kwargs.get('repeat', 1)
    out = []
    for c in itertools.product(*its):
        g = I.aig.ands([h for h, x in c])
        if g:
            out.append((g, I.mktuple([x for h, x in c])))
    return it_result(I, out)


def it_chain(I, args, kwargs):
    def thunk():
        out = []
        for a in args:
            out.extend(I.elements(a))
        return SList(out, 'list', I.pc)
    return SIter(thunk=(thunk, None, None), birth=I.pc)


def it_chain_from(I, args, kwargs):
    def thunk():
        out = []
        for g, x in I.elements(args[0]):
            l = I.simp(I.pc, g)
            if l == 0:
                continue
            p = I.extend(I.pc, l)
            if p is None:
                continue
            for h, y in I.elements(x):
                gh = I.aig.AND(l, h)
                if gh:
                    out.append((gh, y))
        return SList(out, 'list', I.pc)
    return SIter(thunk=(thunk, None, None), birth=I.pc)


def it_islice(I, args, kwargs):
    it = args[0]
    s = [None if a is None else a for a in args[1:]]
    s = [lower(I, a) for a in s]
    if type(it) is SIter and it.lazy is not None:
        return lazy_iter(I, itertools.islice(raw_lazy(it), *s))
    el = I.compact(I.elements(it))
    return it_result(I, el[slice(*s)])


def it_count(I, args, kwargs):
    return lazy_iter(I, itertools.count(*[lower(I, a) for a in args],
                                      **{k: lower(I, v)
                                         for k, v in kwargs.items()}))


def it_cycle(I, args, kwargs):
    el = I.compact(I.elements(args[0]))
    if any(g != 1 for g, x in el):
        raise Unsupported('cycle of a symbolic list')
    return lazy_iter(I, itertools.cycle([x for g, x in el]))


def it_repeat(I, args, kwargs):
    n = args[1] if len(args) > 1 else kwargs.get('times')
    x = args[0]
    if n is None:
        return lazy_iter(I, itertools.repeat(x))
    return I.lift(n, lambda k: it_result(I, [(1, x)] * max(k, 0)))


def it_accumulate(I, args, kwargs):
    f = args[1] if len(args) > 1 else kwargs.get('func')
    slots = I.compact(I.elements(args[0]))
    out = []
    acc = kwargs.get('initial')
    have = acc is not None
    if have:
        out.append((1, acc))
    for g, x in slots:
        if not have:
            acc, have = x, True
        else:
            old = acc
            fn = (lambda: I.call(f, [old, x], {})) if f is not None else \
                (lambda: I.binop('add', old, x))
            acc = I.branch(g, fn, lambda: old)
        out.append((g, acc))
    return it_result(I, out)


def it_pairwise(I, args, kwargs):
    slots = I.compact(I.elements(args[0]))
    return it_result(I, [(slots[i + 1][0],
                          I.mktuple([slots[i][1], slots[i + 1][1]]))
                         for i in range(len(slots) - 1)])


def it_starmap(I, args, kwargs):
    f = args[0]

    def one(x):
        el = I.compact(I.elements(x))
        return I.call(f, [y for g, y in el], {})
    return it_result(I, guarded_map(I, one, I.elements(args[1])))


def it_takewhile(I, args, kwargs, drop=False):
    f = args[0]
    ok = 1
    out = []
    for g, x in I.elements(args[1]):
        g = I.simp(I.pc, g)
        if g == 0:
            continue
        act = I.aig.AND(g, ok)
        t = I.truth(I.branch(act, lambda: I.mkbool(I.truth(
            I.call(f, [x], {}))), lambda: False))
        ok = I.aig.AND(ok, I.aig.OR(g ^ 1, t))
        l = I.aig.AND(g, ok ^ 1 if drop else ok)
        if l:
            out.append((l, x))
    return it_result(I, out)


def it_compress(I, args, kwargs):
    z = zip_slots(I, args)
    return it_result(I, [(I.aig.AND(g, I.truth(s)), x) for g, (x, s) in z])


def it_zip_longest(I, args, kwargs):
    cols = [I.compact(I.elements(a)) for a in args]
    fv = kwargs.get('fillvalue')
    n = max(len(c) for c in cols)
    out = []
    for j in range(n):
        gs = [c[j][0] if j < len(c) else 0 for c in cols]
        vs = [I.ite(g, c[j][1] if j < len(c) else None, fv)
              for g, c in zip(gs, cols)]
        out.append((I.aig.ors(gs), I.mktuple(vs)))
    return it_result(I, out)


def it_tee(I, args, kwargs):
    els = I.elements(args[0])
    n = args[1] if len(args) > 1 else 2
    return I.mktuple([it_result(I, list(els)) for _ in range(n)])


def c_deque(I, args, kwargs):
    if kwargs.get('maxlen') is not None or len(args) > 1:
        raise Unsupported('deque maxlen')
    return SList(I.elements(args[0]) if args else [], 'deque', I.pc)


def c_defaultdict(I, args, kwargs):
    d = SDict(I.pc, args[0] if args else None)
    if len(args) > 1:
        dict_update(I, d, args[1])
    for k, v in kwargs.items():
        I.dict_set(d, k, v)
    return d


def c_counter(I, args, kwargs):
    d = SDict(I.pc, Intrinsic('zero', lambda I, a, k: 0))
    if args:
        for g, x in I.elements(args[0]):
            p = I.extend(I.pc, g)
            if p is None:
                continue
            pc0, I.pc = I.pc, p
            old = dict_get(I, d, x, lambda: 0)
            I.dict_set(d, x, I.binop('add', old, 1))
            I.pc = pc0
    return d


def op_itemgetter(I, args, kwargs):
    ks = list(args)
    if len(ks) == 1:
        return Intrinsic('itemgetter', lambda I, a, k: getitem(I, a[0],
                                                               ks[0]))
    return Intrinsic('itemgetter', lambda I, a, k: I.mktuple(
        [getitem(I, a[0], x) for x in ks]))


def op_attrgetter(I, args, kwargs):
    def get(o, path):
        for p in path.split('.'):
            o = I.getattr(o, p)
        return o
    ks = list(args)
    if len(ks) == 1:
        return Intrinsic('attrgetter', lambda I, a, k: get(a[0], ks[0]))
    return Intrinsic('attrgetter', lambda I, a, k: I.mktuple(
        [get(a[0], x) for x in ks]))


def op_methodcaller(I, args, kwargs):
    n, pre = args[0], list(args[1:])
    return Intrinsic('methodcaller', lambda I, a, k: I.callmethod(
        a[0], n, pre, kwargs))


def cp_copy(I, args, kwargs):
    def one(v):
        t = type(v)
        if t is SList:
            return SList(list(v.slots), v.kind, I.pc)
        if t is SSet:
            return SSet(I.pc, dict(v.m), v.frozen)
        if t is SDict:
            return dict_copy(I, v)
        if t is SObj:
            if v.cls.lookup('__copy__') is not UNSET:
                return I.callmethod(v, '__copy__', [])
            o = SObj(v.cls, I.pc)
            for k, c in v.attrs.items():
                o.attrs[k] = Cell(c.v)
            return o
        if isinstance(v, I.nm.SArray):
            return I.nm.copy(I, v)
        return v
    return I.lift(args[0], one)


def cp_deepcopy(I, args, kwargs):
    memo = {}

    def go(v):
        if id(v) in memo:
            return memo[id(v)]
        t = type(v)
        if t is Union:
            return I.mkunion([(g, go(x)) for g, x in v.alts])
        if t is SList:
            r = SList([], v.kind, I.pc)
            memo[id(v)] = r
            r.slots.extend((g, go(x)) for g, x in v.slots)
            return r
        if t is SSet:
            r = SSet(I.pc, {}, v.frozen)
            for k, g in v.m.items():
                r.m[I.key(go(I.unkey(k)))] = g
            return r
        if t is SDict:
            r = SDict(I.pc, v.factory)
            memo[id(v)] = r
            for k, (g, x) in v.m.items():
                r.m[I.key(go(I.unkey(k)))] = [g, go(x)]
            return r
        if t is SObj:
            o = SObj(v.cls, I.pc)
            memo[id(v)] = o
            for k, c in v.attrs.items():
                o.attrs[k] = Cell(go(c.v) if c.v is not UNSET else UNSET)
            return o
        if isinstance(v, I.nm.SArray):
            return I.nm.copy(I, v)
        return v
    return go(args[0])


# ----------------------------------------------------------------------
# math
# ----------------------------------------------------------------------
def math_fn(name):
    real = getattr(math, name)

    def f(I, args, kwargs):
        def go(done, todo):
            if not todo:
                if any(type(a) is SNum for a in done):
                    return I.nm.math_call(I, name, done)
                try:
                    return raise_native(I, real(*done))
                except Exception as e:
                    throw_native(I, e)
            a = todo[0]
            if isinstance(a, I.nm.SArray) and a.a.size == 1:
                a = a.a.flat[0].v
            if type(a) is SBool:
                a = I.boolint(a)
            if type(a) is Union and all(type(x) is SNum or isinstance(
                    x, NUMERIC) for g, x in a.alts) and I.has_num(a):
                pass
            return I.lift(a, lambda x: go(done + [x], todo[1:]))
        return go([], list(args))
    return f


def m_prod(I, args, kwargs):
    return numeric_fold(I, 'mul', I.elements(args[0]),
                        kwargs.get('start', 1))


def m_fsum(I, args, kwargs):
    return numeric_fold(I, 'add', I.elements(args[0]), 0.0)


def m_dist(I, args, kwargs):
    z = zip_slots(I, args)
    acc = 0.0
    for g, (x, y) in z:
        d = I.binop('sub', x, y)
        acc = I.binop('add', acc, I.binop('mul', d, d))
    return I.nm.math_call(I, 'sqrt', [acc])


def m_hypot(I, args, kwargs):
    acc = 0.0
    for x in args:
        acc = I.binop('add', acc, I.binop('mul', x, x))
    return I.nm.math_call(I, 'sqrt', [acc])


def m_isclose(I, args, kwargs):
    try:
        return math.isclose(*[lower(I, a) for a in args],
                            **{k: lower(I, v) for k, v in kwargs.items()})
    except NotConcrete:
        pass
    a, b = args
    rel = kwargs.get('rel_tol', 1e-9)
    ab = kwargs.get('abs_tol', 0.0)
    d = b_abs(I, [I.binop('sub', a, b)], {})
    m = minmax(I, [b_abs(I, [a], {}), b_abs(I, [b], {})], {}, 'max')
    m = minmax(I, [I.binop('mul', rel, m), ab], {}, 'max')
    return I.compare('le', d, m)


# ----------------------------------------------------------------------
# modules
# ----------------------------------------------------------------------
def native_module(I, name):
    m = I.modproxy.get(name)
    if m is not None:
        return m
    top = name.split('.')[0]
    if top in ('matplotlib', 'mpl_toolkits', 'pandas', 'scipy'):
        m = NMod(name, {}, stub=True)
    elif name in ('warnings', 'logging', 'sys', 'os', 'time', 'pathlib',
                  'os.path', 'random', 'textwrap', 'inspect', 'datetime',
                  'tempfile', 'gc', 'weakref'):
        m = NMod(name, {}, stub=True)
        if name == 'os.path':
            pass
    else:
        try:
            real = importlib.import_module(name)
        except ImportError:
            I.throw(ExcVal(ModuleNotFoundError, (
                'No module named %r' % name,)))
        m = NMod(name, {}, real)
    I.modproxy[name] = m
    return m


def install(I):
    B = I.builtins
    for k in dir(_b):
        v = getattr(_b, k)
        if isinstance(v, type) and issubclass(v, BaseException):
            B[k] = v
    B.update({'True': True, 'False': False, 'None': None,
              'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis,
              '__name__': '__builtins__', '__debug__': True})

    def reg(name, f, raw=None):
        B[name] = Intrinsic(name, f, raw)
    for name, f in dict(
            len=b_len, isinstance=b_isinstance, issubclass=b_issubclass,
            sum=b_sum, range=b_range, iter=b_iter, next=b_next,
            list=slist(I, 'list'), tuple=slist(I, 'tuple'), set=sset(False),
            frozenset=sset(True), dict=b_dict, sorted=b_sorted,
            reversed=b_reversed, enumerate=b_enumerate, zip=b_zip,
            map=b_map, filter=b_filter, int=b_int, float=b_float, abs=b_abs,
            round=b_round, getattr=b_getattr, setattr=b_setattr,
            hasattr=b_hasattr, delattr=b_delattr, type=b_type,
            callable=b_callable, id=b_id, hash=b_hash, print=b_print,
            divmod=b_divmod, pow=b_pow, str=b_str, slice=b_slice,
            vars=b_vars, object=b_object, format=b_format).items():
        reg(name, f)
    reg('min', lambda I, a, k: minmax(I, a, k, 'min'))
    reg('max', lambda I, a, k: minmax(I, a, k, 'max'))
    reg('bool', lambda I, a, k: I.mkbool(I.truth(a[0])) if a else False)
    reg('repr', lambda I, a, k: to_str(I, a[0], 'repr'))
    reg('super', lambda I, a, k: ISuper(*a), super_raw)
    reg('property', lambda I, a, k: IProperty(
        *(list(a) + [None] * (3 - len(a))), **{}) if not k else
        IProperty(k.get('fget', a[0] if a else None), k.get('fset'),
                  k.get('fdel')))
    reg('staticmethod', lambda I, a, k: IStatic(a[0]))
    reg('classmethod', lambda I, a, k: IClassMethod(a[0]))
    for k in ('ord', 'chr', 'bin', 'hex', 'oct', 'ascii', 'complex',
              'bytes'):
        B[k] = getattr(_b, k)
    B['any'] = anyall('any')
    B['all'] = anyall('all')
    B['open'] = Intrinsic('open', lambda I, a, k: (_ for _ in ()).throw(
        Unsupported('open()')))

    def mod(name, ns, real=None):
        I.modproxy[name] = NMod(name, {
            k: (Intrinsic(k, v) if callable(v) and not isinstance(
                v, (Intrinsic, type, Stub)) else v)
            for k, v in ns.items()}, real)
    mod('functools', dict(
        reduce=f_reduce, partial=f_partial, lru_cache=f_lru_cache,
        cache=f_lru_cache, wraps=f_wraps, cached_property=f_cached_property,
        ))
    mod('itertools', dict(
        combinations=it_combinations, permutations=it_permutations,
        product=it_product, chain=it_chain, islice=it_islice,
        count=it_count, repeat=it_repeat, accumulate=it_accumulate,
        pairwise=it_pairwise, starmap=it_starmap, takewhile=it_takewhile,
        dropwhile=lambda I, a, k: it_takewhile(I, a, k, True),
        compress=it_compress, zip_longest=it_zip_longest, tee=it_tee,
        cycle=it_cycle,
        filterfalse=lambda I, a, k: b_filter(I, a, k, True)))
    mod('collections', dict(
        deque=c_deque, defaultdict=c_defaultdict, Counter=c_counter,
        OrderedDict=b_dict, namedtuple=c_namedtuple), collections)
    rec = lambda n: lambda I, a, k: I.call(  # noqa: E731
        I.load('engine.records').ns[n].v, a, k)
    mod('dataclasses', dict(
        dataclass=d_dataclass, field=lambda I, a, k: FieldSpec(k),
        replace=rec('replace'), asdict=rec('asdict'), astuple=rec('values')))
    for n in ('records', 'np_extra', 'it_extra'):
        I.paths['engine.' + n] = os.path.join(os.path.dirname(
            os.path.abspath(__file__)), 'prelude', n + '.py')
    ops = {}
    for n, o in (('and_', 'and'), ('or_', 'or'), ('xor', 'xor'),
                 ('add', 'add'), ('sub', 'sub'), ('mul', 'mul'),
                 ('truediv', 'truediv'), ('floordiv', 'floordiv'),
                 ('mod', 'mod'), ('pow', 'pow')):
        ops[n] = (lambda o: lambda I, a, k: I.binop(o, a[0], a[1]))(o)
    for n, o in (('iand', 'and'), ('ior', 'or'), ('ixor', 'xor'),
                 ('iadd', 'add'), ('isub', 'sub')):
        ops[n] = (lambda o: lambda I, a, k: I.inplace(o, a[0], a[1]))(o)
    for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        ops[n] = (lambda o: lambda I, a, k: I.compare(o, a[0], a[1]))(n)
    ops.update(
        itemgetter=op_itemgetter, attrgetter=op_attrgetter,
        methodcaller=op_methodcaller,
        contains=lambda I, a, k: I.mkbool(I.contains(a[0], a[1])),
        getitem=lambda I, a, k: getitem(I, a[0], a[1]),
        not_=lambda I, a, k: I.mkbool(I.truth(a[0]) ^ 1),
        truth=lambda I, a, k: I.mkbool(I.truth(a[0])),
        is_=lambda I, a, k: I.mkbool(I.is_(a[0], a[1])),
        is_not=lambda I, a, k: I.mkbool(I.is_(a[0], a[1]) ^ 1),
        neg=lambda I, a, k: I.unary(ast.USub, a[0]),
        pos=lambda I, a, k: a[0],
        abs=lambda I, a, k: I.call(B['abs'], a, {}),
        invert=lambda I, a, k: I.unary(ast.Invert, a[0]),
        inv=lambda I, a, k: I.unary(ast.Invert, a[0]),
        concat=lambda I, a, k: I.binop('add', a[0], a[1]),
        setitem=lambda I, a, k: setitem(I, a[0], a[1], a[2]),
        countOf=lambda I, a, k: I.call(B['sum'], [[
            I.mkbool(I.eq(x, a[1])) for x in I.dense(a[0])]], {}))
    mod('operator', ops)
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow',
              'and', 'or', 'xor'):
        f = ops[n + '_' if n in ('and', 'or') else n]
        DUNDER['__%s__' % n] = f
        DUNDER['__r%s__' % n] = (lambda f: lambda I, a, k: f(
            I, [a[1], a[0]], k))(f)
    for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'neg', 'pos', 'abs',
              'invert', 'contains', 'getitem', 'setitem'):
        DUNDER['__%s__' % n] = ops[n]
    for n in ('len', 'iter', 'bool', 'float', 'int', 'round'):
        DUNDER['__%s__' % n] = (lambda n: lambda I, a, k: I.call(
            B[n], a, {}))(n)
    mod('copy', dict(copy=cp_copy, deepcopy=cp_deepcopy))
    mod('warnings', dict(
        warn=lambda I, a, k: None, simplefilter=lambda I, a, k: None,
        filterwarnings=lambda I, a, k: None,
        catch_warnings=lambda I, a, k: NullCtx()))
    I.modproxy['warnings'].stub = True
    mod('contextlib', dict(
        suppress=lambda I, a, k: Suppress(SList(
            [(1, x) for x in a], 'tuple', I.pc)),
        contextmanager=cl_contextmanager,
        nullcontext=lambda I, a, k: NullCtx(*a)))
    mod('types', dict(
        MappingProxyType=lambda I, a, k: a[0],
        SimpleNamespace=lambda I, a, k: I.call(
            I.load('engine.records').ns['Namespace'].v, a, k)))
    mod('abc', dict(abstractmethod=lambda I, a, k: a[0], ABC=Stub('ABC'),
                    ABCMeta=Stub('ABCMeta')))
    mns = {}
    for k in dir(math):
        if k.startswith('_'):
            continue
        v = getattr(math, k)
        mns[k] = Intrinsic('math.' + k, math_fn(k)) if callable(v) else v
    mns['prod'] = Intrinsic('math.prod', m_prod)
    mns['fsum'] = Intrinsic('math.fsum', m_fsum)
    mns['dist'] = Intrinsic('math.dist', m_dist)
    mns['hypot'] = Intrinsic('math.hypot', m_hypot)
    mns['isclose'] = Intrinsic('math.isclose', m_isclose)
    I.modproxy['math'] = NMod('math', mns)
    tns = {}
    for k in dir(typing):
        if not k.startswith('_'):
            tns[k] = getattr(typing, k)
    tns['cast'] = Intrinsic('cast', lambda I, a, k: a[1])
    tns['NamedTuple'] = Stub('NamedTuple')
    tns['Generic'] = Stub('Generic')
    tns['Protocol'] = Stub('Protocol')
    tns['TYPE_CHECKING'] = False
    tns['TypeVar'] = Intrinsic('TypeVar', lambda I, a, k: Stub('TypeVar'))
    tns['overload'] = Intrinsic('overload', lambda I, a, k: a[0])
    tns['final'] = tns['overload']
    tns['override'] = tns['overload']
    I.modproxy['typing'] = NMod('typing', tns)
    I.modproxy['numbers'] = NMod('numbers', {}, numbers)
    I.modproxy['fractions'] = NMod('fractions', {'Fraction': Fraction})
