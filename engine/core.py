"""Symbolic values and path conditions for the state-merging executor."""
from fractions import Fraction
import z3
from aig import Aig, FALSE, TRUE, AND, SolverUnknown


class DeadPath(Exception):
    """the current path condition has no continuation here"""


class Unsupported(Exception):
    """the real code uses something the executor cannot encode"""


class MixedShapes(Unsupported):
    """a numpy function on a value that is one of several arrays"""


class BoundExceeded(Exception):
    pass


class _Unset:
    def __repr__(self):
        return 'UNSET'


UNSET = _Unset()


class SBool:
    __slots__ = ('lit',)

    def __init__(self, lit):
        self.lit = lit

    def __repr__(self):
        return 'SBool(%d)' % self.lit


class Union:
    """finite case distinction: list of (literal, leaf value).  Sums of
    literals also carry their linear form and are expanded on demand"""
    __slots__ = ('_alts', 'lin', 'core')

    def __init__(self, alts, lin=None, core=None):
        self._alts = alts
        self.lin = lin            # (constant, {even literal: coefficient})
        self.core = core

    @property
    def alts(self):
        a = self._alts
        if a is None:
            a = self._alts = self.core.expand(self.lin)
        return a

    def __repr__(self):
        return 'Union(%r)' % (self.alts,)


class SNum:
    """symbolic real number"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SNum(%s)' % self.e


class Opaque:
    """a value that only flows into messages"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=UNSET):
        self.v = v


class PC:
    """path condition: a set of conjunct literals"""
    __slots__ = ('conj', 'lit', '_ext', '_rel')

    def __init__(self, conj, lit):
        self.conj = conj
        self.lit = lit
        self._ext = {}
        self._rel = {}


class Kill:
    __slots__ = ('kind', 'target', 'pc', 'val')

    def __init__(self, kind, target, pc, val=None):
        self.kind, self.target, self.pc, self.val = kind, target, pc, val


class SObj:
    __slots__ = ('cls', 'attrs', 'birth', 'oid')
    counter = 0

    def __init__(self, cls, birth):
        self.cls = cls
        self.attrs = {}
        self.birth = birth
        SObj.counter += 1
        self.oid = SObj.counter

    def __repr__(self):
        return '<%s#%d>' % (self.cls.name, self.oid)


class SList:
    """guarded sequence; kind is 'list', 'tuple' or 'deque'"""
    __slots__ = ('slots', 'kind', 'birth')

    def __init__(self, slots, kind, birth):
        self.slots = slots        # list of (guard, value)
        self.kind = kind
        self.birth = birth

    def dense(self):
        return all(s[0] == 1 for s in self.slots)

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.slots)


class SSet:
    __slots__ = ('m', 'birth', 'frozen')

    def __init__(self, birth, m=None, frozen=False):
        self.m = m if m is not None else {}     # key -> guard
        self.birth = birth
        self.frozen = frozen

    def __repr__(self):
        return '<set %r>' % (self.m,)


class SDict:
    __slots__ = ('m', 'birth', 'factory', 'owner', 'log')

    def __init__(self, birth, factory=None, owner=None):
        self.log = None       # insertions [key, guard], where the order of
        #                       m is not the same on all paths
        self.owner = owner    # the object whose __dict__ this is
        self.m = {}           # key -> [guard, value]
        self.birth = birth
        self.factory = factory

    def ordered(self):
        """(guard, key, value) in insertion order"""
        if self.log is None:
            return [(e[0], k, e[1]) for k, e in self.m.items()]
        return [(g, k, self.m[k][1]) for k, g in self.log
                if g and k in self.m]


class SIter:
    """iterator: remaining guarded elements (consumed from the front), or a
    not yet started generator"""
    __slots__ = ('lst', 'thunk', 'lazy', 'birth', 'un')

    def __init__(self, lst=None, thunk=None, lazy=None, birth=None):
        self.lst = lst
        self.thunk = thunk
        self.lazy = lazy      # native (possibly infinite) iterator
        self.birth = birth    # of a thunk or a native iterator
        self.un = 1           # where the thunk has not been run yet


class SRange:
    """range with symbolic bounds"""


class ExcVal:
    """an exception instance"""
    __slots__ = ('cls', 'args', 'obj')

    def __init__(self, cls, args=(), obj=None):
        self.cls = cls        # native exception class or IClass
        self.args = args
        self.obj = obj

    def __repr__(self):
        return 'Exc(%s, %r)' % (getattr(self.cls, '__name__',
                                        getattr(self.cls, 'name', '?')),
                                self.args)


class IFunction:
    __slots__ = ('name', 'node', 'module', 'frame', 'defaults', 'kwdefaults',
                 'cls', 'info', 'attrs', 'qualname')

    def __init__(self, name, node, module, frame, defaults, kwdefaults, cls,
                 info, qualname):
        self.name, self.node, self.module, self.frame = \
            name, node, module, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls, self.info = cls, info
        self.attrs = {}
        self.qualname = qualname

    def __repr__(self):
        return '<function %s>' % self.qualname


class BoundMethod:
    __slots__ = ('f', 'self')

    def __init__(self, f, self_):
        self.f, self.self = f, self_

    def __eq__(self, o):
        return isinstance(o, BoundMethod) and o.f is self.f and \
            o.self is self.self

    def __hash__(self):
        return hash((id(self.f), id(self.self)))


class BuiltinMethod:
    """method of a modelled container"""
    __slots__ = ('name', 'self')

    def __init__(self, name, self_):
        self.name, self.self = name, self_


class Intrinsic:
    """python function f(interp, args, kwargs) implemented by the executor"""
    __slots__ = ('name', 'f', 'raw')

    def __init__(self, name, f, raw=None):
        self.name, self.f = name, f
        self.raw = raw

    def __repr__(self):
        return '<intrinsic %s>' % self.name


class IClass:
    __slots__ = ('name', 'bases', 'ns', 'mro', 'module', 'native_base',
                 'qualname', 'ann', 'rec')

    def __init__(self, name, bases, module):
        self.name = name
        self.rec = None
        self.ann = []         # names annotated in the class body
        self.qualname = name
        self.bases = bases
        self.ns = {}          # name -> Cell
        self.module = module
        self.native_base = None
        seqs = []
        for b in bases:
            if isinstance(b, IClass):
                seqs.append(list(b.mro))
                if b.native_base is not None:
                    self.native_base = b.native_base
            elif isinstance(b, type) and b is not object:
                self.native_base = b
        seqs.append([b for b in bases if isinstance(b, IClass)])
        self.mro = [self] + self._merge(seqs)

    @staticmethod
    def _merge(seqs):
        res = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            res.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def lookup(self, name):
        v = UNSET
        for c in self.mro:
            e = c.ns.get(name)
            if e is None or e.v is UNSET:
                continue
            if v is UNSET:
                v = e.v
            else:      # set on some paths only: the parent's elsewhere
                v = merge_unset(v, e.v)
            if type(v) is not Union or not any(
                    x is UNSET for g, x in v.alts):
                return v
        return v

    def __repr__(self):
        return '<class %s>' % self.name


def merge_unset(v, w):
    alts = [(g, x) for g, x in v.alts if x is not UNSET]
    for g, x in v.alts:
        if x is UNSET:
            alts += [(IClass.AND(g, h), y) for h, y in (
                w.alts if type(w) is Union else [(1, w)])]
    return Union(alts)


class IModule:
    __slots__ = ('name', 'ns', 'path', 'birth')

    def __init__(self, name, path, birth):
        self.name, self.path = name, path
        self.ns = {}
        self.birth = birth


class IProperty:
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class IStatic:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class IClassMethod:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ISuper:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Hook:
    """what a yield does in a context manager"""

    def __init__(self, run):
        self.run = run


class Frame:
    __slots__ = ('vars', 'locals', 'parent', 'module', 'birth', 'func',
                 'yields', 'globals_decl', 'nonlocals', 'cls_ns', 'excstack',
                 'isclass')

    def __init__(self, module, parent, birth, func=None, locals_=None,
                 nonlocals=(), globals_decl=()):
        self.vars = {}
        self.locals = locals_
        self.parent = parent
        self.module = module
        self.birth = birth
        self.func = func
        self.yields = None
        self.nonlocals = nonlocals
        self.globals_decl = globals_decl
        self.cls_ns = None
        self.excstack = []
        self.isclass = False


NUMERIC = (int, float, Fraction)


def to_z3(v):
    if isinstance(v, SNum):
        return v.e
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in real arithmetic')
        return z3.RealVal(str(Fraction(v)))
    raise Unsupported('to_z3 %r' % (v,))


class Core:
    """literals, path conditions, merging"""

    def __init__(self, seed=1, width=256):
        self.aig = Aig(seed)
        self.aig.seed_patterns(width)
        self._pcs = {}
        self._canon = {}
        self._expand = {}
        self.root = self._pc(frozenset())
        self.pc = self.root
        self.kills = []
        self.prune_sat = True
        self.nfeas = 0

    # ---- path conditions ---------------------------------------------
    def _pc(self, conj):
        p = self._pcs.get(conj)
        if p is None:
            p = self._pcs[conj] = PC(conj, self.aig.ands(conj))
        return p

    def _leaves(self, lit, limit=24):
        """flatten a positive AND into conjunct literals"""
        aig = self.aig
        out, st = [], [lit]
        while st:
            l = st.pop()
            n = l >> 1
            if not (l & 1) and aig.kind[n] == AND and n and len(out) < limit:
                st.append(aig.f0[n])
                st.append(aig.f1[n])
            else:
                out.append(l)
        return out

    def simp(self, pc, lit):
        """simplify lit under pc (cheap)"""
        if lit <= 1:
            return lit
        c = pc.conj
        if not c:
            return lit
        if lit in c:
            return 1
        if lit ^ 1 in c:
            return 0
        aig = self.aig
        n = lit >> 1
        if aig.kind[n] != AND:
            return lit
        leaves = self._leaves(lit & ~1)
        keep = []
        for l in leaves:
            if l in c:
                continue
            if l ^ 1 in c:
                return 0 ^ (lit & 1)
            keep.append(l)
        if len(keep) == len(leaves):
            r = lit
        else:
            r = aig.ands(keep) ^ (lit & 1)
            if r in c:
                return 1
            if r ^ 1 in c:
                return 0
        return r

    def extend(self, pc, lit):
        """pc and lit, or None when contradictory (cheap check only)"""
        if lit == 1:
            return pc
        if lit == 0:
            return None
        r = pc._ext.get(lit, 0)
        if r != 0:
            return r
        l = self.simp(pc, lit)
        if l == 1:
            r = pc
        elif l == 0:
            r = None
        else:
            new = set(pc.conj)
            new.update(self._leaves(l))
            if any(x ^ 1 in new for x in new):
                r = None
            else:
                r = self._pc(frozenset(new))
                if r.lit == 0:
                    r = None
        pc._ext[lit] = r
        return r

    def rel(self, pc, birth):
        """literal equivalent to pc given birth"""
        if pc is birth:
            return 1
        r = pc._rel.get(birth)
        if r is None:
            r = pc._rel[birth] = self.aig.ands(pc.conj - birth.conj)
        return r

    def relhere(self, birth):
        return self.rel(self.pc, birth)

    def feasible(self, lit):
        return self.aig.feasible(lit)

    def split(self, lit):
        """(pc with lit or None, pc without lit or None)"""
        pc = self.pc
        l = self.simp(pc, lit)
        if l == 1:
            return pc, None
        if l == 0:
            return None, pc
        p1 = self.extend(pc, l)
        if p1 is not None and not self.feasible(p1.lit):
            p1 = None
        if p1 is None:
            return None, pc
        p0 = self.extend(pc, l ^ 1)
        if p0 is not None and not self.feasible(p0.lit):
            p0 = None
        if p0 is None:
            return pc, None
        return p1, p0

    def minus(self, pc0, mark):
        """pc0 without the unresolved kills recorded since mark"""
        p = pc0
        for k in self.kills[mark:]:
            if p is None:
                return None
            l = self.rel(k.pc, pc0)
            p = self.extend(p, l ^ 1)
        return p

    def join(self, pc0, mark, alive):
        alive = [a for a in alive if a is not None]
        if not alive:
            raise DeadPath
        if len(alive) == 1:
            self.pc = alive[0]
            return
        if len(self.kills) == mark:
            self.pc = pc0
            return
        p = self.minus(pc0, mark)
        if p is None:
            raise DeadPath
        self.pc = p

    # ---- booleans -----------------------------------------------------
    def mkbool(self, lit):
        if lit == 1:
            return True
        if lit == 0:
            return False
        return SBool(lit)

    # ---- unions -------------------------------------------------------
    @staticmethod
    def altkey(v):
        t = type(v)
        if t is bool or t is SBool:
            return 'bool'
        if t is SNum:
            return 'num'
        if t is int or t is str:
            return (t, v)
        if v is None:
            return None
        if t is float:
            return (t, v) if v == v else (t, 'nan')
        if t is Fraction:
            return (t, v)
        if t is BoundMethod:
            return v
        return id(v)

    def mkunion(self, alts):
        """alts: list of (lit, value) exclusive; flattens and merges"""
        aig = self.aig
        out = {}
        for g, v in alts:
            if g == 0:
                continue
            if type(v) is Union:
                for h, w in v.alts:
                    gh = aig.AND(g, h)
                    if gh:
                        self._addalt(out, gh, w)
            else:
                self._addalt(out, g, v)
        self._fuse(out)
        vals = list(out.values())
        if not vals:
            self.dead()
        if len(vals) == 1:
            g, v = vals[0]
            return v
        res = []
        for g, v in vals:
            if g == 1:
                return v
            res.append((g, v))
        return Union(res)

    def _addalt(self, out, g, v):
        k = self.altkey(v)
        o = out.get(k)
        if o is None:
            out[k] = (g, v)
            return
        aig = self.aig
        og, ov = o
        ng = aig.OR(og, g)
        if k == 'bool':
            a = ov.lit if type(ov) is SBool else int(ov)
            b = v.lit if type(v) is SBool else int(v)
            # value where og: a, where g: b
            l = aig.ITE(g, b, a)
            out[k] = (ng, self.mkbool(l))
        elif k == 'num':
            if ov.e.eq(v.e):
                out[k] = (ng, ov)
            else:
                out[k] = (ng, SNum(z3.If(aig.to_z3(g), v.e, ov.e)))
        else:
            out[k] = (ng, ov)

    def _fuse(self, out):
        """numbers next to symbolic reals are folded into one real; tuples
        of equal length are merged componentwise"""
        if 'num' in out and len(out) > 1:
            for k in list(out):
                if k != 'num' and isinstance(k, tuple) and \
                        k[0] in (int, float, Fraction):
                    g, v = out[k]
                    try:
                        e = to_z3(v)
                    except Unsupported:
                        continue
                    del out[k]
                    og, ov = out['num']
                    out['num'] = (self.aig.OR(og, g), SNum(
                        z3.If(self.aig.to_z3(g), e, ov.e)))
        if len(out) > 1:
            tups = {}
            for k, (g, v) in out.items():
                if type(v) is SList and v.kind == 'tuple' and v.dense():
                    tups.setdefault(len(v.slots), []).append(k)
            for ln, ks in tups.items():
                if len(ks) > 1:
                    g0, v0 = out.pop(ks[0])
                    vals = [s[1] for s in v0.slots]
                    for k in ks[1:]:
                        g, v = out.pop(k)
                        vals = [self.ite(g, s[1], x)
                                for s, x in zip(v.slots, vals)]
                        g0 = self.aig.OR(g0, g)
                    t = SList([(1, x) for x in vals], 'tuple', self.root)
                    out[id(t)] = (g0, t)

    def ite(self, g, a, b):
        if g == 1 or a is b:
            return a
        if g == 0:
            return b
        ta, tb = type(a), type(b)
        if (ta is SBool or ta is bool) and (tb is SBool or tb is bool):
            la = a.lit if ta is SBool else int(a)
            lb = b.lit if tb is SBool else int(b)
            return self.mkbool(self.aig.ITE(g, la, lb))
        if ta is tb and (ta is int or ta is str or ta is float) and a == b:
            return a
        if ta is SNum and tb is SNum:
            if a.e.eq(b.e):
                return a
            return SNum(z3.If(self.aig.to_z3(g), a.e, b.e))
        return self.mkunion([(g, a), (g ^ 1, b)])

    def alts(self, v):
        if type(v) is Union:
            return v.alts
        return [(1, v)]

    def prune(self, v):
        """alternatives of v that are possible under the current pc"""
        if type(v) is not Union:
            return [(1, v)]
        pc = self.pc
        out = []
        for g, x in v.alts:
            p = self.extend(pc, g)
            if p is None:
                continue
            if p is pc:
                return [(1, x)]
            if not self.feasible(p.lit):
                continue
            out.append((g, x))
        if not out:
            self.dead()
        if len(out) == 1:
            return [(1, out[0][1])]
        return out

    def dead(self):
        """a value without alternatives: fine where the path is impossible,
        otherwise the value of an element that is not there was used"""
        if self.feasible(self.pc.lit):
            raise Unsupported('value of an absent element')
        raise DeadPath

    def pruned(self, v):
        if type(v) is not Union:
            return v
        a = self.prune(v)
        if len(a) == 1:
            return a[0][1]
        if len(a) == len(v.alts):
            return v
        return Union(a)

    def cases(self, alts, fn):
        """run fn(value) under each alternative, merge the results"""
        if len(alts) == 1:
            return fn(alts[0][1])
        pc0, mark = self.pc, len(self.kills)
        res, alive = [], []
        for g, v in alts:
            p = self.extend(pc0, g)
            if p is None:
                continue
            self.pc = p
            try:
                r = fn(v)
            except DeadPath:
                continue
            alive.append(self.pc)
            res.append((g, r))
        self.join(pc0, mark, alive)
        if len(res) == 1:
            return res[0][1]
        return self.mkunion(res)

    def lift(self, v, fn):
        if type(v) is Union:
            return self.cases(self.prune(v), fn)
        return fn(v)

    def branch(self, lit, fthen, felse):
        p1, p0 = self.split(lit)
        if p0 is None:
            return fthen()
        if p1 is None:
            return felse()
        pc0, mark = self.pc, len(self.kills)
        l = self.simp(pc0, lit)
        v1 = v0 = None
        self.pc = p1
        try:
            v1 = fthen()
            a1 = self.pc
        except DeadPath:
            a1 = None
        self.pc = p0
        try:
            v0 = felse()
            a0 = self.pc
        except DeadPath:
            a0 = None
        self.join(pc0, mark, [a1, a0])
        if a1 is None:
            return v0
        if a0 is None:
            return v1
        return self.ite(l, v1, v0)

    # ---- exceptions ----------------------------------------------------
    def raise_if(self, lit, exc):
        """raise exc on the part of the current pc where lit holds"""
        if lit == 0:
            return
        p1, p0 = self.split(lit)
        if p1 is None:
            return
        self.kills.append(Kill('raise', None, p1, exc))
        if p0 is None:
            raise DeadPath
        self.pc = p0

    def throw(self, exc):
        self.kills.append(Kill('raise', None, self.pc, exc))
        raise DeadPath

    # ---- counting -------------------------------------------------------
    def count(self, lits):
        """one-hot list: res[k] <=> exactly k of lits hold"""
        aig = self.aig
        res = [1]
        for l in lits:
            if l == 0:
                continue
            if l == 1:
                res = [0] + res
                continue
            n = [0] * (len(res) + 1)
            nl = l ^ 1
            for k, r in enumerate(res):
                if r == 0:
                    continue
                n[k] = aig.OR(n[k], aig.AND(r, nl))
                n[k + 1] = aig.OR(n[k + 1], aig.AND(r, l))
            res = n
        return res

    def count_val(self, lits):
        return self.linear(0, [(l, 1) for l in lits])

    # ---- linear forms over literals ---------------------------------------
    def canon(self, l):
        """conjunctions in a canonical association"""
        r = self._canon.get(l)
        if r is None:
            r = l
            if l > 1 and not l & 1 and self.aig.kind[l >> 1] == AND:
                ls = self._leaves(l, 16)
                if len(ls) < 16:
                    r = self.aig.ands(ls)
            self._canon[l] = r
        return r

    def linear(self, const, terms):
        """value of const + sum of coefficient * literal"""
        m = {}
        for l, c in terms:
            if l & 1:
                if l == 1:
                    const += c
                    continue
                const += c
                l, c = l ^ 1, -c
            elif l == 0:
                continue
            l = self.canon(l)
            if l & 1:
                const += c
                l, c = l ^ 1, -c
            if l == 0:
                continue
            m[l] = m.get(l, 0) + c
        m = {l: c for l, c in m.items() if c}
        if not m:
            return const
        return Union(None, (const, m), self)

    def linof(self, v):
        """linear form of an integer value, or None"""
        t = type(v)
        if t is Union:
            return v.lin
        if t is int:
            return (v, {})
        if t is bool:
            return (int(v), {})
        if t is SBool:
            if v.lit & 1:
                return (1, {v.lit ^ 1: -1})
            return (0, {v.lit: 1})
        return None

    def lin_scale(self, lin, k):
        return (lin[0] * k, {l: c * k for l, c in lin[1].items()})

    def lin_add(self, a, b, sign=1):
        return self.linear(a[0] + sign * b[0], list(a[1].items()) + [
            (l, sign * c) for l, c in b[1].items()])

    def lin_guard(self, lin, g):
        """linear form of (lin if g else 0)"""
        aig = self.aig
        return [(g, lin[0])] + [(aig.AND(g, l), c)
                                for l, c in lin[1].items()]

    def expand(self, lin):
        const, m = lin
        key = (const, frozenset(m.items()))
        r = self._expand.get(key)
        if r is None:
            vals = self.valmap(sorted(m.items()))
            r = [(g, const + v) for v, g in sorted(vals.items())]
            self._expand[key] = r
        return r

    def valmap(self, items):
        """value -> literal for a sum of weighted literals"""
        aig = self.aig
        if len(items) == 0:
            return {0: 1}
        if len(items) == 1:
            l, c = items[0]
            return {0: l ^ 1, c: l}
        vals = {0: 1}
        for l, c in items:
            n = {}
            for v, g in vals.items():
                a = aig.AND(g, l ^ 1)
                if a:
                    n[v] = aig.OR(n.get(v, 0), a)
                a = aig.AND(g, l)
                if a:
                    n[v + c] = aig.OR(n.get(v + c, 0), a)
            vals = n
        return vals

    def lin_compare(self, op, a, b):
        """literal of a op b for linear forms"""
        aig = self.aig
        d = self.lin_add(a, b, -1)
        if type(d) is int:
            return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0,
                        'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[op])
        const, m = d.lin
        pos = self.valmap(sorted((l, c) for l, c in m.items() if c > 0))
        neg = self.valmap(sorted((l, -c) for l, c in m.items() if c < 0))
        out = []
        neg_not = op in ('ne', 'gt', 'ge')
        base = {'ne': 'eq', 'gt': 'le', 'ge': 'lt'}.get(op, op)
        for x, g in pos.items():
            for y, h in neg.items():
                v = const + x - y
                if (v == 0 if base == 'eq' else v < 0 if base == 'lt'
                        else v <= 0):
                    out.append(aig.AND(g, h))
        return aig.ors(out) ^ int(neg_not)
