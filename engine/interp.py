"""State-merging symbolic executor for Python source (AST level)."""
import ast
import builtins as _b
import collections
import collections.abc
import fractions
import functools
import itertools
import math
import operator
import os
import random
import time
import types
from fractions import Fraction
import z3
from core import *
from core import _Unset
from aig import SolverUnknown

BINOPS = {ast.Add: ('add', operator.add), ast.Sub: ('sub', operator.sub),
          ast.Mult: ('mul', operator.mul),
          ast.Div: ('truediv', operator.truediv),
          ast.FloorDiv: ('floordiv', operator.floordiv),
          ast.Mod: ('mod', operator.mod), ast.Pow: ('pow', operator.pow),
          ast.BitOr: ('or', operator.or_), ast.BitAnd: ('and', operator.and_),
          ast.BitXor: ('xor', operator.xor),
          ast.LShift: ('lshift', operator.lshift),
          ast.RShift: ('rshift', operator.rshift),
          ast.MatMult: ('matmul', operator.matmul)}
OPFN = {n: f for n, f in BINOPS.values()}
CMPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le',
        ast.Gt: 'gt', ast.GtE: 'ge'}
CMPFN = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt,
         'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}
REFL = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge',
        'ge': 'le'}

SCALARS = (int, float, str, bool, type(None), Fraction, bytes, complex)


class FuncInfo:
    __slots__ = ('locals', 'nonlocals', 'globals', 'isgen', 'posonly',
                 'args', 'vararg', 'kwonly', 'kwarg')


def target_names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            target_names(e, out)
    elif isinstance(t, ast.Starred):
        target_names(t.value, out)


def analyse(node):
    """local names of a function (or lambda) body"""
    info = FuncInfo()
    a = node.args
    info.posonly = [x.arg for x in a.posonlyargs]
    info.args = info.posonly + [x.arg for x in a.args]
    info.vararg = a.vararg.arg if a.vararg else None
    info.kwonly = [x.arg for x in a.kwonlyargs]
    info.kwarg = a.kwarg.arg if a.kwarg else None
    loc = set(info.args) | set(info.kwonly)
    if info.vararg:
        loc.add(info.vararg)
    if info.kwarg:
        loc.add(info.kwarg)
    nonl, glob = set(), set()
    isgen = [False]

    def walk(n, incomp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d, incomp)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                walk(c, True)
            return
        if isinstance(n, ast.comprehension):
            for c in ast.iter_child_nodes(n):
                if c is not n.target:
                    walk(c, True)
            return
        if isinstance(n, ast.NamedExpr):
            loc.add(n.target.id)
            walk(n.value, incomp)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and \
                isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c, incomp)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s, False)
    info.nonlocals = nonl
    info.globals = glob
    info.locals = loc - nonl - glob
    info.isgen = isgen[0]
    return info


class Lit(ast.expr):
    """an already evaluated expression"""

    def __init__(self, v):
        super().__init__()
        self.v = v


class Interp(Core):

    def __init__(self, paths, seed=1, width=256, unwind=64, depth=200):
        super().__init__(seed, width)
        IClass.AND = self.aig.AND
        self.paths = paths          # module name -> file
        self.modules = {}
        self.unwind = unwind
        self.maxdepth = depth
        self.depth = 0
        self.loops = []
        self.node = None
        self.calls = collections.Counter()    # functions encoded
        self.native_allowed = set()
        self.deadline = None
        self.steps = 0
        self.fs = {}                # virtual files
        self.sources = {}
        self.infos = {}
        self.EV = {getattr(ast, k[2:], Lit): getattr(self, k) for k in dir(self)
                   if k.startswith('e_')}
        self.EX = {getattr(ast, k[2:], Lit): getattr(self, k) for k in dir(self)
                   if k.startswith('x_')}
        import builtins_m
        import numpy_m
        self.bm = builtins_m
        self.nm = numpy_m
        self.models = {}            # native callable -> model
        self.builtins = {}
        self.modproxy = {}
        self.theory = {}
        self.apps = {}
        builtins_m.install(self)
        numpy_m.install(self)

    # ------------------------------------------------------------------
    # modules
    # ------------------------------------------------------------------
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name.startswith(('engine.', 'matplotlib.')) and self.pc is not self.root:
            pc, self.pc = self.pc, self.root
            try:
                return self.load(name)
            finally:
                self.pc = pc
        path = self.paths[name]
        with open(path, encoding='utf8') as f:
            src = f.read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        m = IModule(name, path, self.pc)
        self.modules[name] = m
        m.ns['__name__'] = Cell(name)
        m.ns['__file__'] = Cell(path)
        fr = Frame(m, None, self.pc)
        self.exec_block(tree.body, fr)
        return m

    def import_module(self, name):
        if name in self.paths:
            parts = name.split('.')
            for k in range(1, len(parts)):
                pre = '.'.join(parts[:k])
                # the package root re-exports everything: not executed
                if pre in self.paths and k > 1:
                    self.load(pre)
            m = self.load(name)
            if '.' in name:
                par, last = name.rsplit('.', 1)
                if par in self.modules:
                    self.modules[par].ns[last] = Cell(m)
            return m
        return self.bm.native_module(self, name)

    # ------------------------------------------------------------------
    # names
    # ------------------------------------------------------------------
    def cellwrite(self, cell, v, birth):
        if self.pc is birth:
            cell.v = v
            return
        g = self.rel(self.pc, birth)
        if g == 1:
            cell.v = v
        elif cell.v is not v:
            cell.v = self.ite(g, v, cell.v)

    def frame_of(self, fr, name):
        """the frame (or module) holding variable name for writing"""
        if name in fr.globals_decl:
            return None
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars or (f.locals and name in f.locals):
                    if not f.isclass:
                        return f
                f = f.parent
            raise Unsupported('nonlocal ' + name)
        return fr

    def setname(self, fr, name, v):
        f = self.frame_of(fr, name)
        if f is None or (f.locals is None and not f.isclass):
            ns, birth = fr.module.ns, fr.module.birth
        else:
            ns, birth = f.vars, f.birth
        c = ns.get(name)
        if c is None:
            c = ns[name] = Cell()
        self.cellwrite(c, v, birth)

    def getcell(self, cell, name, kind):
        v = cell.v
        if type(v) is Union:
            if any(x is UNSET for g, x in v.alts):
                bad = self.aig.ors([g for g, x in v.alts if x is UNSET])
                self.raise_if(bad, ExcVal(kind, (
                    'name %r is not defined' % name,)))
                v = self.mkunion([(g, x) for g, x in v.alts
                                  if x is not UNSET])
            pc = self.pc
            if pc.conj:
                # cheap structural pruning only
                keep = []
                for g, x in v.alts if type(v) is Union else ():
                    p = self.extend(pc, g)
                    if p is None:
                        continue
                    if p is pc:
                        return x
                    keep.append((g, x))
                if keep:
                    if len(keep) == 1:
                        return keep[0][1]
                    if len(keep) < len(v.alts):
                        v = Union(keep)
        return v

    def getname(self, fr, name):
        f = fr
        if name in fr.globals_decl:
            f = None
        first = True
        while f is not None:
            if f.isclass and not first:
                f = f.parent
                continue
            c = f.vars.get(name)
            if c is not None and c.v is not UNSET:
                return self.getcell(c, name, UnboundLocalError)
            if f.locals is not None and name in f.locals and not f.isclass:
                self.throw(ExcVal(UnboundLocalError, (
                    'cannot access local variable %r' % name,)))
            f = f.parent
            first = False
        c = fr.module.ns.get(name)
        if c is not None and c.v is not UNSET:
            return self.getcell(c, name, NameError)
        if name in self.builtins:
            return self.builtins[name]
        if name == '__class__' and fr.func is not None:
            return fr.func.cls
        self.throw(ExcVal(NameError, ('name %r is not defined' % name,)))

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def exec_block(self, stmts, fr):
        EX = self.EX
        for s in stmts:
            self.node = s
            self.steps += 1
            if self.deadline and not self.steps & 63 and \
                    time.time() > self.deadline:
                raise BoundExceeded('time budget for symbolic execution')
            h = EX.get(type(s))
            if h is None:
                raise Unsupported('statement %s' % type(s).__name__)
            h(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if fr.isclass and isinstance(s.target, ast.Name) and \
                'ClassVar' not in ast.dump(s.annotation):
            if s.target.id not in fr.cls_ns.ann:
                fr.cls_ns.ann.append(s.target.id)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)][0]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.getname(fr, t.id)
            self.setname(fr, t.id,
                         self.inplace(op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            name = self.mangle(t.attr, fr)
            old = self.getattr(o, name)
            self.setattr(o, name,
                         self.inplace(op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported('augmented assignment target')

    def x_Return(self, s, fr):
        v = None if s.value is None else self.ev(s.value, fr)
        self.kills.append(Kill('return', fr, self.pc, v))
        raise DeadPath

    def x_If(self, s, fr):
        l = self.truth(self.ev(s.test, fr))
        self.branch(l, lambda: self.exec_block(s.body, fr),
                    lambda: self.exec_block(s.orelse, fr))

    def x_Assert(self, s, fr):
        l = self.truth(self.ev(s.test, fr))
        self.raise_if(l ^ 1, ExcVal(AssertionError, ()))

    def x_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and not f.excstack:
                f = f.parent
            if f is None:
                raise Unsupported('bare raise')
            self.throw(f.excstack[-1])
        v = self.ev(s.exc, fr)

        def one(v):
            if isinstance(v, ExcVal):
                self.throw(v)
            if isinstance(v, type) and issubclass(v, BaseException):
                self.throw(ExcVal(v, ()))
            if isinstance(v, IClass):
                self.throw(self.call(v, [], {}))
            if isinstance(v, SObj):
                self.throw(ExcVal(v.cls, (), v))
            self.throw(ExcVal(TypeError, ('exceptions must derive from '
                                          'BaseException',)))
        self.lift(v, one)

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.setname(fr, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.setname(fr, top, self.import_module(top))

    def x_ImportFrom(self, s, fr):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            base = fr.module.name.split('.')
            base = base[:len(base) - s.level] if not \
                fr.module.path.endswith('__init__.py') else \
                base[:len(base) - s.level + 1]
            name = '.'.join(base + ([name] if name else []))
        if '.' not in name and name in self.paths and \
                all(name + '.' + a.name in self.paths for a in s.names):
            # submodules of a package: its root is not executed
            for a in s.names:
                self.setname(fr, a.asname or a.name,
                             self.import_module(name + '.' + a.name))
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                if not isinstance(m, IModule):
                    raise Unsupported('import *')
                for k, c in list(m.ns.items()):
                    if not k.startswith('_'):
                        self.setname(fr, k, c.v)
                continue
            sub = name + '.' + a.name
            if isinstance(m, IModule) and a.name not in m.ns and \
                    sub in self.paths:
                v = self.import_module(sub)
            else:
                v = self.getattr(m, a.name)
            self.setname(fr, a.asname or a.name, v)

    def x_FunctionDef(self, s, fr):
        f = self.mkfunction(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.setname(fr, s.name, v)

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Attribute) and \
                d.attr in ('setter', 'getter', 'deleter'):
            p = self.ev(d.value, fr)
            if isinstance(p, IProperty):
                p = IProperty(p.fget, p.fset, p.fdel)
                setattr(p, {'setter': 'fset', 'getter': 'fget',
                            'deleter': 'fdel'}[d.attr], v)
                return p
        return self.call(self.ev(d, fr), [v], {})

    def mkfunction(self, s, fr):
        info = self.infos.get(s)
        if info is None:
            info = self.infos[s] = analyse(s)
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {}
        for n, d in zip(info.kwonly, s.args.kw_defaults):
            if d is not None:
                kwd[n] = self.ev(d, fr)
        lex = fr
        cls = None
        if fr.isclass:
            cls = fr.cls_ns
            lex = fr.parent
        elif fr.func is not None:
            cls = fr.func.cls
        while lex is not None and lex.isclass:
            lex = lex.parent
        if lex is not None and lex.locals is None:
            lex = None
        name = getattr(s, 'name', '<lambda>')
        q = fr.module.name + '.'
        if fr.isclass:
            q += cls.name + '.'
        elif fr.func is not None:
            q = fr.func.qualname + '.'
        return IFunction(name, s, fr.module, lex, defaults, kwd, cls, info,
                         q + name)

    def x_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        if s.keywords:
            raise Unsupported('class keywords')
        bases = [b for b in bases if b is not object and not (
            isinstance(b, Intrinsic) and b.name == "object")]
        named = any(isinstance(b, self.bm.Stub) and b.path == "NamedTuple"
                    for b in bases)
        for b in bases:
            if isinstance(b, IClass):
                continue
            if isinstance(b, type) and issubclass(b, BaseException):
                continue
            if self.bm.ignorable_base(b):
                continue
            raise Unsupported('base class %r' % (b,))
        bases = [b for b in bases if isinstance(b, (IClass, type))]
        c = IClass(s.name, bases, fr.module)
        cf = Frame(fr.module, fr, self.pc, fr.func, set())
        cf.isclass = True
        cf.cls_ns = c
        cf.vars = c.ns
        self.exec_block(s.body, cf)
        v = c
        if named:
            self.bm.record_class(self, c, True)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.setname(fr, s.name, v)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.getname(fr, t.id)
                self.setname(fr, t.id, UNSET)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.x_Delete(ast.Delete(targets=t.elts), fr)

    # loops --------------------------------------------------------------
    def resolve(self, mark, kind, target):
        """remove kills of this kind and target recorded since mark"""
        out = [k for k in self.kills[mark:]
               if k.kind == kind and k.target is target]
        if out:
            self.kills[mark:] = [k for k in self.kills[mark:]
                                 if not (k.kind == kind and
                                         k.target is target)]
        return out

    def x_Break(self, s, fr):
        self.kills.append(Kill('break', self.loops[-1], self.pc))
        raise DeadPath

    def x_Continue(self, s, fr):
        self.kills.append(Kill('continue', self.loops[-1], self.pc))
        raise DeadPath

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        tok = object()
        pcs, marks = self.pc, len(self.kills)
        dead = False
        try:
            for g, v in self.live_iter(it):
                pc0, mark = self.pc, len(self.kills)
                p1, p0 = self.split(g)
                if p1 is None:
                    continue
                self.pc = p1
                self.loops.append(tok)
                alive = [] if p0 is None else [p0]
                try:
                    if callable(v) and isinstance(v, types.FunctionType):
                        v = v()
                    self.assign(s.target, v, fr)
                    self.exec_block(s.body, fr)
                    alive.append(self.pc)
                except DeadPath:
                    pass
                finally:
                    self.loops.pop()
                conts = self.resolve(mark, 'continue', tok)
                if conts:
                    if not alive and len(conts) == 1 and \
                            len(self.kills) == mark:
                        self.pc = conts[0].pc
                    else:
                        p = self.minus(pc0, mark)
                        if p is None:
                            raise DeadPath
                        self.pc = p
                else:
                    self.join(pc0, mark, alive)
        except DeadPath:
            dead = True
        self.after_loop(s, fr, tok, pcs, marks, dead)

    def after_loop(self, s, fr, tok, pcs, marks, dead):
        end = self.pc
        if s.orelse and not dead:
            try:
                self.exec_block(s.orelse, fr)
                end = self.pc
            except DeadPath:
                dead = True
        brk = self.resolve(marks, 'break', tok)
        if not brk:
            if dead:
                raise DeadPath
            if len(self.kills) == marks:
                self.pc = pcs
            else:
                self.pc = end
            return
        if dead and len(brk) == 1:
            self.pc = brk[0].pc
            return
        p = self.minus(pcs, marks)
        if p is None:
            raise DeadPath
        self.pc = p

    def x_While(self, s, fr):
        tok = object()
        pcs, marks = self.pc, len(self.kills)
        n = 0
        exited = False
        try:
            while True:
                l = self.truth(self.ev(s.test, fr))
                p1, p0 = self.split(l)
                if p1 is None:
                    exited = True
                    break
                if p0 is not None:
                    exited = True
                n += 1
                if n > self.unwind:
                    self.bound('while loop at %s:%d exceeds %d iterations' % (
                        fr.module.name, s.lineno, self.unwind))
                mark = len(self.kills)
                pc0 = self.pc
                self.pc = p1
                self.loops.append(tok)
                alive = False
                try:
                    self.exec_block(s.body, fr)
                    alive = True
                except DeadPath:
                    pass
                finally:
                    self.loops.pop()
                conts = self.resolve(mark, 'continue', tok)
                if conts:
                    if not alive and len(conts) == 1 and \
                            len(self.kills) == mark:
                        self.pc = conts[0].pc
                    else:
                        p = self.minus(p1, mark)
                        if p is None:
                            raise DeadPath
                        self.pc = p
                elif not alive:
                    raise DeadPath
        except DeadPath:
            pass
        if exited:
            # some path left through the condition: rejoin all of them
            p = self.minus(pcs, marks)
            if p is None:
                self.after_loop(s, fr, tok, pcs, marks, True)
                return
            self.pc = p
        self.after_loop(s, fr, tok, pcs, marks, not exited)

    def bound(self, msg):
        raise BoundExceeded(msg)

    # exceptions ---------------------------------------------------------
    def x_Try(self, s, fr):
        if s.finalbody:
            return self.try_finally(s, fr)
        self.try_except(s, fr)

    def exc_matches(self, exc, cls):
        """True/False: does the exception instance match the handler"""
        if cls is None:
            return True
        if isinstance(cls, SList):
            return any(self.exc_matches(exc, c) for g, c in cls.slots)
        ec = exc.cls
        if isinstance(ec, IClass):
            if isinstance(cls, IClass):
                return cls in ec.mro
            return ec.native_base is not None and \
                issubclass(ec.native_base, cls)
        if isinstance(cls, IClass):
            return False
        return issubclass(ec, cls)

    def try_except(self, s, fr):
        pc0, mark = self.pc, len(self.kills)
        alive, late = [], []
        try:
            self.exec_block(s.body, fr)
            a = self.pc
            if s.orelse:
                # exceptions of the else block are not handled here
                m2 = len(self.kills)
                try:
                    self.exec_block(s.orelse, fr)
                    a = self.pc
                finally:
                    late = self.kills[m2:]
                    del self.kills[m2:]
            alive.append(a)
        except DeadPath:
            pass
        raises = [k for k in self.kills[mark:] if k.kind == 'raise']
        if raises:
            rest = [k for k in self.kills[mark:] if k.kind != 'raise']
            todo = raises
            groups = []
            for h in s.handlers:
                self.pc = pc0
                cls = None if h.type is None else self.ev(h.type, fr)
                hit = [k for k in todo if self.exc_matches(k.val, cls)]
                todo = [k for k in todo if not self.exc_matches(k.val, cls)]
                if hit:
                    groups.append((h, hit))
            self.kills[mark:] = rest + todo
            for h, hit in groups:
                if len(hit) == 1:
                    p = hit[0].pc
                    exc = hit[0].val
                else:
                    l = self.aig.ors([self.rel(k.pc, pc0) for k in hit])
                    p = self.extend(pc0, l)
                    if p is None:
                        continue
                    exc = hit[0].val
                    for k in hit[1:]:
                        exc = self.ite(self.rel(k.pc, pc0), k.val, exc)
                self.pc = p
                fr.excstack.append(exc)
                try:
                    if h.name:
                        self.setname(fr, h.name, self.excobj(exc))
                    self.exec_block(h.body, fr)
                    alive.append(self.pc)
                except DeadPath:
                    pass
                finally:
                    fr.excstack.pop()
        self.kills.extend(late)
        self.join(pc0, mark, alive)

    def excobj(self, e):
        if type(e) is Union:
            return Union([(g, self.excobj(x)) for g, x in e.alts])
        return e.obj if e.obj is not None else e

    def try_finally(self, s, fr):
        pc0, mark = self.pc, len(self.kills)
        inner = ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse,
                        finalbody=[])
        alive = True
        try:
            if s.handlers:
                self.try_except(inner, fr)
            else:
                self.exec_block(s.body, fr)
        except DeadPath:
            alive = False
        pend = self.kills[mark:]
        pca = self.pc
        if not pend:
            self.exec_block(s.finalbody, fr)
            return
        # run the final block once for the whole region, then let the
        # pending kills continue
        region = pc0
        self.pc = region
        del self.kills[mark:]
        self.exec_block(s.finalbody, fr)
        if len(self.kills) != mark:
            raise Unsupported('jump out of a finally block')
        self.kills.extend(pend)
        if not alive:
            raise DeadPath
        self.pc = pca

    x_TryStar = None

    def x_With(self, s, fr):
        if len(s.items) > 1:
            inner = ast.With(items=s.items[1:], body=s.body)
            ast.copy_location(inner, s)
            self.x_With(ast.copy_location(
                ast.With(items=s.items[:1], body=[inner]), s), fr)
            return
        item = s.items[0]
        cm = self.ev(item.context_expr, fr)
        if isinstance(cm, self.bm.Suppress):
            h = ast.ExceptHandler(type=Lit(cm.classes), name=None,
                                  body=[ast.Pass()])
            t = ast.Try(body=s.body, handlers=[h], orelse=[], finalbody=[])
            ast.copy_location(h, s)
            ast.copy_location(h.body[0], s)
            self.x_Try(ast.copy_location(t, s), fr)
            return
        def body(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            self.exec_block(s.body, fr)
        if self.bm.null_context(cm):
            body(cm.value if hasattr(cm, 'value') else cm)
            return
        if isinstance(cm, self.bm.GenContext):
            self.with_generator(cm, body)
            return
        if isinstance(cm, SObj) and \
                cm.cls.lookup('__enter__') is not UNSET:
            self.with_object(cm, body)
            return
        raise Unsupported('with %r' % (cm,))

    def merged(self, hits, pc0):
        """(pc, value) of several kills"""
        if len(hits) == 1:
            return hits[0].pc, hits[0].val
        p = self.extend(pc0, self.aig.ors(
            [self.rel(k.pc, pc0) for k in hits]))
        v = hits[0].val
        for k in hits[1:]:
            v = self.ite(self.rel(k.pc, pc0), k.val, v)
        return p, v

    def with_object(self, cm, body):
        v = self.callmethod(cm, '__enter__', [])
        pc0, mark = self.pc, len(self.kills)
        try:
            body(v)
        except DeadPath:
            pass
        pend = self.kills[mark:]
        raises = [k for k in pend if k.kind == 'raise']
        other = [k for k in pend if k.kind != 'raise']
        self.kills[mark:] = raises
        p = self.minus(pc0, mark)
        del self.kills[mark:]
        late = []
        if p is not None:
            self.pc = p
            try:
                self.callmethod(cm, '__exit__', [None, None, None])
            except DeadPath:
                pass
            late = self.kills[mark:]
            del self.kills[mark:]
            if late and other:
                raise Unsupported('__exit__ raises after a jump')
        if raises:
            pr, exc = self.merged(raises, pc0)
            if pr is not None:
                self.pc = pr
                try:
                    t = self.truth(self.callmethod(cm, '__exit__', [
                        self.lift(exc, lambda e: e.cls), self.excobj(exc),
                        None]))
                    p1, p0 = self.split(t)
                    if p0 is not None:
                        late.append(Kill('raise', None, p0, exc))
                except DeadPath:
                    pass
                late += self.kills[mark:]
                del self.kills[mark:]
        self.kills.extend(other + late)
        if len(self.kills) == mark:
            self.pc = pc0
            return
        p = self.minus(pc0, mark)
        if p is None:
            raise DeadPath
        self.pc = p

    def with_generator(self, cm, body):
        """contextlib.contextmanager: the body runs at the yield"""
        f, args, kwargs = cm.f, cm.args, cm.kwargs
        vals = self.bind(f, args, kwargs)
        self.calls[f.qualname] += 1
        fr = Frame(f.module, f.frame, self.pc, f, f.info.locals,
                   f.info.nonlocals, f.info.globals)
        for k, v in vals.items():
            fr.vars[k] = Cell(v)
        other = []
        loops = self.loops

        def hook(v):
            pc0, mark = self.pc, len(self.kills)
            inner, self.loops = self.loops, loops
            try:
                body(v)
            except DeadPath:
                pass
            finally:
                self.loops = inner
            pend = self.kills[mark:]
            other.extend(k for k in pend if k.kind != 'raise')
            self.kills[mark:] = [k for k in pend if k.kind == 'raise']
            if len(self.kills) == mark:
                self.pc = pc0
                return
            p = self.minus(pc0, mark)
            if p is None:
                raise DeadPath
            self.pc = p
        fr.yields = Hook(hook)
        pc0, mark = self.pc, len(self.kills)
        try:
            self.run_body(f, fr)
        except DeadPath:
            pass
        if other and len(self.kills) != mark:
            # a path that left by return, break or continue and raised
            # afterwards would be counted twice
            for k in other:
                k.pc = self.minus_from(k.pc, self.kills[mark:])
            other = [k for k in other if k.pc is not None]
        self.kills.extend(other)
        if len(self.kills) == mark:
            self.pc = pc0
            return
        p = self.minus(pc0, mark)
        if p is None:
            raise DeadPath
        self.pc = p

    def minus_from(self, p, kills):
        for k in kills:
            if p is None:
                return None
            p = self.extend(p, self.rel(k.pc, self.root) ^ 1)
        return p

    def x_Match(self, s, fr):
        subj = self.ev(s.subject, fr)

        def run(cases):
            if not cases:
                return
            c = cases[0]
            binds = []
            l = self.pattern(c.pattern, subj, fr, binds)

            def body():
                for k, v in binds:
                    self.setname(fr, k, v)
                if c.guard is not None:
                    lg = self.truth(self.ev(c.guard, fr))
                    self.branch(lg, lambda: self.exec_block(c.body, fr),
                                lambda: run(cases[1:]))
                else:
                    self.exec_block(c.body, fr)
            self.branch(l, body, lambda: run(cases[1:]))
        run(s.cases)

    def given(self, l, fn):
        """l and what fn returns, evaluated where l holds"""
        p1, p0 = self.split(l)
        if p1 is None:
            return 0
        pc0, mark = self.pc, len(self.kills)
        self.pc = p1
        r = fn()
        if len(self.kills) != mark:
            raise Unsupported('exception in a match pattern')
        self.pc = pc0
        return self.aig.AND(l, r)

    def pattern(self, p, v, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('eq', v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            l = 1
            if p.pattern is not None:
                l = self.pattern(p.pattern, v, fr, binds)
            if p.name:
                binds.append((p.name, v))
            return l
        if isinstance(p, ast.MatchOr):
            n = len(binds)
            l = 0
            for q in p.patterns:
                l = self.aig.OR(l, self.given(l ^ 1, lambda: self.pattern(
                    q, v, fr, binds)))
            if len(binds) != n:
                raise Unsupported('names in alternative patterns')
            return l
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, fr)
            l = self.truth(self.bm.b_isinstance(self, [v, c], {}))
            todo = list(zip(p.kwd_attrs, p.kwd_patterns))
            if p.patterns:
                names = getattr(c, 'rec', None)
                names = names and names[0]
                if names is None and len(p.patterns) == 1 and \
                        not isinstance(c, IClass):
                    return self.given(l, lambda: self.pattern(
                        p.patterns[0], v, fr, binds))
                if names is None:
                    m = c.lookup('__match_args__') if isinstance(
                        c, IClass) else UNSET
                    if m is UNSET:
                        raise Unsupported('positional class pattern')
                    names = [x for g, x in self.elements(m)]
                todo = list(zip(names, p.patterns)) + todo
            for k, q in todo:
                l = self.given(l, lambda: self.truth(self.bm.b_hasattr(
                    self, [v, k], {})))
                l = self.given(l, lambda: self.pattern(
                    q, self.getattr(v, k), fr, binds))
            return l
        if isinstance(p, ast.MatchSequence):
            v = self.pruned(v)
            if type(v) is Union:
                l, names = 0, {}
                for g, x in self.prune(v):
                    bi = []
                    h = self.given(g, lambda: self.pattern(p, x, fr, bi))
                    l = self.aig.OR(l, h)
                    for k, y in bi:
                        names.setdefault(k, []).append((h, y))
                for k, ys in names.items():
                    if len(ys) == 1:
                        binds.append((k, ys[0][1]))
                    else:
                        r = ys[0][1]
                        for h, y in ys[1:]:
                            r = self.ite(h, y, r)
                        binds.append((k, r))
                return l
            if isinstance(v, (str, bytes)) or not (
                    type(v) is SList or isinstance(v, (tuple, list)) or
                    type(v) is SObj and v.cls.rec is not None and
                    v.cls.lookup('__iter__') is not UNSET):
                return 0
            slots = self.compact(self.elements(v))
            star = [i for i, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if star:
                if any(g != 1 for g, x in slots):
                    raise Unsupported('star pattern over a symbolic length')
                if len(slots) < n - 1:
                    return 0
                i = star[0]
                k = len(slots) - (n - 1)
                vals = [x for g, x in slots]
                name = p.patterns[i].name
                if name:
                    binds.append((name, self.mklist(vals[i:i + k])))
                vals = vals[:i] + vals[i + k:]
                pats = p.patterns[:i] + p.patterns[i + 1:]
                l = 1
            else:
                if len(slots) < n:
                    return 0
                l = slots[n - 1][0] if n else 1
                if len(slots) > n:
                    l = self.aig.AND(l, slots[n][0] ^ 1)
                vals = [x for g, x in slots[:n]]
                pats = p.patterns
            for q, x in zip(pats, vals):
                l = self.given(l, (lambda q, x: lambda: self.pattern(
                    q, x, fr, binds))(q, x))
            return l
        if isinstance(p, ast.MatchMapping):
            if type(v) is not SDict:
                return 0
            if p.rest:
                raise Unsupported('match **rest')
            l = 1
            for k, q in zip(p.keys, p.patterns):
                k = self.ev(k, fr)
                l = self.given(l, lambda: self.contains(v, k))
                l = self.given(l, lambda: self.pattern(
                    q, self.getitem(v, k), fr, binds))
            return l
        raise Unsupported('match pattern')

    # assignment -----------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            vals = self.unpack(v, n, star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e,
                            x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, star=None):
        v = self.pruned(v)
        slots = self.compact(self.elements(v))
        if star is None:
            if len(slots) > n:
                self.raise_if(slots[n][0], ExcVal(ValueError, (
                    'too many values to unpack',)))
            for k in range(n):
                if k >= len(slots):
                    self.throw(ExcVal(ValueError, (
                        'not enough values to unpack',)))
                self.raise_if(slots[k][0] ^ 1, ExcVal(ValueError, (
                    'not enough values to unpack',)))
            return [x for g, x in slots[:n]]
        if any(g != 1 for g, x in slots):
            raise Unsupported('starred unpacking of a symbolic length')
        if len(slots) < n - 1:
            self.throw(ExcVal(ValueError, ('not enough values to unpack',)))
        m = len(slots) - (n - 1)
        xs = [x for g, x in slots]
        return xs[:star] + [self.mklist(xs[star:star + m])] + xs[star + m:]

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None:
                if f.isclass:
                    return '_' + f.cls_ns.name.lstrip('_') + name
                if f.func is not None:
                    if f.func.cls is not None:
                        return '_' + f.func.cls.name.lstrip('_') + name
                    return name
                f = f.parent
        return name

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def ev(self, n, fr):
        h = self.EV.get(type(n))
        if h is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return h(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.getname(fr, n.id)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.yields == 'comp':
            f = f.parent
        self.setname(f, n.target.id, v)
        return v

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i], fr)
            if i == len(n.values) - 1:
                return v
            l = self.truth(v)
            if isand:
                return self.branch(l, lambda: go(i + 1),
                                   lambda: self.narrow(v))
            return self.branch(l, lambda: self.narrow(v),
                               lambda: go(i + 1))
        return go(0)

    def narrow(self, v):
        """drop alternatives impossible under the current pc"""
        t = type(v)
        if t is SBool:
            l = self.simp(self.pc, v.lit)
            return self.mkbool(l)
        if t is Union:
            out = []
            for g, x in v.alts:
                if self.extend(self.pc, g) is not None:
                    # truthiness may decide the alternative
                    out.append((g, x))
            if len(out) == 1:
                return out[0][1]
            return Union(out) if out else v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return self.mkbool(self.truth(v) ^ 1)
        return self.unary(type(n.op), v)

    def unary(self, op, v):
        def one(v):
            t = type(v)
            if t is SBool:
                return self.lift(self.boolint(v), one) \
                    if op is not ast.USub else self.binop('mul', v, -1)
            if t is SNum:
                if op is ast.USub:
                    return SNum(z3.simplify(-v.e))
                if op is ast.UAdd:
                    return v
            if isinstance(v, self.nm.SArray):
                return self.nm.unary(self, op, v)
            if isinstance(v, SObj):
                m = {ast.USub: '__neg__', ast.UAdd: '__pos__',
                     ast.Invert: '__invert__'}[op]
                if v.cls.lookup(m) is not UNSET:
                    return self.callmethod(v, m, [])
            if isinstance(v, (int, float, Fraction, complex)):
                return {ast.USub: operator.neg, ast.UAdd: operator.pos,
                        ast.Invert: operator.invert}[op](v)
            self.throw(ExcVal(TypeError, ('bad operand type',)))
        return self.lift(v, one)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(BINOPS[type(n.op)][0], a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)

        def go(left, i):
            right = self.ev(n.comparators[i], fr)
            r = self.cmpop(n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return r
            return self.branch(self.truth(r), lambda: go(right, i + 1),
                               lambda: r if type(r) is not SBool else False)
        return go(left, 0)

    def cmpop(self, op, a, b):
        t = type(op)
        if t in CMPS:
            return self.compare(CMPS[t], a, b)
        if t is ast.Is:
            return self.mkbool(self.is_(a, b))
        if t is ast.IsNot:
            return self.mkbool(self.is_(a, b) ^ 1)
        if t is ast.In:
            return self.mkbool(self.contains(b, a))
        if t is ast.NotIn:
            return self.mkbool(self.contains(b, a) ^ 1)
        raise Unsupported('comparison')

    def e_IfExp(self, n, fr):
        l = self.truth(self.ev(n.test, fr))
        return self.branch(l, lambda: self.ev(n.body, fr),
                           lambda: self.ev(n.orelse, fr))

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), self.mangle(n.attr, fr))

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        i = self.ev(n.slice, fr)
        return self.getitem(o, i)

    def e_Slice(self, n, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return self.bm.SSlice(f(n.lower), f(n.upper), f(n.step))

    def seq(self, elts, fr):
        slots = []
        for e in elts:
            if isinstance(e, ast.Starred):
                slots.extend(self.elements(self.ev(e.value, fr)))
            else:
                slots.append((1, self.ev(e, fr)))
        return slots

    def e_Tuple(self, n, fr):
        return SList(self.seq(n.elts, fr), 'tuple', self.pc)

    def e_List(self, n, fr):
        return SList(self.seq(n.elts, fr), 'list', self.pc)

    def e_Set(self, n, fr):
        s = SSet(self.pc)
        for g, x in self.seq(n.elts, fr):
            self.set_add(s, x, g)
        return s

    def e_Dict(self, n, fr):
        d = SDict(self.pc)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.bm.dict_update(self, d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, fr)
                conv = p.conversion
                spec = '' if p.format_spec is None else \
                    self.ev(p.format_spec, fr)
                parts.append(self.bm.format_value(self, v, conv, spec))
        return self.bm.concat_strs(self, parts)

    def e_Lambda(self, n, fr):
        return self.mkfunction(n, fr)

    def e_Starred(self, n, fr):
        raise Unsupported('starred expression')

    # comprehensions -------------------------------------------------------
    def comp(self, gens, fr, emit, stop=None):
        names = set()
        for g in gens:
            target_names(g.target, names)
        cf = Frame(fr.module, fr, self.pc, fr.func, names)
        cf.yields = 'comp'
        cf.isclass = False
        if fr.isclass:
            cf.parent = fr

        def loop(k):
            if k == len(gens):
                emit(cf)
                return
            g = gens[k]
            it = self.ev(g.iter, fr if k == 0 else cf)
            pcs, marks = self.pc, len(self.kills)
            for gd, v in self.live_iter(it):
                if stop is not None and stop():
                    return
                pc0, mark = self.pc, len(self.kills)
                p1, p0 = self.split(gd)
                if p1 is None:
                    continue
                self.pc = p1
                alive = [] if p0 is None else [p0]
                try:
                    self.assign(g.target, v, cf)
                    conds(g.ifs, 0, k)
                    alive.append(self.pc)
                except DeadPath:
                    pass
                self.join(pc0, mark, alive)
            if len(self.kills) == marks:
                self.pc = pcs

        def conds(ifs, i, k):
            if i == len(ifs):
                loop(k + 1)
                return
            l = self.truth(self.ev(ifs[i], cf))
            self.branch(l, lambda: conds(ifs, i + 1, k), lambda: None)
        loop(0)

    def e_ListComp(self, n, fr):
        r = SList([], 'list', self.pc)

        def emit(cf):
            v = self.ev(n.elt, cf)
            r.slots.append((self.rel(self.pc, r.birth), v))
        self.comp(n.generators, fr, emit)
        return r

    def e_Lit(self, n, fr):
        return n.v

    def e_SetComp(self, n, fr):
        r = SSet(self.pc)
        self.comp(n.generators, fr, lambda cf: self.set_add(
            r, self.ev(n.elt, cf)))
        return r

    def e_DictComp(self, n, fr):
        r = SDict(self.pc)

        def emit(cf):
            k = self.ev(n.key, cf)
            self.dict_set(r, k, self.ev(n.value, cf))
        self.comp(n.generators, fr, emit)
        return r

    def e_GeneratorExp(self, n, fr):
        # the first iterable is evaluated immediately in Python; the rest is
        # evaluated here at first use
        def thunk():
            return self.e_ListComp(n, fr)
        return SIter(thunk=(thunk, n, fr), birth=self.pc)

    def e_Yield(self, n, fr):
        v = None if n.value is None else self.ev(n.value, fr)
        f = fr
        while f.yields == 'comp':
            f = f.parent
        if type(f.yields) is Hook:
            f.yields.run(v)
            return None
        f.yields.slots.append((self.rel(self.pc, f.yields.birth), v))
        return None

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.yields == 'comp':
            f = f.parent
        if type(f.yields) is Hook:
            raise Unsupported('yield from in a context manager')
        for g, x in self.elements(v):
            p = self.extend(self.pc, g)
            if p is not None:
                f.yields.slots.append((self.rel(p, f.yields.birth), x))
        return None

    # calls ----------------------------------------------------------------
    def e_Call(self, n, fr):
        f = self.ev(n.func, fr)
        # short-circuiting any/all over generator expressions
        if isinstance(f, Intrinsic) and callable(f.raw):
            r = f.raw(self, n, fr)
            if r is not NotImplemented:
                return r
        args, guards = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                el = self.elements(self.ev(a.value, fr))
                el = self.compact(el)
                for g, x in el:
                    l = self.simp(self.pc, g)
                    if l == 0:
                        continue
                    if l != 1:
                        p1, p0 = self.split(l)
                        if p1 is None:
                            continue
                        if p0 is not None:
                            guards = True
                    args.append(x if not guards else (g, x))
                if guards:
                    return self.call_var(f, n, fr, a)
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        optional = []
        for k in n.keywords:
            if k.arg is not None:
                kwargs[k.arg] = self.ev(k.value, fr)
            else:
                d = self.pruned(self.ev(k.value, fr))
                if isinstance(d, Union):
                    return self.lift(d, lambda dd: self.call_kw(
                        f, args, kwargs, dd))
                self.collect_kw(d, kwargs, optional)
        node = n
        self.node = n
        if optional:
            def go(i, kw):
                if i == len(optional):
                    return self.call(f, args, kw)
                kk, g, v = optional[i]
                kw2 = dict(kw)
                kw2[kk] = v
                return self.branch(g, lambda: go(i + 1, kw2),
                                   lambda: go(i + 1, kw))
            return go(0, kwargs)
        return self.call(f, args, kwargs)

    def call_kw(self, f, args, kwargs, d):
        kw, opt = dict(kwargs), []
        self.collect_kw(d, kw, opt)
        if opt:
            raise Unsupported('optional keyword arguments in a union')
        return self.call(f, args, kw)

    def collect_kw(self, d, kwargs, optional):
        if not isinstance(d, SDict):
            raise Unsupported('** of %r' % (d,))
        for k, (g, v) in d.m.items():
            p1, p0 = self.split(g)
            if p1 is None:
                continue
            if p0 is None:
                kwargs[k] = v
            else:
                optional.append((k, g, v))

    def call_var(self, f, n, fr, a):
        """call with *args of symbolic length: case split on the length"""
        if len(n.args) != 1 or n.keywords:
            raise Unsupported('*args of symbolic length')
        el = self.compact(self.elements(self.ev(a.value, fr)))

        def go(k):
            if k == len(el):
                return self.call(f, [x for g, x in el], {})
            return self.branch(el[k][0], lambda: go(k + 1),
                               lambda: self.call(f, [x for g, x in el[:k]],
                                                 {}))
        return go(0)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        t = type(f)
        if t is Union:
            return self.lift(f, lambda g: self.call(g, args, kwargs))
        if t is BoundMethod:
            return self.call(f.f, [f.self] + list(args), kwargs)
        if t is IFunction:
            return self.call_function(f, args, kwargs)
        if t is Intrinsic:
            try:
                return f.f(self, args, kwargs)
            except MixedShapes:
                return self.by_shape(f, args, kwargs)
        if t is BuiltinMethod:
            return self.bm.call_method(self, f.self, f.name, args, kwargs)
        if t is IClass:
            return self.instantiate(f, args, kwargs)
        if t is SObj:
            return self.callmethod(f, '__call__', args, kwargs)
        if t is IStatic or t is IClassMethod:
            return self.call(f.f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, tuple(args))
        if isinstance(f, self.bm.Stub):
            return self.bm.Stub(f.path + '()')
        if callable(f):
            return self.bm.call_native(self, f, args, kwargs)
        if isinstance(f, self.bm.Poison):
            raise Unsupported('call of %s' % f.path)
        self.throw(ExcVal(TypeError, ('object is not callable: %r' % (f,),)))

    def by_shape(self, f, args, kwargs):
        """numpy function on one of several arrays: one after the other"""
        def mixed(v):
            return type(v) is Union and any(
                type(x) is SList or isinstance(x, self.nm.SArray)
                for g, x in v.alts)
        for k, a in list(enumerate(args)) + list(kwargs.items()):
            a = self.pruned(a)
            items = [a]
            if type(a) is SList:
                if not a.dense():
                    continue
                items = [self.pruned(x) for g, x in a.slots]
            for i, v in enumerate(items):
                if mixed(v):
                    break
            else:
                continue

            def one(x, k=k, a=a, i=i, items=items):
                if type(a) is SList:
                    x = SList([(1, y) for y in items[:i] + [x] +
                               items[i + 1:]], a.kind, self.pc)
                if isinstance(k, int):
                    return self.call(f, list(args[:k]) + [x] +
                                     list(args[k + 1:]), kwargs)
                return self.call(f, args, {**kwargs, k: x})
            return self.lift(v, one)
        raise Unsupported('array of differently shaped unions')

    def callmethod(self, o, name, args, kwargs=None):
        return self.call(self.getattr(o, name), args, kwargs)

    def instantiate(self, cls, args, kwargs):
        if cls.native_base is not None and \
                issubclass(cls.native_base, BaseException):
            o = SObj(cls, self.pc)
            e = ExcVal(cls, tuple(args), o)
            o.attrs['args'] = Cell(self.mktuple(list(args)))
            init = cls.lookup('__init__')
            if init is not UNSET:
                self.call(init, [o] + list(args), kwargs)
            return e
        new = cls.lookup('__new__')
        if new is not UNSET:
            raise Unsupported('__new__')
        o = SObj(cls, self.pc)
        init = cls.lookup('__init__')
        if init is not UNSET:
            pc = self.pc
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            self.throw(ExcVal(TypeError, ('%s() takes no arguments' %
                                          cls.name,)))
        return o

    def bind(self, f, args, kwargs):
        info = f.info
        vals = {}
        names = info.args
        pos = list(args)
        if len(pos) > len(names):
            if info.vararg is None:
                self.throw(ExcVal(TypeError, (
                    '%s() takes %d positional arguments but %d were given'
                    % (f.name, len(names), len(pos)),)))
            vals[info.vararg] = SList([(1, x) for x in pos[len(names):]],
                                      'tuple', self.pc)
            pos = pos[:len(names)]
        elif info.vararg is not None:
            vals[info.vararg] = SList([], 'tuple', self.pc)
        for n, v in zip(names, pos):
            vals[n] = v
        extra = None
        if info.kwarg is not None:
            extra = SDict(self.pc)
            vals[info.kwarg] = extra
        for k, v in kwargs.items():
            if (k in names and k not in info.posonly) or k in info.kwonly:
                if k in vals:
                    self.throw(ExcVal(TypeError, (
                        '%s() got multiple values for argument %r'
                        % (f.name, k),)))
                vals[k] = v
            elif extra is not None:
                extra.m[k] = [1, v]
            else:
                self.throw(ExcVal(TypeError, (
                    '%s() got an unexpected keyword argument %r'
                    % (f.name, k),)))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw(ExcVal(TypeError, (
                        '%s() missing required argument %r' % (f.name, n),)))
                vals[n] = f.defaults[j]
        for n in info.kwonly:
            if n not in vals:
                if n not in f.kwdefaults:
                    self.throw(ExcVal(TypeError, (
                        '%s() missing keyword argument %r' % (f.name, n),)))
                vals[n] = f.kwdefaults[n]
        return vals

    def call_function(self, f, args, kwargs):
        vals = self.bind(f, args, kwargs)
        self.calls[f.qualname] += 1
        info = f.info
        fr = Frame(f.module, f.frame, self.pc, f, info.locals,
                   info.nonlocals, info.globals)
        for k, v in vals.items():
            fr.vars[k] = Cell(v)
        if info.isgen:
            def thunk():
                fr.birth = self.pc
                fr.yields = SList([], 'list', self.pc)
                for k, v in vals.items():
                    fr.vars[k] = Cell(v)
                self.run_body(f, fr)
                return fr.yields
            return SIter(thunk=(thunk, None, None), birth=self.pc)
        if isinstance(f.node, ast.Lambda):
            self.enter()
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.depth -= 1
        return self.run_body(f, fr)

    def enter(self):
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth = 0
            self.bound('recursion deeper than %d' % self.maxdepth)

    def run_body(self, f, fr):
        pc0, mark = self.pc, len(self.kills)
        self.enter()
        loops, self.loops = self.loops, []
        node = self.node
        alive = True
        try:
            self.exec_block(f.node.body, fr)
        except DeadPath:
            alive = False
        finally:
            self.loops = loops
            self.depth -= 1
        self.node = node
        rets = self.resolve(mark, 'return', fr)
        if not rets:
            if not alive:
                raise DeadPath
            if len(self.kills) == mark:
                self.pc = pc0
            return None
        if not alive and len(rets) == 1:
            v = rets[0].val
            if len(self.kills) == mark:
                self.pc = pc0
            else:
                p = self.minus(pc0, mark)
                self.pc = rets[0].pc if p is None else p
            return v
        alts = [(self.rel(k.pc, pc0), k.val) for k in rets]
        if alive:
            rest = self.aig.ors([g for g, v in alts]) ^ 1
            alts.append((rest, None))
        else:
            # the returns are exhaustive on what survives: let the last one
            # stand for the rest so that the guards stay small
            pass
        if len(self.kills) == mark:
            self.pc = pc0
        else:
            p = self.minus(pc0, mark)
            if p is None:
                raise DeadPath
            self.pc = p
        v = alts[-1][1]
        for g, x in reversed(alts[:-1]):
            v = self.ite(g, x, v)
        return v

    # ------------------------------------------------------------------
    # attributes
    # ------------------------------------------------------------------
    def unset_split(self, v):
        """(literal for unset, value without UNSET)"""
        if v is UNSET:
            return 1, None
        if type(v) is Union and any(x is UNSET for g, x in v.alts):
            bad = self.aig.ors([g for g, x in v.alts if x is UNSET])
            return bad, self.mkunion([(g, x) for g, x in v.alts
                                      if x is not UNSET])
        return 0, v

    def bindattr(self, a, o, cls):
        """class attribute a looked up on instance o (or class)"""
        if type(a) is Union:
            bad, a = self.unset_split(a)
            self.raise_if(bad, ExcVal(AttributeError, (
                'type object %r has no attribute' % cls.name,)))
            return self.lift(a, lambda x: self.bindattr(x, o, cls))
        if isinstance(a, IFunction):
            return BoundMethod(a, o) if o is not None else a
        if isinstance(a, IStatic):
            return a.f
        if isinstance(a, IClassMethod):
            return BoundMethod(a.f, cls)
        if isinstance(a, IProperty):
            if o is None:
                return a
            return self.call(a.fget, [o], {})
        if isinstance(a, Intrinsic) and o is not None and \
                getattr(a, 'raw', None) == 'method':
            return BoundMethod(a, o)
        if isinstance(a, self.bm.CachedProp) and o is not None:
            return a.get(self, o)
        return a

    def getattr(self, o, name):
        t = type(o)
        if t is SObj:
            return self.objattr(o, name)
        if t is Union:
            # drop impossible alternatives, then evaluate on each
            return self.lift(o, lambda x: self.getattr(x, name))
        if t is IModule:
            c = o.ns.get(name)
            if c is None or c.v is UNSET:
                sub = o.name + '.' + name
                if sub in self.paths:
                    return self.import_module(sub)
                self.throw(ExcVal(AttributeError, (name,)))
            return self.getcell(c, name, AttributeError)
        if t is IClass:
            v = o.lookup(name)
            if v is UNSET:
                if name in ('__name__', '__qualname__'):
                    return o.name
                if name == '__mro__':
                    return self.mktuple(o.mro)
                if name == '__module__':
                    return o.module.name
                if o.native_base is not None and \
                        hasattr(o.native_base, name):
                    return getattr(o.native_base, name)
                if name in ('__init__', '__setattr__', '__repr__', '__hash__',
                            '__eq__', '__ne__'):
                    return self.bm.object_method(self, name)
                self.throw(ExcVal(AttributeError, (
                    'type object %r has no attribute %r' % (o.name, name),)))
            return self.bindattr(v, None, o)
        if t is ISuper:
            ocls = o.obj.cls if isinstance(o.obj, SObj) else o.obj
            mro = ocls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                cell = c.ns.get(name)
                if cell is not None and cell.v is not UNSET:
                    return self.bindattr(
                        cell.v, o.obj if isinstance(o.obj, SObj) else None,
                        ocls)
            m = self.bm.object_method(self, name)
            return BoundMethod(m, o.obj)
        return self.bm.getattr_other(self, o, name)

    def objattr(self, o, name):
        ca = o.cls.lookup(name)
        if type(ca) is IProperty:
            return self.call(ca.fget, [o], {})
        c = o.attrs.get(name)
        bad, v = (1, None) if c is None else self.unset_split(c.v)
        if bad == 0:
            return self.trim(v)
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return self.bm.obj_dict(self, o)
        if bad == 1:
            return self.missing(o, ca, name)
        p1, p0 = self.split(bad)
        if p1 is None:
            return self.trim(v)
        if p0 is None:
            return self.missing(o, ca, name)
        if ca is UNSET and o.cls.lookup('__getattr__') is UNSET:
            self.raise_if(bad, ExcVal(AttributeError, (
                '%r object has no attribute %r' % (o.cls.name, name),)))
            return self.trim(v)
        return self.branch(bad, lambda: self.missing(o, ca, name),
                           lambda: self.trim(v))

    def trim(self, v):
        """cheap structural pruning of a union under the pc"""
        if type(v) is not Union or not self.pc.conj:
            return v
        keep = []
        pc = self.pc
        for g, x in v.alts:
            p = self.extend(pc, g)
            if p is None:
                continue
            if p is pc:
                return x
            keep.append((g, x))
        if len(keep) == 1:
            return keep[0][1]
        if keep and len(keep) < len(v.alts):
            return Union(keep)
        return v

    def missing(self, o, ca, name):
        if ca is not UNSET:
            return self.bindattr(ca, o, o.cls)
        ga = o.cls.lookup('__getattr__')
        if ga is not UNSET:
            return self.call(ga, [o, name], {})
        m = self.bm.object_method(self, name)
        if m is not None:
            return BoundMethod(m, o)
        self.throw(ExcVal(AttributeError, (
            '%r object has no attribute %r' % (o.cls.name, name),)))

    def setattr(self, o, name, v):
        t = type(o)
        if t is Union:
            self.lift(o, lambda x: self.setattr(x, name, v))
            return
        if t is SObj:
            ca = o.cls.lookup(name)
            if type(ca) is IProperty:
                if ca.fset is None:
                    self.throw(ExcVal(AttributeError, (
                        'property %r has no setter' % name,)))
                self.call(ca.fset, [o, v], {})
                return
            sa = o.cls.lookup('__setattr__')
            if sa is not UNSET:
                self.call(sa, [o, name, v], {})
                return
            self.setobj(o, name, v)
            return
        if t is IModule:
            c = o.ns.get(name)
            if c is None:
                c = o.ns[name] = Cell()
            self.cellwrite(c, v, o.birth)
            return
        if t is IClass:
            c = o.ns.get(name)
            if c is None:
                c = o.ns[name] = Cell()
            self.cellwrite(c, v, self.root)
            return
        if t is IFunction:
            c = o.attrs.get(name)
            if c is None:
                c = o.attrs[name] = Cell()
            self.cellwrite(c, v, self.root)
            return
        if self.bm.setattr_other(self, o, name, v):
            return
        self.throw(ExcVal(AttributeError, (
            'cannot set attribute %r of %r' % (name, type(o).__name__),)))

    def setobj(self, o, name, v):
        c = o.attrs.get(name)
        if c is None:
            c = o.attrs[name] = Cell()
        self.cellwrite(c, v, o.birth)

    def delattr(self, o, name):
        def one(o):
            if isinstance(o, SObj):
                ca = o.cls.lookup(name)
                if type(ca) is IProperty and ca.fdel is not None:
                    self.call(ca.fdel, [o], {})
                    return
                c = o.attrs.get(name)
                bad = 1 if c is None else self.unset_split(c.v)[0]
                self.raise_if(bad, ExcVal(AttributeError, (
                    '%r object has no attribute %r' % (o.cls.name, name),)))
                self.cellwrite(c, UNSET, o.birth)
                return
            raise Unsupported('delattr')
        self.lift(o, one)

    def hasattr(self, o, name):
        """literal"""
        def one(o):
            if isinstance(o, SObj):
                ca = o.cls.lookup(name)
                if ca is not UNSET and not isinstance(ca, IProperty):
                    return True
                if ca is UNSET and o.cls.lookup('__getattr__') is UNSET:
                    c = o.attrs.get(name)
                    if c is None:
                        return name in ('__class__', '__dict__', '__doc__')
                    return self.mkbool(self.unset_split(c.v)[0] ^ 1)
            # general: evaluate and catch AttributeError
            pc0, mark = self.pc, len(self.kills)
            ok = True
            try:
                self.getattr(o, name)
            except DeadPath:
                ok = False
            miss = [k for k in self.kills[mark:] if k.kind == 'raise' and
                    self.exc_matches(k.val, AttributeError)]
            rest = [k for k in self.kills[mark:] if k not in miss]
            self.kills[mark:] = rest
            l = self.aig.ors([self.rel(k.pc, pc0) for k in miss]) ^ 1
            if not rest:
                self.pc = pc0
            else:
                p = self.minus(pc0, mark)
                if p is None:
                    raise DeadPath
                self.pc = p
            return self.mkbool(l)
        return self.truth(self.lift(o, one))

    # ------------------------------------------------------------------
    # truth, identity, equality
    # ------------------------------------------------------------------
    def truth(self, v):
        t = type(v)
        if t is bool:
            return int(v)
        if t is SBool:
            return v.lit
        if v is None:
            return 0
        if t is Union:
            aig = self.aig
            if v.lin is not None:
                c, m = v.lin
                if c >= 0 and all(k > 0 for k in m.values()):
                    return aig.ors(list(m)) if c == 0 else 1
                return self.lin_compare('ne', v.lin, (0, {}))
            simple = True
            for g, x in v.alts:
                if isinstance(x, (SObj, IFunction)) and \
                        not self.plain_truth(x):
                    simple = False
                elif isinstance(x, self.nm.SArray):
                    simple = False
            if simple:
                return aig.ors([aig.AND(g, self.truth(x))
                                for g, x in v.alts])
            r = self.lift(v, lambda x: self.mkbool(self.truth(x)))
            return self.truth(r)
        if t is SSet:
            return self.aig.ors(list(v.m.values()))
        if t is SList:
            return self.aig.ors([g for g, x in v.slots])
        if t is SDict:
            return self.aig.ors([e[0] for e in v.m.values()])
        if t is SNum:
            return self.aig.atom(v.e != 0)
        if t is SObj:
            if self.plain_truth(v):
                return 1
            if v.cls.lookup('__bool__') is not UNSET:
                return self.truth(self.callmethod(v, '__bool__', []))
            n = self.callmethod(v, '__len__', [])
            return self.truth(self.compare('ne', n, 0))
        if isinstance(v, self.nm.SArray):
            return self.nm.truth(self, v)
        if isinstance(v, SCALARS):
            return int(bool(v))
        if isinstance(v, Opaque):
            return 1
        if isinstance(v, (range,)):
            return int(bool(v))
        return 1

    def plain_truth(self, x):
        if isinstance(x, SObj):
            return x.cls.lookup('__bool__') is UNSET and \
                x.cls.lookup('__len__') is UNSET
        return True

    def is_(self, a, b):
        aig = self.aig
        if type(a) is Union or type(b) is Union:
            res = []
            for g, x in self.alts(a):
                for h, y in self.alts(b):
                    gh = aig.AND(g, h)
                    if gh:
                        res.append(aig.AND(gh, self.is_(x, y)))
            return aig.ors(res)
        if a is b:
            return 1
        ta, tb = type(a), type(b)
        if ta in (SBool, bool) and tb in (SBool, bool):
            return aig.IFF(self.truth(a), self.truth(b))
        if isinstance(a, (int, str)) and ta is tb:
            return int(a == b)
        if ta is BoundMethod:
            return int(a == b)
        return 0

    def boolint(self, v):
        if type(v) is SBool:
            return Union([(v.lit, 1), (v.lit ^ 1, 0)])
        if type(v) is bool:
            return int(v)
        if type(v) is Union:
            if v.lin is not None:
                return v
            return self.mkunion([(g, self.boolint(x)) for g, x in v.alts])
        return v

    def has_num(self, v):
        t = type(v)
        return t is SNum or (t is Union and
                             any(type(x) is SNum for g, x in v.alts))

    def num_e(self, v):
        """z3 real term of a numeric value (bools count as 0/1)"""
        t = type(v)
        if t is SNum:
            return v.e
        if t is SBool:
            return z3.If(self.aig.to_z3(v.lit), z3.RealVal(1), z3.RealVal(0))
        if t is Union:
            if v.lin is not None:
                return z3.Sum([z3.RealVal(v.lin[0])] + [
                    z3.If(self.aig.to_z3(l), z3.RealVal(c), z3.RealVal(0))
                    for l, c in v.lin[1].items()])
            alts = self.prune(v)
            e = self.num_e(alts[-1][1])
            for g, x in alts[:-1]:
                e = z3.If(self.aig.to_z3(g), self.num_e(x), e)
            return e
        return to_z3(v)

    def isnumeric(self, v):
        t = type(v)
        if t is SNum or t is SBool or isinstance(v, NUMERIC):
            return True
        if t is Union:
            return all(self.isnumeric(x) for g, x in v.alts)
        return False

    def scalar_union(self, v):
        """True if v is a concrete scalar or a union of concrete scalars"""
        if type(v) is Union:
            return all(isinstance(x, SCALARS) for g, x in v.alts)
        return isinstance(v, SCALARS)

    def lift2(self, a, b, fn):
        """pure lifting of fn over unions of concrete scalars"""
        aig = self.aig
        out = []
        excs = []
        A, B = self.alts(a), self.alts(b)
        many = len(A) * len(B) > 12 and (
            any(type(x) is float for g, x in A) or
            any(type(x) is float for g, x in B))
        if many:
            # floats rarely coincide: keep only what is possible here
            A, B = self.prune(a), self.prune(b)
            many = len(A) * len(B) > 12
        for g, x in A:
            for h, y in B:
                gh = aig.AND(g, h)
                if gh == 0:
                    continue
                if many and len(A) > 1 and len(B) > 1:
                    p = self.extend(self.pc, gh)
                    if p is None or not self.feasible(p.lit):
                        continue
                try:
                    out.append((gh, fn(x, y)))
                except Exception as e:
                    excs.append((gh, e))
        for gh, e in excs:
            self.raise_if(gh, ExcVal(type(e), e.args))
        if len(out) == 1 and many:
            return out[0][1]
        return self.mkunion(out)

    def compare(self, op, a, b):
        ta, tb = type(a), type(b)
        if isinstance(a, SCALARS) and isinstance(b, SCALARS):
            try:
                return CMPFN[op](a, b)
            except TypeError as e:
                self.throw(ExcVal(TypeError, e.args))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of a message string')
        if ta is SBool or tb is SBool:
            if ta in (SBool, bool) and tb in (SBool, bool) and \
                    op in ('eq', 'ne'):
                l = self.aig.IFF(self.truth(a), self.truth(b))
                return self.mkbool(l if op == 'eq' else l ^ 1)
            if self.isnumeric(a) and self.isnumeric(b):
                return self.compare(op, self.boolint(a), self.boolint(b))
        if ta is Union or tb is Union:
            la, lb = self.linof(a), self.linof(b)
            if la is not None and lb is not None:
                return self.mkbool(self.lin_compare(op, la, lb))
        if self.scalar_union(a) and self.scalar_union(b):
            return self.mkbool_v(self.lift2(a, b, CMPFN[op]))
        if (self.has_num(a) or self.has_num(b)) and self.isnumeric(a) and \
                self.isnumeric(b):
            return self.num_compare(op, a, b)
        if ta is Union:
            return self.lift(a, lambda x: self.compare(op, x, b))
        if tb is Union:
            return self.lift(b, lambda y: self.compare(op, a, y))
        if isinstance(a, self.nm.SArray) or isinstance(b, self.nm.SArray):
            return self.nm.compare(self, op, a, b)
        if ta is SObj or tb is SObj:
            return self.obj_compare(op, a, b)
        if ta is SSet and tb is SSet:
            return self.mkbool(self.bm.set_compare(self, op, a, b))
        if self.bm.is_keys(a) and (tb is SSet or self.bm.is_keys(b)) or \
                ta is SSet and self.bm.is_keys(b):
            return self.mkbool(self.bm.set_compare(
                self, op, self.bm.as_set(self, a), self.bm.as_set(self, b)))
        if ta is SList and tb is SList:
            return self.bm.list_compare(self, op, a, b)
        if ta is SDict and tb is SDict and op in ('eq', 'ne'):
            l = self.bm.dict_eq(self, a, b)
            return self.mkbool(l if op == 'eq' else l ^ 1)
        if (ta is self.nm.DType or tb is self.nm.DType) and \
                op in ('eq', 'ne'):
            return self.nm.same_dtype(self, a, b) == (op == 'eq')
        if op == 'eq':
            return self.native_eq(a, b)
        if op == 'ne':
            return not self.native_eq(a, b)
        self.throw(ExcVal(TypeError, (
            "'%s' not supported between %s and %s" % (
                op, ta.__name__, tb.__name__),)))

    def mkbool_v(self, v):
        if type(v) is Union:
            return self.mkbool(self.truth(v))
        return v

    def native_eq(self, a, b):
        try:
            return bool(a is b or (type(a) is type(b) and a == b and not
                                   isinstance(a, (SSet, SList, SDict))))
        except Exception:
            return False

    def num_compare(self, op, a, b):
        # infinities compare statically
        for x, y, o in ((a, b, op), (b, a, REFL[op])):
            if isinstance(y, float) and (y != y or abs(y) == float('inf')):
                if y != y:
                    return op == 'ne'
                pos = y > 0
                return {'eq': False, 'ne': True, 'lt': pos, 'le': pos,
                        'gt': not pos, 'ge': not pos}[o]
        if type(a) is Union and any(
                isinstance(x, float) and (x != x or abs(x) == float('inf'))
                for g, x in a.alts):
            return self.lift(a, lambda x: self.num_compare(op, x, b))
        if type(b) is Union and any(
                isinstance(x, float) and (x != x or abs(x) == float('inf'))
                for g, x in b.alts):
            return self.lift(b, lambda y: self.num_compare(op, a, y))
        ea, eb = self.num_e(a), self.num_e(b)
        f = {'eq': lambda: ea == eb, 'ne': lambda: ea != eb,
             'lt': lambda: ea < eb, 'le': lambda: ea <= eb,
             'gt': lambda: ea > eb, 'ge': lambda: ea >= eb}[op]
        return self.mkbool(self.aig.atom(f()))

    def obj_compare(self, op, a, b):
        name = '__%s__' % op
        rname = '__%s__' % REFL[op]

        def try_(x, y, n):
            if isinstance(x, SObj) and x.cls.lookup(n) is not UNSET:
                return self.callmethod(x, n, [y])
            return NotImplemented
        # subclass priority of reflected methods
        order = [(a, b, name), (b, a, rname)]
        if isinstance(a, SObj) and isinstance(b, SObj) and \
                b.cls is not a.cls and a.cls in b.cls.mro and \
                b.cls.lookup(rname) is not a.cls.lookup(rname):
            order.reverse()
        for x, y, n in order:
            r = try_(x, y, n)
            if r is not NotImplemented:
                return r
        if op == 'ne':
            r = try_(a, b, '__eq__')
            if r is not NotImplemented:
                return self.mkbool(self.truth(r) ^ 1)
            return a is not b
        if op == 'eq':
            return a is b
        self.throw(ExcVal(TypeError, (
            "'%s' not supported between instances" % op,)))

    def eq_lit(self, a, b):
        if a is b and not isinstance(a, float):
            return 1
        return self.truth(self.compare('eq', a, b))

    # ------------------------------------------------------------------
    # arithmetic
    # ------------------------------------------------------------------
    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if isinstance(a, SCALARS) and isinstance(b, SCALARS):
            try:
                return self.native_result(OPFN[op](a, b))
            except Exception as e:
                self.throw(ExcVal(type(e), e.args))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('op')
        if ta in (SBool, bool) and tb in (SBool, bool) and \
                op in ('and', 'or', 'xor'):
            la, lb = self.truth(a), self.truth(b)
            f = {'and': self.aig.AND, 'or': self.aig.OR,
                 'xor': self.aig.XOR}[op]
            return self.mkbool(f(la, lb))
        if isinstance(a, self.nm.SArray) or isinstance(b, self.nm.SArray):
            if ta is not Union and tb is not Union:
                return self.nm.binop(self, op, a, b)
        if op == 'add' or op == 'sub':
            if ta in (Union, SBool) or tb in (Union, SBool):
                la, lb = self.linof(a), self.linof(b)
                if la is not None and lb is not None:
                    return self.lin_add(la, lb, 1 if op == 'add' else -1)
        elif op == 'mul':
            for x, y in ((a, b), (b, a)):
                if type(x) is int and type(y) in (Union, SBool):
                    ly = self.linof(y)
                    if ly is not None:
                        r = self.lin_scale(ly, x)
                        return self.linear(r[0], list(r[1].items()))
        if ta is SBool and self.isnumeric(b):
            return self.binop(op, self.boolint(a), b)
        if tb is SBool and self.isnumeric(a):
            return self.binop(op, a, self.boolint(b))
        if self.scalar_union(a) and self.scalar_union(b):
            # 0/1 sums keep their guards small through lift2
            return self.lift2(a, b, OPFN[op])
        if (self.has_num(a) or self.has_num(b)) and self.isnumeric(a) and \
                self.isnumeric(b):
            return self.num_op(op, a, b)
        ca, cb = self.coalesce(a), self.coalesce(b)
        if ca is not a or cb is not b:
            return self.binop(op, ca, cb)
        if ta is Union:
            return self.lift(a, lambda x: self.binop(op, x, b))
        if tb is Union:
            return self.lift(b, lambda y: self.binop(op, a, y))
        if op in ('or', 'and', 'sub', 'xor'):
            if self.bm.is_keys(a) or self.bm.is_keys(b):
                # the key view of a dictionary takes part as a set
                return self.bm.set_op(self, op, self.bm.as_set(self, a),
                                      self.bm.as_set(self, b))
            if ta is SSet and tb is SSet:
                return self.bm.set_op(self, op, a, b)
        if ta is SList:
            r = self.bm.list_op(self, op, a, b)
            if r is not NotImplemented:
                return r
        if tb is SList and op == 'mul' and ta is not SObj:
            return self.bm.list_op(self, op, b, a)
        if ta is SDict and tb is SDict and op == 'or':
            d = self.bm.dict_copy(self, a)
            self.bm.dict_update(self, d, b)
            return d
        if ta is SObj or tb is SObj:
            order = [(a, b, '__%s__' % op), (b, a, '__r%s__' % op)]
            if ta is SObj and tb is SObj and a.cls is not b.cls and \
                    a.cls in b.cls.mro:
                order.reverse()
            for x, y, n in order:
                if isinstance(x, SObj) and x.cls.lookup(n) is not UNSET:
                    r = self.callmethod(x, n, [y])
                    if r is not NotImplemented:
                        return r
        if ta is str and op == 'mod':
            return self.bm.percent_format(self, a, b)
        r = self.bm.native_binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        self.throw(ExcVal(TypeError, (
            'unsupported operand types for %s: %s and %s' % (
                op, ta.__name__, tb.__name__),)))

    def coalesce(self, v):
        """a union of sets (or of lists) viewed as one container; used by
        operations that produce fresh results only"""
        if type(v) is not Union:
            return v
        alts = v.alts
        if all(type(x) is SSet for g, x in alts):
            s = SSet(self.pc)
            aig = self.aig
            for g, x in self.prune(v):
                for k, h in x.m.items():
                    gh = aig.AND(g, h)
                    if gh:
                        s.m[k] = aig.OR(s.m.get(k, 0), gh)
            return s
        if all(type(x) is SList and x.kind == alts[0][1].kind
               for g, x in alts):
            aig = self.aig
            slots = []
            for g, x in self.prune(v):
                for h, y in x.slots:
                    gh = aig.AND(g, h)
                    if gh:
                        slots.append((gh, y))
            return SList(slots, alts[0][1].kind, self.pc)
        return v

    def native_result(self, v):
        return v

    def num_op(self, op, a, b):
        if type(a) is Union and not all(type(x) is SNum or
                                        isinstance(x, NUMERIC)
                                        for g, x in a.alts):
            return self.lift(a, lambda x: self.num_op(op, x, b))
        for x in (a, b):
            for g, y in self.alts(x):
                if isinstance(y, float) and (y != y or
                                             abs(y) == float('inf')):
                    return self.inf_op(op, a, b)
        if op == 'pow':
            return self.nm.power(self, a, b)
        ea, eb = self.num_e(a), self.num_e(b)
        if op == 'add':
            r = ea + eb
        elif op == 'sub':
            r = ea - eb
        elif op == 'mul':
            r = ea * eb
        elif op == 'truediv':
            z = self.aig.atom(eb == 0)
            self.raise_if(z, ExcVal(ZeroDivisionError, ('division by zero',)))
            r = ea / eb
        elif op == 'mod':
            z = self.aig.atom(eb == 0)
            self.raise_if(z, ExcVal(ZeroDivisionError, ('modulo by zero',)))
            k = z3.ToReal(z3.ToInt(ea / eb))
            r = ea - k * eb
        elif op == 'floordiv':
            z = self.aig.atom(eb == 0)
            self.raise_if(z, ExcVal(ZeroDivisionError, ('division by zero',)))
            r = z3.ToReal(z3.ToInt(ea / eb))
        else:
            raise Unsupported('numeric %s' % op)
        return SNum(z3.simplify(r))

    def inf_op(self, op, a, b):
        if type(a) is Union:
            return self.lift(a, lambda x: self.num_op(op, x, b))
        if type(b) is Union:
            return self.lift(b, lambda y: self.num_op(op, a, y))
        x, y = a, b
        if type(x) is not SNum and type(y) is not SNum and (
                op in ('add', 'sub', 'mul') or op == 'truediv' and y != 0):
            return {'add': operator.add, 'sub': operator.sub,
                    'mul': operator.mul, 'truediv': operator.truediv}[op](
                        float(x), float(y))
        if isinstance(x, float) and type(y) is SNum:
            if x != x:
                return x
            if op in ('add', 'sub'):
                return x
        if isinstance(y, float) and type(x) is SNum:
            if y != y:
                return y
            if op == 'add':
                return y
            if op == 'sub':
                return -y
            if op == 'truediv':
                return 0.0
        if op == 'mul':
            s, f = (x, y) if type(x) is SNum else (y, x)
            pos = self.aig.atom(s.e > 0)
            zero = self.aig.atom(s.e == 0)
            return self.mkunion([
                (zero, float('nan')), (pos, f),
                (self.aig.AND(pos ^ 1, zero ^ 1), -f)])
        raise Unsupported('infinite operand')

    def inplace(self, op, a, b):
        def one(a):
            if isinstance(a, SSet) and not a.frozen and \
                    op in ('or', 'and', 'sub', 'xor'):
                bb = self.coalesce(self.pruned(b))
                if not isinstance(bb, SSet):
                    self.throw(ExcVal(TypeError, ('unsupported operand',)))
                self.bm.set_inplace(self, op, a, bb)
                return a
            if isinstance(a, SList) and a.kind != 'tuple':
                if op == 'add':
                    self.bm.list_extend(self, a, b)
                    return a
                if op == 'mul':
                    r = self.bm.list_op(self, 'mul', a, b)
                    self.bm.list_replace(self, a, r.slots)
                    return a
            if isinstance(a, SDict) and op == 'or':
                self.bm.dict_update(self, a, b)
                return a
            if isinstance(a, self.nm.SArray):
                return self.nm.inplace(self, op, a, b)
            if isinstance(a, SObj):
                m = '__i%s__' % op
                if a.cls.lookup(m) is not UNSET:
                    return self.callmethod(a, m, [b])
            return self.binop(op, a, b)
        if type(a) is Union and any(
                isinstance(x, (SSet, SList, SDict, SObj, self.nm.SArray))
                for g, x in a.alts):
            return self.lift(a, one)
        return one(a)

    # ------------------------------------------------------------------
    # containers
    # ------------------------------------------------------------------
    def mklist(self, xs):
        return SList([(1, x) for x in xs], 'list', self.pc)

    def mktuple(self, xs):
        return SList([(1, x) for x in xs], 'tuple', self.pc)

    def key(self, v):
        """hashable python key of a set element / dict key"""
        t = type(v)
        if t is SObj:
            if v.cls.lookup('__hash__') is not UNSET or \
                    v.cls.lookup('__eq__') is not UNSET:
                if v.cls.lookup('__eq__') is not UNSET:
                    raise Unsupported('user-defined __eq__ as set key')
            return v
        if isinstance(v, SCALARS):
            return v
        if t is SList and v.kind == 'tuple':
            if v.dense():
                return self.bm.TupleKey(tuple(self.key(x)
                                              for g, x in v.slots), v)
            raise Unsupported('tuple of symbolic length as key')
        if t is SSet and v.frozen:
            if all(g == 1 for g in v.m.values()):
                return self.bm.TupleKey(frozenset(v.m), v)
            raise Unsupported('symbolic frozenset as key')
        if t in (SSet, SList, SDict) or isinstance(v, self.nm.SArray):
            self.throw(ExcVal(TypeError, ('unhashable type',)))
        if t is SNum or t is SBool or t is Opaque:
            raise Unsupported('symbolic %s as key' % t.__name__)
        return v

    def unkey(self, k):
        return k.val if isinstance(k, self.bm.TupleKey) else k

    def key_alts(self, v):
        """[(literal, key)]"""
        t = type(v)
        if t is SBool:
            return [(v.lit, True), (v.lit ^ 1, False)]
        if t is Union:
            out = []
            for g, x in self.prune(v):
                for h, k in self.key_alts(x):
                    gh = self.aig.AND(g, h)
                    if gh:
                        out.append((gh, k))
            return out
        if t is SList and v.kind == 'tuple' and any(
                type(x) in (Union, SBool) for g, x in v.slots) and v.dense():
            combos = [(1, [])]
            for _, x in v.slots:
                nxt = []
                for g, pre in combos:
                    for h, y in (self.prune(x) if type(x) is Union else
                                 [(x.lit, True), (x.lit ^ 1, False)]
                                 if type(x) is SBool else [(1, x)]):
                        gh = self.aig.AND(g, h)
                        if gh:
                            nxt.append((gh, pre + [y]))
                combos = nxt
            return [(g, self.key(self.mktuple(p))) for g, p in combos]
        return [(1, self.key(v))]

    def set_add(self, s, v, guard=1):
        aig = self.aig
        for g, k in self.key_alts(v):
            g = aig.AND(g, guard)
            p = self.extend(self.pc, g)
            if p is None:
                continue
            l = self.rel(p, s.birth)
            o = s.m.get(k, 0)
            s.m[k] = aig.OR(o, l)

    def set_guard(self, s, k, lit_true, new):
        """s.m[k] := ite(pc, new, old)"""

    def dict_set(self, d, k, v):
        aig = self.aig
        for g, kk in self.key_alts(k):
            p = self.extend(self.pc, g)
            if p is None:
                continue
            if d.owner is not None:
                pc0, self.pc = self.pc, p
                try:
                    self.setobj(d.owner, kk, v)
                finally:
                    self.pc = pc0
            l = self.rel(p, d.birth)
            e = d.m.get(kk)
            if e is not None and e[0] == 0:
                del d.m[kk]
                e = None
            new = l if e is None else aig.AND(l, e[0] ^ 1)
            if d.log is not None:
                if new:
                    d.log.append([kk, new])
            elif e is not None and new:
                after = False
                for k2, e2 in d.m.items():
                    if k2 is kk or k2 == kk:
                        after = True
                    elif after and aig.AND(new, e2[0]):
                        d.log = [[k3, e3[0]] for k3, e3 in d.m.items()]
                        d.log.append([kk, new])
                        break
            if e is None:
                d.m[kk] = [l, v]
            else:
                if l == 1:
                    e[0], e[1] = 1, v
                else:
                    e[1] = self.ite(l, v, e[1]) if e[0] != 0 else v
                    e[0] = aig.OR(e[0], l)

    def contains(self, c, v):
        """literal for v in c"""
        aig = self.aig
        c = self.coalesce(c)
        t = type(c)
        if t is Union:
            return self.truth(self.lift(
                c, lambda x: self.mkbool(self.contains(x, v))))
        if t is SSet:
            if type(v) is SNum:
                return aig.ors([aig.AND(g, self.eq_lit(v, k))
                                for k, g in c.m.items()])
            return aig.ors([aig.AND(g, c.m.get(k, 0))
                            for g, k in self.key_alts(v)])
        if t is SDict:
            return aig.ors([aig.AND(g, c.m[k][0])
                            for g, k in self.key_alts(v) if k in c.m])
        if t is SObj:
            if c.cls.lookup('__contains__') is not UNSET:
                return self.truth(self.callmethod(c, '__contains__', [v]))
            el = self.elements(c)
            return aig.ors([aig.AND(g, self.eq_lit(x, v)) for g, x in el])
        if t is SList or t is SIter:
            el = self.elements(c)
            return aig.ors([aig.AND(g, self.eq_lit(x, v)) for g, x in el])
        if isinstance(c, self.nm.SArray):
            return aig.ors([aig.AND(g, self.eq_lit(x, v))
                            for g, x in self.nm.slots_of(c)])
        if isinstance(c, (str, bytes, range)) or isinstance(
                c, (set, frozenset, tuple, list, dict)):
            def one(x):
                if isinstance(x, SNum) or isinstance(x, SBool):
                    return self.mkbool(aig.ors([self.eq_lit(x, y)
                                                for y in c]))
                try:
                    return x in c
                except TypeError as e:
                    self.throw(ExcVal(TypeError, e.args))
            return self.truth(self.lift(v, one))
        return self.bm.contains_other(self, c, v)

    def elements(self, c):
        """guarded elements [(literal, value)] of an iterable (snapshot)"""
        return list(self.live_iter(c))

    def live_iter(self, c):
        aig = self.aig
        c0 = c
        c = self.coalesce(c)
        t = type(c)
        if t is SList:
            i = 0
            while i < len(c.slots):
                yield c.slots[i]
                i += 1
            return
        if t is SSet:
            for k in self.sorted_keys(c.m):
                yield (c.m[k], self.unkey(k))
            return
        if t is SDict:
            for g, k, x in c.ordered():
                yield (g, self.unkey(k))
            return
        if t is SIter:
            if c.lazy is not None:
                if c.lst is None:
                    c.lst = SList([], 'list', c.birth)
            else:
                self.force(c)
            lst = c.lst
            i = 0
            while i < len(lst.slots) or c.lazy is not None and self.pull(c):
                g, x = lst.slots[i]
                p = self.extend(self.pc, g)
                if p is not None:
                    used = self.rel(self.pc, lst.birth)
                    lst.slots[i] = (aig.AND(g, used ^ 1), x)
                    yield (g, x)
                i += 1
            if all(g == 0 for g, x in lst.slots):
                lst.slots.clear()
            return
        if t is Union:
            alts = self.prune(c)
            if len(alts) == 1:
                for e in self.live_iter(alts[0][1]):
                    yield e
                return
            pc0 = self.pc
            for g, x in alts:
                p = self.extend(pc0, g)
                if p is None:
                    continue
                self.pc = p
                els = self.elements(x)
                self.pc = pc0
                for h, y in els:
                    yield (aig.AND(g, h), y)
            return
        if isinstance(c, self.nm.SArray):
            for e in self.nm.iterate(self, c):
                yield e
            return
        if t is SObj:
            if c.cls.lookup('__iter__') is not UNSET:
                for e in self.live_iter(self.callmethod(c, '__iter__', [])):
                    yield e
                return
            if c.cls.lookup('__getitem__') is not UNSET:
                raise Unsupported('legacy iteration')
        if isinstance(c, (range, str, bytes, tuple, list, set, frozenset,
                          dict)) or isinstance(c, collections.abc.Iterable):
            for x in c:
                yield (1, self.bm.raise_native(self, x))
            return
        self.throw(ExcVal(TypeError, ('%s object is not iterable' %
                                      type(c).__name__,)))

    def force(self, it):
        """runs a thunk on the paths that are here for the first time"""
        if it.thunk is None:
            return
        if it.lst is None:
            it.lst = SList([], 'list', it.birth)
        here = self.rel(self.pc, it.birth)
        new = self.aig.AND(it.un, here)
        if self.simp(self.pc, it.un) == 0:
            return
        it.un = self.aig.AND(it.un, here ^ 1)
        f = it.thunk[0]
        if it.un == 0:
            it.thunk = None
        pc0, mark = self.pc, len(self.kills)
        p1, p0 = self.split(new)
        if p1 is None:
            return
        self.pc = p1
        alive = [] if p0 is None else [p0]
        try:
            r = f()
            g0 = self.rel(r.birth, it.birth)
            it.lst.slots.extend((self.aig.AND(g0, g), x) for g, x in r.slots)
            alive.append(self.pc)
        except DeadPath:
            pass
        self.join(pc0, mark, alive)

    def pull(self, it):
        """one more element of a native iterator, into its buffer"""
        if it.lst is None:
            it.lst = SList([], 'list', it.birth)
        try:
            x = next(it.lazy)
        except StopIteration:
            return False
        if len(it.lst.slots) > self.unwind * 4:
            self.bound('infinite iterator')
        it.lst.slots.append((1, self.bm.raise_native(self, x)))
        return True

    ordkey = None

    def sorted_keys(self, m):
        def kf(k):
            if isinstance(k, SObj):
                return (2, k.oid)
            if isinstance(k, (int, float, Fraction)):
                return (0, k)
            if isinstance(k, str):
                return (1, k)
            return (3, 0)
        ks = list(m)
        try:
            ks.sort(key=kf)
        except TypeError:
            pass
        return ks

    def compact(self, slots):
        """slots with decreasing guards: position p present iff length > p"""
        if all(g == 1 for g, x in slots):
            return slots
        slots = [(self.simp(self.pc, g), x) for g, x in slots]
        slots = [(g, x) for g, x in slots if g != 0]
        if all(g == 1 for g, x in slots):
            return slots
        aig = self.aig
        n = len(slots)
        cols = [[] for _ in range(n)]
        cnt = [1]
        for g, x in slots:
            for p, c in enumerate(cnt):
                l = aig.AND(c, g)
                if l:
                    cols[p].append((l, x))
            new = [0] * (len(cnt) + 1)
            for p, c in enumerate(cnt):
                new[p] = aig.OR(new[p], aig.AND(c, g ^ 1))
                new[p + 1] = aig.OR(new[p + 1], aig.AND(c, g))
            cnt = new
        out = []
        for p in range(n):
            if not cols[p]:
                continue
            present = aig.ors(cnt[p + 1:])
            if present == 0:
                break
            out.append((present, self.mkunion(cols[p])))
        return out

    def getitem(self, o, i):
        return self.bm.getitem(self, o, i)

    def setitem(self, o, i, v):
        self.bm.setitem(self, o, i, v)

    def delitem(self, o, i):
        self.bm.delitem(self, o, i)

    def length(self, v):
        return self.bm.b_len(self, [v], {})
