"""And-inverter graph with structural hashing, bit-parallel simulation and a
z3 back end.  Literals are ints: 2*node+neg.  Literal 0 is False, 1 is True."""
import random
import time
import numpy as np
import z3
from z3 import z3core
from poly import Polys, TooBig

FALSE, TRUE = 0, 1
VAR, ATOM, AND = 0, 1, 2


class SolverUnknown(Exception):
    pass


def _fold(f):
    def g(a, *r):
        for b in r:
            a = f(a, b)
        return a
    return g


ROPS = {
    z3.Z3_OP_ADD: _fold(lambda a, b: a + b),
    z3.Z3_OP_MUL: _fold(lambda a, b: a * b),
    z3.Z3_OP_SUB: _fold(lambda a, b: a - b),
    z3.Z3_OP_UMINUS: lambda a: -a,
    z3.Z3_OP_DIV: lambda a, b: a / b,
    z3.Z3_OP_IDIV: lambda a, b: np.floor(a / b),
    z3.Z3_OP_MOD: lambda a, b: a - b * np.floor(a / b),
    z3.Z3_OP_POWER: lambda a, b: a ** b,
    z3.Z3_OP_TO_REAL: lambda a: a,
    z3.Z3_OP_TO_INT: np.floor,
    z3.Z3_OP_IS_INT: lambda a: a == np.floor(a),
    z3.Z3_OP_ITE: np.where,
    z3.Z3_OP_LE: lambda a, b: a <= b,
    z3.Z3_OP_GE: lambda a, b: a >= b,
    z3.Z3_OP_LT: lambda a, b: a < b,
    z3.Z3_OP_GT: lambda a, b: a > b,
    z3.Z3_OP_EQ: lambda a, b: a == b,
    z3.Z3_OP_DISTINCT: lambda a, b: a != b,
    z3.Z3_OP_NOT: lambda a: ~a,
    z3.Z3_OP_AND: _fold(lambda a, b: a & b),
    z3.Z3_OP_OR: _fold(lambda a, b: a | b),
    z3.Z3_OP_XOR: lambda a, b: a ^ b,
    z3.Z3_OP_IMPLIES: lambda a, b: ~a | b,
}


def linear_solver():
    """products are arbitrary numbers: only its unsat answers count"""
    s = z3.SimpleSolver()
    s.set('arith.nl', False)
    return s


class Aig:
    def __init__(self, seed=1):
        self.kind = [AND]          # node 0 = constant
        self.f0 = [0]
        self.f1 = [0]
        self.sim = [0]
        self.taint = [False]
        self.payload = {}          # node -> name / z3 expr
        self.hash = {}
        self.atoms = {}            # z3 ast id -> lit
        self.base = []             # literals that hold in every state
        self.base_z3 = []          # z3 facts (theory side conditions)
        self.memo_syms = {}        # symbols of expressions
        self.W = 0
        self.mask = 0
        self.valid = 0             # which patterns satisfy base
        self.rng = random.Random(seed)
        self.inputs = []           # (node)
        self.patterns = []         # list of dict node->bool
        self.pending = []
        self._z3 = {}
        self._enc = set()
        self._solver = None
        self._encc = {}
        self._base_done = 0
        self.cache = {}
        self.stats = dict(sat_calls=0, sat_time=0.0, sim_hits=0,
                          theory_calls=0, theory_time=0.0)
        self.theory_timeout = 60000
        self.feasible_timeout = 1500
        self.vars_z3 = []          # theory input variables
        self.poly = Polys()
        self.atommemo = {}
        self.rwidth = 0            # number of sampled points
        self.rval = {}             # theory variable -> sampled values
        self.rdef = {}             # auxiliary variable -> (function, args)
        self._rsim = {}
        self._rmemo = {}
        self._rvalid = None

    # ---- construction -------------------------------------------------
    def _new(self, kind, a, b, sim, taint):
        n = len(self.kind)
        self.kind.append(kind)
        self.f0.append(a)
        self.f1.append(b)
        self.sim.append(sim)
        self.taint.append(taint)
        return n

    def var(self, name, pattern=None):
        sim = 0
        if pattern is not None:
            sim = pattern & self.mask
        elif self.W:
            sim = self.rng.getrandbits(self.W) & self.mask
        n = self._new(VAR, 0, 0, sim, False)
        self.payload[n] = name
        self.inputs.append(n)
        return 2 * n

    def atom(self, expr):
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return TRUE
        if z3.is_false(expr):
            return FALSE
        neg = 0
        if z3.is_not(expr):
            neg, expr = 1, expr.arg(0)
        kind = expr.decl().kind()
        if kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ) and \
                z3.is_real(expr.arg(0)):
            try:
                e, c = self.poly.compare(kind, expr.arg(0), expr.arg(1))
            except TooBig:
                pass
            else:
                if e is None:
                    return (TRUE if c else FALSE) ^ neg
                expr = e
        k = expr.get_id()
        r = self.atoms.get(k)
        if r is None:
            n = self._new(ATOM, 0, 0, 0, True)
            self.payload[n] = expr
            r = self.atoms[k] = 2 * n
        return r ^ neg

    def AND(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        if a ^ 1 == b:
            return 0
        kind, f0, f1 = self.kind, self.f0, self.f1
        na, nb = a >> 1, b >> 1
        if kind[nb] == AND:
            b0, b1 = f0[nb], f1[nb]
            if b & 1 == 0:
                if a == b0 or a == b1:
                    return b
                if a ^ 1 == b0 or a ^ 1 == b1:
                    return 0
            else:
                if a == b0:
                    return self.AND(a, b1 ^ 1)
                if a == b1:
                    return self.AND(a, b0 ^ 1)
                if a ^ 1 == b0 or a ^ 1 == b1:
                    return a
        if kind[na] == AND:
            a0, a1 = f0[na], f1[na]
            if a & 1 == 0:
                if b == a0 or b == a1:
                    return a
                if b ^ 1 == a0 or b ^ 1 == a1:
                    return 0
            else:
                if b == a0:
                    return self.AND(b, a1 ^ 1)
                if b == a1:
                    return self.AND(b, a0 ^ 1)
                if b ^ 1 == a0 or b ^ 1 == a1:
                    return b
            if kind[nb] == AND:
                b0, b1 = f0[nb], f1[nb]
                if a & 1 == 0 and b & 1 == 0:
                    if (a0 ^ 1 == b0 or a0 ^ 1 == b1 or
                            a1 ^ 1 == b0 or a1 ^ 1 == b1):
                        return 0
                elif a & 1 == 0:      # b negated
                    if (a0 ^ 1 == b0 or a0 ^ 1 == b1 or
                            a1 ^ 1 == b0 or a1 ^ 1 == b1):
                        return a
                    if a0 == b0 or a1 == b0:
                        return self.AND(a, b1 ^ 1)
                    if a0 == b1 or a1 == b1:
                        return self.AND(a, b0 ^ 1)
                elif b & 1 == 0:      # a negated
                    if (b0 ^ 1 == a0 or b0 ^ 1 == a1 or
                            b1 ^ 1 == a0 or b1 ^ 1 == a1):
                        return b
                    if b0 == a0 or b1 == a0:
                        return self.AND(b, a1 ^ 1)
                    if b0 == a1 or b1 == a1:
                        return self.AND(b, a0 ^ 1)
                else:                 # both negated: resolution
                    if a0 == b0 and a1 ^ 1 == b1:
                        return a0 ^ 1
                    if a0 == b1 and a1 ^ 1 == b0:
                        return a0 ^ 1
                    if a1 == b0 and a0 ^ 1 == b1:
                        return a1 ^ 1
                    if a1 == b1 and a0 ^ 1 == b0:
                        return a1 ^ 1
        key = (a, b)
        n = self.hash.get(key)
        if n is None:
            m = self.mask
            sa = self.sim[na] ^ (m if a & 1 else 0)
            sb = self.sim[nb] ^ (m if b & 1 else 0)
            n = self._new(AND, a, b, sa & sb,
                          self.taint[na] or self.taint[nb])
            self.hash[key] = n
        return 2 * n

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def ands(self, lits):
        lits = sorted(set(lits))
        if not lits:
            return TRUE
        while len(lits) > 1:
            nxt = [self.AND(lits[i], lits[i + 1])
                   for i in range(0, len(lits) - 1, 2)]
            if len(lits) & 1:
                nxt.append(lits[-1])
            lits = nxt
        return lits[0]

    def ors(self, lits):
        return self.ands([l ^ 1 for l in lits]) ^ 1

    def ITE(self, g, a, b):
        if g == 1:
            return a
        if g == 0:
            return b
        if a == b:
            return a
        if a == 1:
            return self.OR(g, b)
        if a == 0:
            return self.AND(g ^ 1, b)
        if b == 1:
            return self.OR(g ^ 1, a)
        if b == 0:
            return self.AND(g, a)
        return self.OR(self.AND(g, a), self.AND(g ^ 1, b))

    def XOR(self, a, b):
        return self.ITE(a, b ^ 1, b)

    def IFF(self, a, b):
        return self.ITE(a, b, b ^ 1)

    # ---- simulation ---------------------------------------------------
    def simval(self, lit):
        return self.sim[lit >> 1] ^ (self.mask if lit & 1 else 0)

    def seed_patterns(self, width):
        """extend the number of simulation patterns (before inputs exist)"""
        assert len(self.kind) == 1
        self.W = width
        self.mask = (1 << width) - 1
        self.valid = self.mask

    def assert_base(self, lit):
        if lit == TRUE:
            return
        self.base.append(lit)
        if not self.taint[lit >> 1]:
            self.valid &= self.simval(lit)
        else:
            self.valid = 0
        self.cache.clear()

    def _resim(self):
        pend, self.pending = self.pending, []
        k = len(pend)
        for i, n in enumerate(self.inputs):
            w = 0
            for j, m in enumerate(pend):
                if m.get(n, False):
                    w |= 1 << j
            self.sim[n] |= w << self.W
        self.valid |= ((1 << k) - 1) << self.W
        self.W += k
        self.mask = (1 << self.W) - 1
        kind, f0, f1, sim, m = self.kind, self.f0, self.f1, self.sim, self.mask
        for n in range(1, len(kind)):
            if kind[n] == AND:
                a, b = f0[n], f1[n]
                sa = sim[a >> 1] ^ m if a & 1 else sim[a >> 1]
                sb = sim[b >> 1] ^ m if b & 1 else sim[b >> 1]
                sim[n] = sa & sb
        # atoms have sim 0: tainted nodes are never trusted

    # ---- sampled points of the theory variables: they only answer that
    # something is possible, never that it is not -----------------------
    def real_var(self, name, values):
        self.rval[name] = np.array(values, dtype=float)
        self.rwidth = len(values)

    def rnum(self, e):
        """values of a z3 term at the sampled points"""
        memo = self._rmemo
        r = memo.get(e.get_id())
        if r is not None:
            return r[0]
        st = [e]
        while st:
            x = st[-1]
            k = x.get_id()
            if k in memo:
                st.pop()
                continue
            deps = x.children()
            name = None
            if not deps and z3.is_const(x) and \
                    x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                name = x.decl().name()
                if name in self.rdef:
                    deps = self.rdef[name][1]
            todo = [d for d in deps if d.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[k] = (self._rop(x, name, [memo[d.get_id()][0]
                                           for d in deps]), x)
            st.pop()
        return memo[e.get_id()][0]

    def _rop(self, x, name, a):
        if name is not None:
            if name in self.rval:
                return self.rval[name]
            if name in self.rdef:
                return self.rdef[name][0](*a)
            raise KeyError(name)
        if z3.is_rational_value(x) or z3.is_int_value(x):
            return np.full(self.rwidth, float(x.as_fraction()
                                              if z3.is_rational_value(x)
                                              else x.as_long()))
        if z3.is_true(x) or z3.is_false(x):
            return np.full(self.rwidth, z3.is_true(x))
        k = x.decl().kind()
        f = ROPS.get(k)
        if f is None:
            raise KeyError(x.decl().name())
        return f(*a)

    def rsim(self, lit):
        """bit mask of the sampled points where lit holds"""
        memo = self._rsim
        M = (1 << self.rwidth) - 1
        st = [lit >> 1]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            k = self.kind[x]
            if x == 0:
                memo[x] = 0
            elif k == VAR:
                memo[x] = self.sim[x] & M
            elif k == ATOM:
                with np.errstate(all='ignore'):
                    v = self.rnum(self.payload[x])
                memo[x] = int.from_bytes(np.packbits(
                    v.astype(bool), bitorder='little').tobytes(),
                    'little') & M
            else:
                a, b = self.f0[x], self.f1[x]
                todo = [y >> 1 for y in (a, b) if y >> 1 not in memo]
                if todo:
                    st.extend(todo)
                    continue
                memo[x] = (memo[a >> 1] ^ (M if a & 1 else 0)) & \
                    (memo[b >> 1] ^ (M if b & 1 else 0))
            st.pop()
        return memo[lit >> 1] ^ (M if lit & 1 else 0)

    def rpossible(self, lit):
        """a sampled point satisfies lit and the base constraints"""
        if not self.rwidth:
            return False
        try:
            if self._rvalid is None:
                self._rvalid = [(1 << self.rwidth) - 1, 0]
            v = self._rvalid
            while v[1] < len(self.base):
                v[0] &= self.rsim(self.base[v[1]])
                v[1] += 1
            return bool(v[0]) and bool(v[0] & self.rsim(lit))
        except (KeyError, TypeError, ValueError, OverflowError):
            return False

    def rmodels(self, lit, count):
        """sampled points satisfying lit and the base constraints"""
        if not self.rpossible(lit):
            return []
        w = self._rvalid[0] & self.rsim(lit)
        out = []
        while w and len(out) < count:
            k = (w & -w).bit_length() - 1
            w &= w - 1
            m = {n: bool(self.sim[n] >> k & 1) for n in self.inputs}
            m['reals'] = {x: float(v[k]) for x, v in self.rval.items()}
            out.append(m)
        return out

    # ---- z3 -----------------------------------------------------------
    def to_z3(self, lit):
        n = lit >> 1
        r = self._z3.get(n)
        if r is None:
            stack = [n]
            while stack:
                x = stack[-1]
                if x in self._z3:
                    stack.pop()
                    continue
                k = self.kind[x]
                if x == 0:
                    self._z3[0] = z3.BoolVal(False)
                elif k == VAR:
                    self._z3[x] = z3.Bool('v%d' % x)
                elif k == ATOM:
                    self._z3[x] = self.payload[x]
                else:
                    a, b = self.f0[x] >> 1, self.f1[x] >> 1
                    todo = [y for y in (a, b) if y not in self._z3]
                    if todo:
                        stack.extend(todo)
                        continue
                    ea = self._z3[a]
                    eb = self._z3[b]
                    if self.f0[x] & 1:
                        ea = z3.Not(ea)
                    if self.f1[x] & 1:
                        eb = z3.Not(eb)
                    self._z3[x] = z3.And(ea, eb)
                stack.pop()
            r = self._z3[n]
        return z3.Not(r) if lit & 1 else r

    def from_z3(self, e):
        """Boolean z3 term over atoms -> literal"""
        if z3.is_true(e):
            return TRUE
        if z3.is_false(e):
            return FALSE
        if z3.is_not(e):
            return self.from_z3(e.arg(0)) ^ 1
        if z3.is_and(e):
            return self.ands([self.from_z3(c) for c in e.children()])
        if z3.is_or(e):
            return self.ors([self.from_z3(c) for c in e.children()])
        return self.atom(e)

    def _lit_ast(self, lit):
        n = lit >> 1
        e = self._encc.get(n)
        if e is None:
            e = z3.BoolVal(False) if n == 0 else z3.Bool('n%d' % n)
            self._encc[n] = e
        return z3.Not(e) if lit & 1 else e

    def _encode(self, lits):
        s = self._solver
        ctx = s.ctx
        cref = ctx.ref()
        stack = [l >> 1 for l in lits]
        enc = self._enc
        sref = s.solver
        mk_or = z3core.Z3_mk_or
        mk_not = z3core.Z3_mk_not
        add = z3core.Z3_solver_assert
        Ast2 = z3core.Ast * 2
        Ast3 = z3core.Ast * 3
        pos, neg = self._pos, self._neg

        def get(l):
            n = l >> 1
            p = pos.get(n)
            if p is None:
                e = self._lit_ast(2 * n)
                ne = z3.Not(e)
                self._keep.append(ne)
                pos[n] = p = e.as_ast()
                neg[n] = ne.as_ast()
            return neg[n] if l & 1 else p
        while stack:
            x = stack.pop()
            if x in enc:
                continue
            enc.add(x)
            if x == 0:
                continue
            if self.kind[x] == AND:
                a, b = self.f0[x], self.f1[x]
                X, nX = get(2 * x), get(2 * x + 1)
                A, nA = get(a), get(a ^ 1)
                B, nB = get(b), get(b ^ 1)
                c1 = mk_or(cref, 2, Ast2(nX, A))
                z3core.Z3_inc_ref(cref, c1)
                add(cref, sref, c1)
                c2 = mk_or(cref, 2, Ast2(nX, B))
                z3core.Z3_inc_ref(cref, c2)
                add(cref, sref, c2)
                c3 = mk_or(cref, 3, Ast3(X, nA, nB))
                z3core.Z3_inc_ref(cref, c3)
                add(cref, sref, c3)
                stack.append(a >> 1)
                stack.append(b >> 1)

    def _get_solver(self):
        if self._solver is None:
            self._solver = z3.SolverFor('QF_FD')
            self._pos, self._neg, self._keep = {}, {}, []
        return self._solver

    def solve(self, lits, timeout_ms=None, model=False, quick=False):
        """Is the conjunction of lits (and base) satisfiable?
        Returns None (unsat) or a model dict {node: bool} / z3 model."""
        lits = [l for l in set(lits) if l != TRUE]
        if FALSE in lits or any(l ^ 1 in lits for l in lits):
            return None
        tainted = any(self.taint[l >> 1] for l in lits) or \
            any(self.taint[l >> 1] for l in self.base) or bool(self.base_z3)
        if tainted:
            return self._solve_theory(lits, timeout_ms, quick)
        t0 = time.time()
        s = self._get_solver()
        while self._base_done < len(self.base):
            l = self.base[self._base_done]
            self._encode([l])
            s.add(self._lit_ast(l))
            self._base_done += 1
        self._encode(lits)
        asm = [self._lit_ast(l) for l in lits]
        if timeout_ms:
            s.set('timeout', timeout_ms)
        r = s.check(*asm)
        self.stats['sat_calls'] += 1
        self.stats['sat_time'] += time.time() - t0
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            raise SolverUnknown(s.reason_unknown())
        m = s.model()
        out = {}
        for n in self.inputs:
            e = self._encc.get(n)
            if e is None:
                out[n] = False
            else:
                out[n] = z3.is_true(m.eval(e))
        return out

    def _support_atoms(self, lits):
        seen, st, res = set(), [l >> 1 for l in lits], []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.kind[x] == ATOM:
                res.append(x)
            elif self.kind[x] == AND and x:
                st.append(self.f0[x] >> 1)
                st.append(self.f1[x] >> 1)
        return res

    def _relevant_facts(self, exprs):
        """side conditions (definitions of auxiliary theory variables) that
        are connected to the query through auxiliary symbols"""
        memo = self.memo_syms

        def syms(e):
            k = e.get_id()
            r = memo.get(k)
            if r is None:
                out, st, seen = set(), [e], set()
                while st:
                    x = st.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_const(x) and \
                            x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    st.extend(x.children())
                r = memo[k] = (frozenset(out), e)
            return r[0]
        need = set()
        for e in exprs:
            need |= syms(e)
        out = []
        rest = list(self.base_z3)
        changed = True
        while changed:
            changed = False
            nrest = []
            for (owner, f) in rest:
                # owner: the auxiliary symbols this fact defines (or None:
                # always relevant)
                if owner is None or all(o in need for o in owner):
                    out.append(f)
                    need |= syms(f)
                    changed = True
                else:
                    nrest.append((owner, f))
            rest = nrest
        return out

    def _solve_theory(self, lits, timeout_ms, quick=False):
        t0 = time.time()
        exprs = [self.to_z3(l) for l in lits] + \
            [self.to_z3(l) for l in self.base]
        facts = self._relevant_facts(exprs)
        self.stats['theory_calls'] += 1
        tmo = timeout_ms or self.theory_timeout
        r = None
        n = 0
        for mk, frac in ((linear_solver, 0.1), (lambda: z3.Solver(), 0.15),
                         (lambda: z3.SolverFor('QF_NRA'), 0.3),
                         (lambda: z3.Then('simplify', 'purify-arith',
                                          'propagate-values', 'solve-eqs',
                                          'smt').solver(), 0.45)):
            if quick and n > 1:
                break
            n += 1
            s = mk()
            try:
                s.set('timeout', max(500, int(tmo * (1 if quick else frac))))
            except Exception:
                pass
            s.add(*exprs)
            s.add(*facts)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat or (r == z3.sat and mk is not linear_solver):
                break
        self.stats['theory_time'] += time.time() - t0
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            raise SolverUnknown('theory query: ' + s.reason_unknown())
        m = s.model()
        out = {'z3': m}
        for n in self.inputs:
            e = self._z3.get(n)
            out[n] = e is not None and z3.is_true(m.eval(e))
        return out

    def surely(self, lit):
        """satisfiable according to the solver (or undecided)"""
        try:
            return self.solve([lit], timeout_ms=20000) is not None
        except SolverUnknown:
            return True

    def feasible(self, lit):
        """cheap-first satisfiability of a single literal under base"""
        if lit == FALSE:
            return False
        if not self.taint[lit >> 1] and self.valid & self.simval(lit):
            self.stats['sim_hits'] += 1
            return True
        if lit == TRUE and not self.base and not self.base_z3:
            return True
        r = self.cache.get(lit)
        if r is None and self.rwidth and self.rpossible(lit):
            self.stats['sim_hits'] += 1
            r = self.cache[lit] = True
        if r is None:
            try:
                m = self.solve([lit], timeout_ms=self.feasible_timeout
                               if self.rwidth else 20000, quick=True)
            except SolverUnknown:
                m = {}
                r = True
            else:
                r = m is not None
            self.cache[lit] = r
            if m and 'z3' not in m:
                self.pending.append(m)
                if len(self.pending) >= 48:
                    self._resim()
        return r
