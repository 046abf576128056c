"""Symbolic side of the harness API (module `vh` inside the executor)."""
import random
from fractions import Fraction
import z3
from core import *
from aig import FALSE, TRUE, AND, VAR, SolverUnknown
import builtins_m as bm
import numpy_m as nm


class CaseState:
    """inputs and obligations of one symbolic harness run"""

    def __init__(self, I, findings=()):
        self.I = I
        self.inputs = []       # (kind, payload) in call order
        self.obl = []          # (literal of the violation, message, finding)
        self.findings = set(findings)
        self.rng = random.Random(12345)
        self.reach = None
        self.sweeps = 0
        self.swept = 0
        self.selbits = {}
        self.real_vals = []


def rand_poset(rng, n):
    """a random strict partial order with an arbitrary labelling"""
    mode = rng.random()
    p = rng.choice((0.1, 0.25, 0.4, 0.6, 0.85))
    r = [[False] * n for _ in range(n)]
    if mode < 0.3:           # 2D random order
        a = [rng.random() for _ in range(n)]
        b = [rng.random() for _ in range(n)]
        for i in range(n):
            for j in range(n):
                r[i][j] = a[i] < a[j] and b[i] < b[j]
    elif mode < 0.45:        # layered
        lev = [rng.randrange(3) for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if lev[i] < lev[j]:
                    r[i][j] = lev[j] > lev[i] + 1 or rng.random() < p
    else:
        o = list(range(n))
        rng.shuffle(o)
        for i in range(n):
            for j in range(i + 1, n):
                r[o[i]][o[j]] = rng.random() < p
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                for j in range(n):
                    if r[k][j]:
                        r[i][j] = True
    return r


def top(I, st):
    if I.pc.conj and any(True for _ in ()):
        raise Unsupported('input under a condition')


def patbits(W, f):
    w = 0
    for k in range(W):
        if f(k):
            w |= 1 << k
    return w


def v_boolean(I, args, kwargs):
    st = I.vh
    W = I.aig.W
    l = I.aig.var('b%d' % len(st.inputs), st.rng.getrandbits(W))
    st.inputs.append(('bool', l))
    return SBool(l)


def one_of(I, st, m, tag):
    """binary coded selector with m values; returns list of literals"""
    aig = I.aig
    nb = max(1, (m - 1).bit_length())
    W = aig.W
    vals = [st.rng.randrange(m) for _ in range(W)]
    bits = [aig.var('%s%d_%d' % (tag, len(st.inputs), k),
                    patbits(W, lambda p: vals[p] >> k & 1))
            for k in range(nb)]
    lits = [aig.ands([bits[k] ^ (0 if v >> k & 1 else 1)
                      for k in range(nb)]) for v in range(m)]
    if m < 1 << nb:
        bad = [aig.ands([bits[k] ^ (0 if v >> k & 1 else 1)
                         for k in range(nb)]) for v in range(m, 1 << nb)]
        aig.assert_base(aig.ors(bad) ^ 1)
    st.selbits[lits[0], lits[-1]] = bits
    return lits


def v_integer(I, args, kwargs):
    st = I.vh
    lo, hi = args
    m = hi - lo + 1
    if m == 1:
        st.inputs.append(('const', lo))
        return lo
    lits = one_of(I, st, m, 'i')
    st.inputs.append(('sel', lits, list(range(lo, hi + 1))))
    return Union([(l, lo + k) for k, l in enumerate(lits)])


def v_choice(I, args, kwargs):
    st = I.vh
    xs = I.elements(args[0])
    if any(g != 1 for g, x in xs):
        raise Unsupported('choice of a symbolic list')
    xs = [x for g, x in xs]
    if len(xs) == 1:
        st.inputs.append(('const', 0))
        return xs[0]
    lits = one_of(I, st, len(xs), 'c')
    st.inputs.append(('sel', lits, list(range(len(xs)))))
    return I.mkunion([(l, x) for l, x in zip(lits, xs)])


def v_real(I, args, kwargs):
    st = I.vh
    lo, hi = args
    x = z3.Real('x%d' % len(st.inputs))
    st.inputs.append(('real', x))
    vals = []
    for k in range(min(I.aig.W, 512)):
        m = st.rng.random()
        if m < 0.55:
            v = st.rng.uniform(lo, hi)
        elif m < 0.75:
            v = lo + (hi - lo) * st.rng.randrange(9) / 8
        elif m < 0.85:
            v = min(max(0.0, lo), hi)
        elif st.real_vals:
            v = min(max(st.rng.choice((1, 1, 1, -1)) *
                        st.rng.choice(st.real_vals)[k], lo), hi)
        else:
            v = min(max(1.0, lo), hi)
        vals.append(float(v))
    st.real_vals.append(vals)
    I.aig.real_var(str(x), vals)
    l = I.aig.ands([I.aig.atom(x >= to_z3(lo)), I.aig.atom(x <= to_z3(hi))])
    I.aig.assert_base(l)
    return SNum(x)


def v_fresh(I, args, kwargs):
    """an arbitrary number that is not an input"""
    st = I.vh
    lo, hi = args
    x = z3.Real('f%d' % len(st.real_vals))
    vals = [st.rng.uniform(lo, hi) for k in range(min(I.aig.W, 512))]
    st.real_vals.append(vals)
    I.aig.real_var(str(x), vals)
    I.aig.assert_base(I.aig.ands([I.aig.atom(x >= to_z3(lo)),
                                  I.aig.atom(x <= to_z3(hi))]))
    return SNum(x)


def v_unsupported(I, args, kwargs):
    raise Unsupported(args[0])


def v_perm(I, args, kwargs):
    """a list of n distinct integers base..base+n-1"""
    st = I.vh
    n = args[0]
    base = args[1] if len(args) > 1 else 0
    aig, W = I.aig, I.aig.W
    pats = []
    for _ in range(W):
        p = list(range(n))
        st.rng.shuffle(p)
        pats.append(p)
    X = [[aig.var('p%d_%d_%d' % (len(st.inputs), i, v),
                  patbits(W, lambda k: pats[k][i] == v))
          for v in range(n)] for i in range(n)]
    if n == 1:
        aig.assert_base(X[0][0])
    for i in range(n):
        aig.assert_base(aig.ors(X[i]))
        for a in range(n):
            for b in range(a):
                aig.assert_base(aig.AND(X[i][a], X[i][b]) ^ 1)
                aig.assert_base(aig.AND(X[a][i], X[b][i]) ^ 1)
    st.inputs.append(('perm', X, base))
    return I.mklist([Union([(X[i][v], base + v) for v in range(n)])
                     if n > 1 else base for i in range(n)])


def v_poset(I, args, kwargs):
    """n x n nested list of booleans: an arbitrary strict partial order.
    natural=True restricts to i<j whenever i precedes j"""
    st = I.vh
    n = args[0]
    natural = kwargs.get('natural', False)
    aig, W = I.aig, I.aig.W
    pats = []
    for _ in range(W):
        r = rand_poset(st.rng, n)
        if natural:
            o = sorted(range(n), key=lambda i: sum(r[j][i]
                                                   for j in range(n)))
            r = [[r[o[i]][o[j]] for j in range(n)] for i in range(n)]
        pats.append(r)
    L = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and (i < j or not natural):
                L[i][j] = aig.var('R%d_%d' % (i, j),
                                  patbits(W, lambda k: pats[k][i][j]))
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if i < j and not natural:
                aig.assert_base(aig.AND(L[i][j], L[j][i]) ^ 1)
            for k in range(n):
                if k != i and k != j:
                    aig.assert_base(aig.AND(aig.AND(L[i][k], L[k][j]),
                                            L[i][j] ^ 1) ^ 1)
    st.inputs.append(('poset', L))
    return I.mklist([I.mklist([I.mkbool(L[i][j]) for j in range(n)])
                     for i in range(n)])


def v_matrix(I, args, kwargs):
    """n x m nested list of free booleans"""
    st = I.vh
    n, m = args
    aig, W = I.aig, I.aig.W
    dens = [st.rng.choice((0.1, 0.3, 0.5, 0.8)) for _ in range(W)]
    L = [[aig.var('M%d_%d_%d' % (len(st.inputs), i, j),
                  patbits(W, lambda k: st.rng.random() < dens[k]))
          for j in range(m)] for i in range(n)]
    st.inputs.append(('poset', L))
    return I.mklist([I.mklist([I.mkbool(x) for x in r]) for r in L])


def v_assume(I, args, kwargs):
    l = I.truth(args[0])
    if l == 1:
        return None
    g = I.rel(I.pc, I.root)
    I.aig.assert_base(I.aig.OR(g ^ 1, l))
    p = I.extend(I.pc, l)
    if p is None or not I.feasible(p.lit):
        raise DeadPath
    return None


def add_obl(I, l, msg, finding=None):
    bad = I.aig.AND(I.rel(I.pc, I.root), l ^ 1)
    st = I.vh
    st.nchecks = getattr(st, 'nchecks', 0) + 1
    if bad:
        st.obl.append((bad, msg, finding))


def v_check(I, args, kwargs):
    msg = args[1] if len(args) > 1 else kwargs.get('msg', 'check')
    if isinstance(msg, Union):
        msg = ' / '.join(str(x) for g, x in msg.alts)
    add_obl(I, I.truth(args[0]), str(msg))
    return None


def v_finding(I, args, kwargs):
    """finding(id, region, cond, msg): cond must hold; inside region it may
    fail if the finding is listed as known"""
    fid, region, cond, msg = args
    lr, lc = I.truth(region), I.truth(cond)
    if fid in I.vh.findings:
        add_obl(I, I.aig.OR(lr, lc), msg)
        bad = I.aig.ands([I.rel(I.pc, I.root), lr, lc ^ 1])
        I.vh.obl.append((bad, msg, fid))
    else:
        add_obl(I, lc, msg)
    return None


def v_fail(I, args, kwargs):
    add_obl(I, 0, str(args[0]))
    return None


def v_scratch(I, args, kwargs):
    return 'scratch/' + args[0]


def v_symbolic(I, args, kwargs):
    return True


# ----------------------------------------------------------------------
# SAT sweeping of the heap
# ----------------------------------------------------------------------
class Sweeper:
    def __init__(self, I):
        self.I = I
        self.aig = I.aig
        self.canon = {}
        self.map = {}
        self.fast = 0

    def sig(self, l):
        """signature restricted to valid patterns, polarity-normalised"""
        a = self.aig
        s = a.simval(l) & a.valid
        neg = s & 1 if a.valid & 1 else (s >> self.low) & 1
        if neg:
            s = ~s & a.valid
        return s, neg

    def run(self, extra=()):
        a = self.aig
        if not a.valid:
            return
        self.low = (a.valid & -a.valid).bit_length() - 1
        self.canon = {}
        self.addcanon(TRUE)
        for n in a.inputs:
            self.addcanon(2 * n)
        lits = set()
        self.walk(lambda l: (lits.add(l), l)[1])
        for l in sorted(lits):
            if l > 1 and not a.taint[l >> 1]:
                self.map[l] = self.find(l)
        self.walk(lambda l: self.map.get(l, l))

    def addcanon(self, l):
        s, neg = self.sig(l)
        self.canon.setdefault(s, []).append(l ^ neg)

    def find(self, l):
        a = self.aig
        for attempt in range(12):
            s, neg = self.sig(l)
            w = a.W
            cands = self.canon.get(s, [])
            for c in cands:
                c ^= neg
                if c == l:
                    return l
                x = a.XOR(c, l)
                if x == 0:
                    return c
                m = a.solve([x], timeout_ms=20000)
                if m is None:
                    return c
                a.pending.append(m)
            if a.pending:
                a._resim()
                self.low = (a.valid & -a.valid).bit_length() - 1
                old = self.canon
                self.canon = {}
                for ls in old.values():
                    for c in ls:
                        self.addcanon(c)
                continue
            break
        self.addcanon(l)
        return l

    def walk(self, f):
        """apply f to every literal of the heap reachable from the modules
        and the harness frame"""
        I = self.I
        seen = set()
        stack = []

        def val(v):
            t = type(v)
            if t is SBool:
                return I.mkbool(f(v.lit))
            if t is Union:
                alts = []
                for g, x in v.alts:
                    g2 = f(g)
                    if g2 == 0:
                        continue
                    y = val(x)
                    if g2 == 1:
                        return y
                    alts.append((g2, y))
                if len(alts) == 1:
                    return alts[0][1]
                return Union(alts) if alts else v
            push(v)
            return v

        def push(v):
            t = type(v)
            if t in (SObj, SList, SSet, SDict, Frame, IModule, IFunction,
                     IClass, SIter, BoundMethod) or isinstance(v, nm.SArray):
                if id(v) not in seen:
                    seen.add(id(v))
                    stack.append(v)
        for m in I.modules.values():
            push(m)
        for fr in I.vh.frames:
            push(fr)
        while stack:
            o = stack.pop()
            t = type(o)
            if t is SObj:
                for c in o.attrs.values():
                    c.v = val(c.v)
                push(o.cls)
            elif t is SList:
                o.slots[:] = [(f(g), val(x)) for g, x in o.slots]
                o.slots[:] = [s for s in o.slots if s[0] != 0]
            elif t is SSet:
                for k in list(o.m):
                    g = f(o.m[k])
                    if g == 0:
                        del o.m[k]
                    else:
                        o.m[k] = g
                    push(I.unkey(k))
            elif t is SDict:
                for e in o.log or ():
                    e[1] = f(e[1])
                for k in list(o.m):
                    e = o.m[k]
                    e[0] = f(e[0])
                    if e[0] == 0:
                        del o.m[k]
                        continue
                    e[1] = val(e[1])
                    push(I.unkey(k))
            elif t is Frame:
                for c in o.vars.values():
                    c.v = val(c.v)
                if o.parent is not None:
                    push(o.parent)
            elif t is IModule:
                for c in o.ns.values():
                    if isinstance(c, Cell):
                        c.v = val(c.v)
            elif t is IClass:
                for c in o.ns.values():
                    c.v = val(c.v)
            elif t is IFunction:
                for c in o.attrs.values():
                    c.v = val(c.v)
                if o.frame is not None:
                    push(o.frame)
                for d in o.defaults:
                    push(d)
            elif t is SIter:
                if o.lst is not None:
                    push(o.lst)
            elif t is BoundMethod:
                push(o.self)
            elif isinstance(o, nm.SArray):
                for c in o.a.flat:
                    c.v = val(c.v)


def v_sweep(I, args, kwargs):
    if I.kills or I.pc.conj:
        return None
    f = I.vh.cur
    I.vh.frames = []
    g = I.vh.cur
    while g is not None:
        I.vh.frames.append(g)
        g = g.parent
    s = Sweeper(I)
    for a in args:
        pass
    I.vh.extra = args
    s.run()
    I.vh.sweeps += 1
    I.vh.swept += sum(1 for k, v in s.map.items() if k != v)
    return None


def install(I, findings=()):
    I.vh = CaseState(I, findings)
    ns = {}
    for name, fn in dict(boolean=v_boolean, integer=v_integer,
                         choice=v_choice, real=v_real, perm=v_perm,
                         poset=v_poset, matrix=v_matrix,
                         fresh=v_fresh, unsupported=v_unsupported, assume=v_assume,
                         check=v_check, finding=v_finding, fail=v_fail,
                         scratch=v_scratch, symbolic=v_symbolic).items():
        ns[name] = Intrinsic('vh.' + name, fn)

    def sweep_raw(I, n, fr):
        I.vh.cur = fr
        return v_sweep(I, [], {})
    ns['sweep'] = Intrinsic('vh.sweep', v_sweep, sweep_raw)
    I.vhmod = bm.NMod('vh', ns, None, False)
    return I.vhmod


def decode(I, model):
    """concrete input values, in call order, from a model"""
    z = model.get('z3')

    def b(l):
        n = l >> 1
        if n == 0:
            return bool(l & 1)
        if I.aig.kind[n] == VAR:
            v = model.get(n, False)
        else:
            v = evlit(n)
        return bool(v) ^ bool(l & 1)
    memo = {}

    def evlit(n):
        st = [n]
        aig = I.aig
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x == 0:
                memo[x] = False
            elif aig.kind[x] == VAR:
                memo[x] = bool(model.get(x, False))
            elif aig.kind[x] == AND:
                a, c = aig.f0[x], aig.f1[x]
                todo = [y >> 1 for y in (a, c) if y >> 1 not in memo]
                if todo:
                    st.extend(todo)
                    continue
                memo[x] = (memo[a >> 1] ^ bool(a & 1)) and \
                    (memo[c >> 1] ^ bool(c & 1))
            else:
                memo[x] = z is not None and z3.is_true(
                    z.eval(aig.payload[x], model_completion=True))
            st.pop()
        return memo[n]
    out = []
    for inp in I.vh.inputs:
        k = inp[0]
        if k == 'const':
            out.append(inp[1])
        elif k == 'bool':
            out.append(b(inp[1]))
        elif k == 'sel':
            val = inp[2][0]
            for l, v in zip(inp[1], inp[2]):
                if b(l):
                    val = v
            out.append(val)
        elif k == 'perm':
            p = []
            for row in inp[1]:
                v = [j for j, l in enumerate(row) if b(l)]
                p.append((v[0] if v else 0) + inp[2])
            out.append(p)
        elif k == 'poset':
            out.append([[b(l) for l in r] for r in inp[1]])
        elif k == 'real':
            if 'reals' in model:
                out.append(model['reals'][str(inp[1])])
                continue
            if z is None:
                out.append(None)
                continue
            v = z.eval(inp[1], model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(40)
            out.append(float(Fraction(v.numerator_as_long(),
                                      v.denominator_as_long())))
    return out


def encode(I, inputs):
    """inverse of decode: values of the input variables (dict node -> bool),
    and the values of the real inputs"""
    model, reals = {}, []

    def put(l, v):
        if l > 1 and I.aig.kind[l >> 1] == VAR:
            model[l >> 1] = bool(v) ^ bool(l & 1)
    for inp, v in zip(I.vh.inputs, inputs):
        k = inp[0]
        if k == 'bool':
            put(inp[1], v)
        elif k == 'sel':
            i = inp[2].index(v)
            for j, b in enumerate(I.vh.selbits[inp[1][0], inp[1][-1]]):
                put(b, i >> j & 1)
        elif k == 'perm':
            for row, x in zip(inp[1], v):
                for j, l in enumerate(row):
                    put(l, j + inp[2] == x)
        elif k == 'poset':
            for row, x in zip(inp[1], v):
                for l, y in zip(row, x):
                    put(l, y)
        elif k == 'real':
            reals.append((inp[1], Fraction(v)))
    return model, reals


def evaluator(I, model):
    """evaluates untainted literals under an assignment of the inputs"""
    aig = I.aig
    memo = {0: False}

    def ev(l):
        st = [l >> 1]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
            elif aig.kind[x] == VAR:
                memo[x] = bool(model.get(x, False))
                st.pop()
            else:
                a, c = aig.f0[x], aig.f1[x]
                todo = [y >> 1 for y in (a, c) if y >> 1 not in memo]
                if todo:
                    st.extend(todo)
                    continue
                memo[x] = (memo[a >> 1] ^ bool(a & 1)) and \
                    (memo[c >> 1] ^ bool(c & 1))
                st.pop()
        return memo[l >> 1] ^ bool(l & 1)
    return ev
