"""Normal forms of polynomial constraints modulo the defining equations of
auxiliary variables (a square root squared is its argument, cosh^2 is
1 + sinh^2, ...).  A polynomial is a dict monomial -> Fraction, a monomial a
sorted tuple of (variable index, exponent)."""
from fractions import Fraction
import z3

LIMIT = 4000


class TooBig(Exception):
    pass


class Polys:
    def __init__(self):
        self.index = {}      # ast id of an opaque term -> variable index
        self.terms = []      # variable index -> z3 term
        self.rules = {}      # variable index -> (power, polynomial)
        self.memo = {}

    def var(self, t):
        k = t.get_id()
        i = self.index.get(k)
        if i is None:
            i = self.index[k] = len(self.terms)
            self.terms.append(t)
        return i

    def rule(self, v, power, e):
        """v ** power == e"""
        i = self.var(v)
        try:
            self.rules[i] = (power, self.of(e))
        except TooBig:
            pass

    # ------------------------------------------------------------------
    def of(self, e):
        r = self.memo.get(e.get_id())
        if r is not None:
            return r[0]
        st = [e]
        memo = self.memo
        while st:
            x = st[-1]
            k = x.get_id()
            if k in memo:
                st.pop()
                continue
            kind = x.decl().kind()
            if kind in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB,
                        z3.Z3_OP_UMINUS):
                todo = [c for c in x.children() if c.get_id() not in memo]
                if todo:
                    st.extend(todo)
                    continue
                a = [memo[c.get_id()][0] for c in x.children()]
                if kind == z3.Z3_OP_ADD:
                    r = {}
                    for p in a:
                        r = add(r, p, 1)
                elif kind == z3.Z3_OP_SUB:
                    r = a[0]
                    for p in a[1:]:
                        r = add(r, p, -1)
                elif kind == z3.Z3_OP_UMINUS:
                    r = add({}, a[0], -1)
                else:
                    r = a[0]
                    for p in a[1:]:
                        r = self.mul(r, p)
            elif z3.is_rational_value(x):
                r = const(x.as_fraction())
            elif kind == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) \
                    and x.arg(1).as_fraction().denominator == 1 and \
                    1 <= x.arg(1).as_fraction() <= 8:
                b = x.arg(0)
                if b.get_id() not in memo:
                    st.append(b)
                    continue
                p = memo[b.get_id()][0]
                r = p
                for _ in range(int(x.arg(1).as_fraction()) - 1):
                    r = self.mul(r, p)
            elif kind == z3.Z3_OP_DIV and z3.is_rational_value(x.arg(1)) \
                    and x.arg(1).as_fraction() != 0:
                b = x.arg(0)
                if b.get_id() not in memo:
                    st.append(b)
                    continue
                r = add({}, memo[b.get_id()][0],
                        1 / Fraction(x.arg(1).as_fraction()))
            elif kind == z3.Z3_OP_DIV:
                todo = [c for c in x.children() if c.get_id() not in memo]
                if todo:
                    st.extend(todo)
                    continue
                r = self.divide(memo[x.arg(0).get_id()][0],
                                memo[x.arg(1).get_id()][0])
                if r is None:
                    r = {((self.var(x), 1),): Fraction(1)}
                elif k not in memo and x.arg(0).get_id() not in memo:
                    # the rules changed meanwhile
                    st = [e]
                    continue
            else:
                r = {((self.var(x), 1),): Fraction(1)}
            if len(r) > LIMIT:
                raise TooBig
            memo[k] = (r, x)
            st.pop()
        return memo[e.get_id()][0]

    def divide(self, p, q):
        """p / q for a product q of variables (known not to be 0)"""
        if len(q) != 1:
            return None
        (m, c), = q.items()
        if not m:
            return None
        for i, k in m:
            if i in self.rules:
                self.switch(i)
        inv = {tuple((i, -k) for i, k in m): 1 / c}
        return self.mul(p, inv)

    def switch(self, i):
        """v^2 == x^2 + rest shall replace x^2 instead of v^2"""
        w, body = self.rules[i]
        if w != 2 or any(c < 0 or any(k % 2 for _, k in m)
                         for m, c in body.items()):
            return               # (x^2 + rest could be negative)
        for m in sorted(body):
            if len(m) == 1 and m[0][1] == 2 and m[0][0] not in self.rules:
                x, c = m[0][0], body[m]
                rest = add(const(0), body, -1 / c)
                del rest[m]
                rest = add(rest, {((i, 2),): 1 / c}, 1)
                del self.rules[i]
                self.rules[x] = (2, rest)
                self.memo.clear()
                return

    def mul(self, p, q):
        if len(p) * len(q) > 40 * LIMIT:
            raise TooBig
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return self.reduce(r)

    def reduce(self, p):
        if not self.rules:
            return p
        for _ in range(200):
            for m in p:
                hit = None
                for i, k in m:
                    ru = self.rules.get(i)
                    if ru is not None and k >= ru[0]:
                        hit = (i, k, ru)
                        break
                if hit:
                    break
            else:
                return p
            # rewrite every monomial containing the variable to this power
            i, k, (w, body) = hit
            r = {}
            for m, c in p.items():
                e = dict(m).get(i, 0)
                if e < w:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
                    continue
                rest = tuple(x for x in m if x[0] != i)
                if e - w:
                    rest = mmul(rest, ((i, e - w),))
                for n, d in body.items():
                    kk = mmul(rest, n)
                    v = r.get(kk, 0) + c * d
                    if v:
                        r[kk] = v
                    else:
                        r.pop(kk, None)
            p = r
            if len(p) > LIMIT:
                raise TooBig
        raise TooBig

    # ------------------------------------------------------------------
    def term(self, m):
        f = []
        d = []
        for i, k in m:
            if k > 0:
                f += [self.terms[i]] * k
            else:
                d += [self.terms[i]] * -k
        r = f[0] if f else z3.RealVal(1)
        for x in f[1:]:
            r = r * x
        if d:
            q = d[0]
            for x in d[1:]:
                q = q * x
            r = r / q
        return r

    def build(self, p):
        """z3 term of a polynomial in canonical form"""
        out = []
        for m in sorted(p):
            c = p[m]
            if not m:
                out.append(z3.Q(c.numerator, c.denominator))
            elif c == 1:
                out.append(self.term(m))
            else:
                out.append(z3.Q(c.numerator, c.denominator) * self.term(m))
        if not out:
            return z3.RealVal(0)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def square(self, e):
        """the variable whose square is e"""
        try:
            p = self.of(e)
        except TooBig:
            return None
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 2:
                return self.terms[m[0][0]]
        return None

    def normal(self, e):
        """equal term in canonical form"""
        try:
            return self.build(self.of(e))
        except TooBig:
            return e

    def summands(self, e):
        """[(negative, term)] if e is a sum of up to three terms or has a
        negative factor, None if it is a single positive term"""
        try:
            p = self.of(e)
        except TooBig:
            return None
        if not 1 <= len(p) <= 3 or (len(p) == 1 and min(p.values()) > 0):
            return None
        return [(p[m] < 0, z3.simplify(self.build({m: abs(p[m])})))
                for m in sorted(p)]

    def scale(self, e):
        """(f, g) with e = f * g, f > 0 and a leading coefficient 1 or -1"""
        try:
            p = self.of(e)
        except TooBig:
            return 1, e
        ms = sorted(m for m in p if m)
        if not ms:
            return 1, e
        f = abs(p[ms[0]])
        if f == 1:
            return 1, e
        return f, z3.simplify(self.build({m: c / f for m, c in p.items()}))

    def compare(self, kind, a, b):
        """canonical (negated, z3 constraint) for a <= b, a >= b, a == b"""
        p = add(self.of(a), self.of(b), -1)
        p = self.reduce(p)
        low = {}
        for m in p:
            for i, k in m:
                if k < 0:
                    low[i] = min(k, low.get(i, 0))
        if low:
            # multiplied by even powers of the denominators
            p = self.mul(p, {tuple(sorted(
                (i, -k if k % 2 == 0 else 1 - k)
                for i, k in low.items())): Fraction(1)})
        c = p.pop((), Fraction(0))
        if not p:
            return None, (c <= 0 if kind == z3.Z3_OP_LE else
                          c >= 0 if kind == z3.Z3_OP_GE else c == 0)
        lead = p[min(p)]
        s = abs(lead)
        if lead < 0:
            s = -s
            kind = {z3.Z3_OP_LE: z3.Z3_OP_GE,
                    z3.Z3_OP_GE: z3.Z3_OP_LE}.get(kind, kind)
        t = self.build({m: v / s for m, v in p.items()})
        k = -c / s
        k = z3.Q(k.numerator, k.denominator)
        return (t <= k if kind == z3.Z3_OP_LE else
                t >= k if kind == z3.Z3_OP_GE else t == k), None


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def add(p, q, f):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, k in n:
        d[i] = d.get(i, 0) + k
    return tuple(sorted((i, k) for i, k in d.items() if k))
