from common import *
from causets.calculations import HarmonicNumber, HarmonicNumbers, \
    HarmonicNumberFraction, HarmonicNumberFractions, NewtonsMethod
from fractions import Fraction

CASES = [
    dict(fn='harmonic', params=dict(n=10), tier='quick'),
    dict(fn='harmonic', params=dict(n=25), tier='thorough'),
    dict(fn='harmonics', params=dict(n=6), tier='quick'),
    dict(fn='harmonics', params=dict(n=10), tier='thorough'),
    dict(fn='fractions', params=dict(n=8), tier='quick'),
    dict(fn='fractions', params=dict(n=30), tier='thorough'),
    dict(fn='numbers', params=dict(n=150), tier='quick'),
    dict(fn='linear', params=dict(), tier='quick'),
    dict(fn='flat', params=dict(), tier='quick'),
    dict(fn='restricted', params=dict(), tier='quick'),
    dict(fn='root', params=dict(steps=2), tier='quick'),
    dict(fn='root', params=dict(steps=3), tier='thorough'),
    dict(fn='bounded_root', params=dict(steps=2), tier='quick'),
    dict(fn='bounded_root', params=dict(steps=3), tier='thorough'),
]


def exact(n):
    return sum([Fraction(1, k) for k in range(1, n + 1)], Fraction(0, 1))


def near(x, y, eps):
    return x - y <= eps and y - x <= eps


def accuracy(k, a):
    """error of the asymptotic expansion"""
    return 1e-9 if k < a else 1e-9 + 1.0 / (250.0 * k**6)


def harmonic(n):
    """harmonic numbers, computed directly or by asymptotic expansion"""
    k = vh.integer(0, n)
    a = vh.integer(1, n + 1)
    h = HarmonicNumber(k, approximate=a)
    g = HarmonicNumber(k)
    for j in range(n + 1):
        if k == j:
            want = float(exact(j))
            vh.check(near(g, want, 1e-9), 'harmonic number')
            for b in range(1, n + 2):
                if a == b:
                    vh.check(near(h, want, accuracy(j, b)),
                             'approximated harmonic number')


def harmonics(n):
    """vectors of harmonic numbers"""
    k = vh.integer(0, n)
    a = vh.integer(1, n + 1)
    for j in range(n + 1):
        if k == j:
            for b in range(1, n + 2):
                if a == b:
                    H = HarmonicNumbers(j, approximate=b)
                    vh.check(len(H) == j + 1, 'number of entries')
                    for i in range(j + 1):
                        vh.check(near(H[i], float(exact(i)),
                                      accuracy(i, b)), 'harmonic number')
            H = HarmonicNumbers(j)
            vh.check(len(H) == j + 1, 'number of entries')
            for i in range(j + 1):
                vh.check(near(H[i], float(exact(i)), 1e-9),
                         'harmonic number')


def numbers(n):
    """many harmonic numbers, with the threshold by default"""
    k = vh.integer(0, n)
    want = [Fraction(0, 1)]
    for i in range(1, n + 1):
        want.append(want[-1] + Fraction(1, i))
    F = HarmonicNumberFractions(n)
    H = HarmonicNumbers(n)
    vh.check(len(F) == n + 1 and len(H) == n + 1, 'number of entries')
    for i in range(n + 1):
        if k == i:
            vh.check(F[i] == want[i], 'fraction')
            vh.check(HarmonicNumberFraction(i) == want[i], 'one fraction')
            vh.check(near(H[i], float(want[i]), accuracy(i, 100)),
                     'harmonic number')
            vh.check(near(HarmonicNumber(i), float(want[i]),
                          accuracy(i, 100)), 'one harmonic number')


def fractions(n):
    """exact harmonic numbers"""
    k = vh.integer(0, n)
    for j in range(n + 1):
        if k == j:
            vh.check(HarmonicNumberFraction(j) == exact(j), 'fraction')
            H = HarmonicNumberFractions(j)
            vh.check(len(H) == j + 1, 'number of fractions')
            for i in range(j + 1):
                vh.check(H[i] == exact(i), 'fraction')


def line(a, b):
    return (lambda x: a * x + b), (lambda x: a)


def slope():
    a = vh.real(-4.0, 4.0)
    vh.assume(a <= -0.125 or a >= 0.125)
    return a


def linear():
    """Newton's method solves linear equations"""
    a, b = slope(), vh.real(-4.0, 4.0)
    y, x0 = vh.real(-4.0, 4.0), vh.real(-4.0, 4.0)
    f, fp = line(a, b)
    r = NewtonsMethod(f, fp, x0, y, default=77.0, precission=0.001)
    vh.check(near(a * r + b, y, 1e-6), 'solution')
    r = NewtonsMethod(f, fp, x0, default=77.0, precission=0.001)
    vh.check(near(a * r + b, 0.0, 1e-6), 'root')


def flat():
    """without a solution, the default is returned"""
    b, y = vh.real(-4.0, 4.0), vh.real(-4.0, 4.0)
    x0 = vh.real(-4.0, 4.0)
    default = vh.real(-9.0, 9.0)
    f, fp = line(0.0, b)
    vh.check(NewtonsMethod(f, fp, x0, y, default=default) == default,
             'slope 0')
    a = slope()
    f, fp = line(a, b)
    vh.check(NewtonsMethod(f, fp, x0, y, default=default,
                           maxIterations=0) == default, 'no iterations')
    # x -> -x: never settles
    vh.assume(x0 <= -0.1 or x0 >= 0.1)
    r = NewtonsMethod(lambda x: x, lambda x: 0.5, x0, default=default,
                      precission=0.001, maxIterations=5)
    vh.check(r == default, 'no convergence')


def restricted():
    """results stay inside the interval, away from its ends"""
    a, b = slope(), vh.real(-4.0, 4.0)
    y, x0 = vh.real(-4.0, 4.0), vh.real(-4.0, 4.0)
    p = vh.real(0.001, 0.25)
    lo = vh.real(-3.0, 0.0)
    hi = vh.real(1.0, 3.0)
    vh.assume(lo + p <= x0 and x0 <= hi - p)
    f, fp = line(a, b)
    r = NewtonsMethod(f, fp, x0, y, xmin=lo, xmax=hi, default=77.0,
                      precission=p)
    vh.check(lo + p - 1e-6 <= r and r <= hi - p + 1e-6,
             'inside the interval')
    if r > lo + p + 1e-6 and r < hi - p - 1e-6:
        vh.check(near(a * r + b, y, 1e-6), 'solution')
    s = (y - b) / a
    if s >= lo + p and s <= hi - p:
        vh.check(near(r, s, p + 1e-6), 'solution in the interval')


def root(steps):
    """the square root by Newton's method is as precise as requested"""
    c = vh.real(1.0, 9.0)
    x0 = vh.real(0.5, 4.0)
    p = 0.0625
    r = NewtonsMethod(lambda x: x * x - c, lambda x: 2 * x, x0,
                      default=-1.0, precission=p, maxIterations=steps)
    if r != -1.0:
        vh.check(near(r * r, c, p * p + 1e-6), 'precision')
    if near(x0 * x0, c, p / 2):
        vh.check(r != -1.0, 'convergence')


def bounded_root(steps):
    """an end of the interval is not mistaken for a root next to which the
    iteration left the interval"""
    c = vh.real(4.0, 9.0)
    x0 = vh.real(0.25, 4.0)
    lower = vh.boolean()
    p = 0.0625
    if lower:
        r = NewtonsMethod(lambda x: x * x - c, lambda x: 2 * x, -x0,
                          xmin=-5.0, xmax=0.0, default=7.0, precission=p,
                          maxIterations=steps)
        vh.check(r == 7.0 or -5.0 + p <= r <= -p, 'inside the interval')
    else:
        r = NewtonsMethod(lambda x: x * x - c, lambda x: 2 * x, x0,
                          xmin=0.0, xmax=5.0, default=7.0, precission=p,
                          maxIterations=steps)
        vh.check(r == 7.0 or p <= r <= 5.0 - p, 'inside the interval')
    if r != 7.0:
        vh.check(near(r * r, c, p * p + 1e-6), 'precision')
