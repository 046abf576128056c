"""Native side of the harness API: inputs come from a recorded list (a
solver model) or from a random generator (engine validation)."""
import os
import random
import tempfile

_inputs = None
_pos = 0
_rng = None
_record = []
_failures = []
_checks = 0
_known = set()
_knownhits = []
_dir = None


class AssumptionFailed(Exception):
    pass


def _reset(inputs=None, seed=None, known=(), scratch=None):
    global _inputs, _pos, _rng, _dir, _checks
    _inputs, _pos = inputs, 0
    _rng = random.Random(seed)
    _record.clear()
    _failures.clear()
    _knownhits.clear()
    _known.clear()
    _known.update(known)
    _dir = scratch
    _checks = 0


def _take(gen):
    global _pos
    if _inputs is not None:
        if _pos >= len(_inputs):
            v = gen()
        else:
            v = _inputs[_pos]
            if v is None:
                v = gen()
    else:
        v = gen()
    _pos += 1
    _record.append(v)
    return v


def symbolic():
    return False


def boolean():
    return _take(lambda: _rng.random() < 0.5)


def integer(lo, hi):
    return _take(lambda: _rng.randint(lo, hi))


def choice(xs):
    xs = list(xs)
    return xs[_take(lambda: _rng.randrange(len(xs)))]


def real(lo, hi):
    v = _take(lambda: _rng.choice((
        _rng.uniform(lo, hi), float(round(_rng.uniform(lo, hi))))))
    return min(max(float(v), float(lo)), float(hi))


def perm(n, base=0):
    def gen():
        p = list(range(base, base + n))
        _rng.shuffle(p)
        return p
    return list(_take(gen))


def poset(n, natural=False):
    def gen():
        p = _rng.choice((0.1, 0.25, 0.4, 0.6, 0.85))
        r = [[False] * n for _ in range(n)]
        o = list(range(n))
        if not natural:
            _rng.shuffle(o)
        if _rng.random() < 0.3:
            a = [_rng.random() for _ in range(n)]
            b = sorted(_rng.random() for _ in range(n))
            for i in range(n):
                for j in range(i + 1, n):
                    r[o[i]][o[j]] = a[i] < a[j]
        else:
            for i in range(n):
                for j in range(i + 1, n):
                    r[o[i]][o[j]] = _rng.random() < p
        for k in range(n):
            for i in range(n):
                if r[i][k]:
                    for j in range(n):
                        if r[k][j]:
                            r[i][j] = True
        return r
    return [[bool(x) for x in row] for row in _take(gen)]


def matrix(n, m):
    return [[bool(x) for x in row] for row in _take(
        lambda: [[_rng.random() < 0.4 for _ in range(m)]
                 for _ in range(n)])]


def assume(c):
    if not c:
        raise AssumptionFailed


def check(c, msg='check'):
    global _checks
    _checks += 1
    if not c:
        _failures.append(str(msg))


def fail(msg):
    _failures.append(str(msg))


def finding(fid, region, cond, msg):
    if not cond:
        if fid in _known and region:
            _knownhits.append(fid)
        else:
            _failures.append(str(msg))


def sweep():
    pass


def scratch(name):
    return os.path.join(_dir or tempfile.gettempdir(), name)
