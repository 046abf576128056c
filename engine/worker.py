"""Decides one harness case: symbolic execution of the harness and of the
code of the repository, then one solver query per obligation; every
counterexample is replayed on the real code."""
import json
import os
import subprocess
import sys
import threading
import time
import traceback
import resource

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from fractions import Fraction  # noqa: E402
import z3  # noqa: E402
from core import *  # noqa: E402
from aig import SolverUnknown  # noqa: E402
import interp as interp_m  # noqa: E402
import vhsym  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def repo_paths(repo=REPO):
    paths = {}
    for base, dirs, files in os.walk(repo):
        dirs[:] = [d for d in dirs if not d.startswith('.') and
                   d not in ('__pycache__', 'build', 'dist')]
        rel = os.path.relpath(base, repo)
        pre = [] if rel == '.' else rel.split(os.sep)
        for f in files:
            if not f.endswith('.py') or f.startswith('test_'):
                continue
            parts = ['causets'] + pre
            if f != '__init__.py':
                parts = parts + [f[:-3]]
            paths['.'.join(parts)] = os.path.join(base, f)
    return paths


class Native:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                   MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONHASHSEED='0',
                   PYTHONPATH=pkgroot())
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, 'native', 'runner.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, text=True)

    def run(self, job):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            self.p = None
            return dict(error='native process died')
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()


_root = None


def pkgroot():
    """directory in which `causets` resolves to the repository"""
    global _root
    if _root is None:
        if os.path.realpath('/opt/causets-path/causets') == \
                os.path.realpath(REPO):
            _root = '/opt/causets-path'
        else:
            import tempfile
            import atexit
            import shutil
            _root = tempfile.mkdtemp(prefix='vhpkg_')
            os.symlink(REPO, os.path.join(_root, 'causets'))
            atexit.register(shutil.rmtree, _root, True)
    return _root


class Case:
    def __init__(self, spec):
        self.spec = spec
        self.t0 = time.time()
        self.native = Native()
        self.out = dict(case=spec['name'], status='error', cex=[], known=[],
                        notes=[])

    def job(self, **kw):
        s = self.spec
        j = dict(file=s['file'], fn=s['fn'], params=s['params'],
                 known=s.get('known', []), timeout=s.get('replay_s', 20))
        j.update(kw)
        return j

    def execute(self):
        s = self.spec
        I = interp_m.Interp(dict(repo_paths()), seed=s.get('seed', 1),
                            width=s.get('width', 256),
                            unwind=s.get('unwind', 64),
                            depth=s.get('depth', 120))
        self.I = I
        hd = os.path.dirname(s['file'])
        for h in os.listdir(hd):
            if h.endswith('.py'):
                I.paths.setdefault(h[:-3], os.path.join(hd, h))
        I.paths['harness'] = s['file']
        I.deadline = self.t0 + s.get('exec_s', 300)
        I.aig.theory_timeout = s.get('theory_ms', 60000)
        I.modproxy['vh'] = vhsym.install(I, s.get('known', ()))
        try:
            mod = I.load('harness')
        except DeadPath:
            raise Unsupported('import fails: %s' % [
                self.describe(k.val) for k in I.kills])
        f = mod.ns[s['fn']].v
        self.reached = True
        try:
            I.call(f, [], dict(s['params']))
        except DeadPath:
            self.reached = False
        self.out['exec_s'] = round(time.time() - self.t0, 2)

    def describe(self, exc):
        if isinstance(exc, ExcVal):
            n = getattr(exc.cls, '__name__', getattr(exc.cls, 'name', '?'))
            return 'uncaught %s %s' % (n, ' '.join(
                str(a) for a in exc.args if isinstance(a, (str, int))))
        if isinstance(exc, Union):
            return ' | '.join(sorted({self.describe(x)
                                      for g, x in exc.alts}))
        return 'uncaught exception'

    def decide(self):
        I, out = self.I, self.out
        st = I.vh
        obl = list(st.obl)
        for k in I.kills:
            if k.kind == 'raise':
                obl.append((k.pc.lit, self.describe(k.val), None))
            else:
                raise Unsupported('stray %s' % k.kind)
        I.deadline = None
        self.obl = obl
        # vacuity: the end of the harness must be reachable
        self.vac(obl)
        out['obligations'] = len(obl)
        out['checks'] = getattr(st, 'nchecks', 0)
        proved = undecided = 0
        violations, spurious = [], []
        seen = set()
        triv = 0
        for i, (bad, msg, fid) in enumerate(obl):
            if bad == 0:
                triv += 1
                proved += 1
                continue
            if (bad, fid) in seen:
                proved += 1
                continue
            if time.time() - self.t0 > self.spec.get('limit_s', 600):
                undecided += 1
                out['notes'].append('time limit: ' + msg)
                continue
            if fid is None and self.sampled(bad, msg, violations):
                if len(violations) >= 2:
                    break
                continue
            try:
                m = I.aig.solve([bad], timeout_ms=self.spec.get(
                    'query_ms', 120000))
            except SolverUnknown as e:
                undecided += 1
                out['notes'].append('undecided: %s (%s)' % (msg, e))
                m = self.guess(bad, msg, fid, violations)
                continue
            if m is None:
                proved += 1
                seen.add((bad, fid))
                continue
            r = self.replay(bad, m, msg, fid)
            if r is None:
                spurious.append(msg)
                continue
            if fid is not None:
                out['known'].append(dict(id=fid, what=msg, inputs=r['inputs']))
                continue
            violations.append(r)
            if len(violations) >= 2:
                break
        out['proved'] = proved
        out['undecided'] = undecided
        out['spurious'] = spurious[:20]
        out['cex'] = violations
        if violations:
            out['status'] = 'violated'
        elif spurious:
            out['status'] = 'spurious'
        elif undecided:
            out['status'] = 'undecided'
        else:
            out['status'] = 'proved'

    def vac(self, obl):
        I = self.I
        if not self.reached:
            self.out['reach'] = False
            return
        lit = I.rel(I.pc, I.root)
        try:
            m = I.aig.solve([lit])
            self.out['reach'] = m is not None
            if m is not None:
                self.out['witness'] = vhsym.decode(I, m)
        except SolverUnknown:
            self.out['reach'] = None

    def natives(self, inputs, fid=None):
        """failing native run for these inputs or None"""
        known = [] if fid else self.spec.get('known', [])
        if fid:
            known = [k for k in self.spec.get('known', []) if k != fid]
        res = None
        for h in (0, 1, 2, 3):
            r = self.native.run(self.job(inputs=inputs, hash=h, known=known))
            if r.get('error'):
                self.out['notes'].append('native: ' + r['error'][-300:])
                return None
            if not r['assumed']:
                return None
            if r['failures'] or r['exc']:
                r['hash'] = h
                return r
        return None

    def replay(self, bad, m, msg, fid):
        I = self.I
        ins = vhsym.decode(I, m)
        self.out.setdefault('replays', 0)
        self.out['replays'] += 1
        r = self.natives(ins, fid)
        if r is None and 'z3' in m:
            for step in (4, 64, 1024):
                mm = self.grid_model([bad], step)
                if mm is None:
                    continue
                ins = vhsym.decode(I, mm)
                self.out['replays'] += 1
                r = self.natives(ins, fid)
                if r is not None:
                    break
        if r is None:
            self.out['notes'].append('not reproduced: %s inputs=%s' % (
                msg, json.dumps(ins)[:600]))
            return None
        return dict(message=msg, inputs=ins, hash=r['hash'],
                    native=(r['failures'][:5] or [r['exc']]))

    def grid_model(self, lits, step, timeout=20000):
        """a model whose real inputs are multiples of 1/step"""
        I = self.I
        aig = I.aig
        exprs = [aig.to_z3(l) for l in lits] + \
            [aig.to_z3(l) for l in aig.base]
        facts = aig._relevant_facts(exprs)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*exprs)
        s.add(*facts)
        for inp in I.vh.inputs:
            if inp[0] == 'real':
                k = z3.FreshInt('g')
                s.add(inp[1] * step == z3.ToReal(k))
        if s.check() != z3.sat:
            return None
        m = s.model()
        out = {'z3': m}
        for n in aig.inputs:
            e = aig._z3.get(n)
            out[n] = e is not None and z3.is_true(m.eval(e))
        return out

    def sampled(self, bad, msg, violations):
        """a sampled point that satisfies the violation"""
        I = self.I
        for m in I.aig.rmodels(bad, 3):
            ins = vhsym.decode(I, m)
            r = self.natives(ins)
            if r is not None:
                violations.append(dict(
                    message=msg, inputs=ins, hash=r['hash'],
                    native=(r['failures'][:5] or [r['exc']])))
                return True
        return False

    def guess(self, bad, msg, fid, violations):
        """an undecided query: look for a model on a coarse grid"""
        if fid is not None:
            return
        for step in (1, 4):
            try:
                m = self.grid_model([bad], step, 10000)
            except Exception:
                m = None
            if m is None:
                continue
            ins = vhsym.decode(self.I, m)
            r = self.natives(ins)
            if r is not None:
                violations.append(dict(
                    message=msg, inputs=ins, hash=r['hash'],
                    native=(r['failures'][:5] or [r['exc']])))
                return

    def bound(self, e):
        """a loop or recursion bound was exceeded: replay a witness"""
        I, out = self.I, self.out
        out['notes'].append('bound: %s' % e)
        out['status'] = 'undecided'
        if self.spec.get('exec_s') and 'time budget' in str(e):
            return
        try:
            m = I.aig.solve([I.rel(I.pc, I.root)])
        except SolverUnknown:
            return
        if m is None:
            return
        r = self.natives(vhsym.decode(I, m))
        if r is not None:
            out['status'] = 'violated'
            out['cex'] = [dict(message=str(e), inputs=vhsym.decode(I, m),
                               hash=r['hash'],
                               native=(r['failures'][:5] or [r['exc']]))]

    def pending(self):
        """obligations collected before an early stop"""

    def main(self):
        out = self.out
        try:
            try:
                self.execute()
                self.decide()
            except BoundExceeded as e:
                self.bound(e)
            except Unsupported as e:
                out['status'] = 'unsupported'
                n = self.I.node
                out['notes'].append('unsupported: %s (line %s)' % (
                    e, getattr(n, 'lineno', '?')))
                if self.spec.get('debug'):
                    traceback.print_exc()
            except SolverUnknown as e:
                out['status'] = 'undecided'
                out['notes'].append('unknown: %s' % e)
            except (MemoryError, RecursionError) as e:
                out['status'] = 'undecided'
                out['notes'].append(repr(e)[:200])
        except BaseException:
            out['status'] = 'error'
            out['notes'].append(traceback.format_exc()[-3000:])
        I = getattr(self, 'I', None)
        if I is not None:
            out['functions'] = {k: v for k, v in I.calls.items()
                                if k.startswith('causets.')}
            out['stats'] = dict(I.aig.stats, nodes=len(I.aig.kind),
                                steps=I.steps, base=len(I.aig.base),
                                facts=len(I.aig.base_z3),
                                sweeps=I.vh.sweeps, swept=I.vh.swept,
                                inputs=len(I.vh.inputs))
        if self.spec.get('validate'):
            self.validate(self.spec['validate'])
        if self.spec.get('diff') and hasattr(self, 'obl'):
            self.diff(self.spec['diff'])
        out['wall_s'] = round(time.time() - self.t0, 2)
        out['maxrss_mb'] = resource.getrusage(
            resource.RUSAGE_SELF).ru_maxrss // 1024
        self.native.close()

    def diff(self, k):
        """executor self-test: on random inputs the symbolic obligations
        evaluate to exactly the failures that the real code shows"""
        I = self.I
        aig = I.aig
        same = different = skipped = failing = 0
        for i in range(k):
            r = self.native.run(self.job(seed=1000 + i, hash=0))
            if r.get('error'):
                self.out['notes'].append(r['error'][-500:])
                break
            if not r['assumed'] or len(r['inputs']) != len(I.vh.inputs):
                skipped += 1
                continue
            model, reals = vhsym.encode(I, r['inputs'])
            ev = vhsym.evaluator(I, model)
            want = set(r['failures'])
            got = set()
            if any(aig.taint[b >> 1] for b, m, f in self.obl):
                s = z3.Solver()
                s.set('timeout', 20000)
                for n, v in model.items():
                    s.add(aig.to_z3(2 * n) == v)
                for x, v in reals:
                    s.add(x == z3.RealVal(str(v)))
                for f in aig.base_z3:
                    s.add(f[1])
                for b, m, f in self.obl:
                    s.push()
                    s.add(aig.to_z3(b))
                    if s.check() == z3.sat:
                        got.add(m)
                    s.pop()
            else:
                for b, m, f in self.obl:
                    if ev(b):
                        got.add(m)
            exc = any(m.startswith('uncaught') for m in got)
            got = {m for m in got if not m.startswith('uncaught')}
            if want or r['exc']:
                failing += 1
            if got == want and exc == bool(r['exc']):
                same += 1
            else:
                different += 1
                if different <= 2:
                    self.out['notes'].append(
                        'EXECUTOR DIFFERS inputs=%s native=%s %s symbolic=%s '
                        '%s' % (json.dumps(r['inputs'])[:400], sorted(want),
                                r['exc'], sorted(got), exc))
        self.out['diff'] = dict(same=same, different=different,
                                skipped=skipped, failing=failing)

    def validate(self, k):
        """native random runs must not fail where the solver found nothing"""
        ok = bad = skipped = 0
        for i in range(k):
            r = self.native.run(self.job(seed=i, hash=i % 3))
            if r.get('error'):
                self.out['notes'].append(r['error'][-500:])
                break
            if not r['assumed']:
                skipped += 1
            elif r['failures'] or r['exc']:
                bad += 1
                if bad <= 3:
                    self.out['notes'].append(
                        'NATIVE FAILURE inputs=%s hash=%d %s %s' % (
                            json.dumps(r['inputs']), i % 3, r['failures'][:3],
                            r['exc']))
            else:
                ok += 1
        self.out['validated'] = dict(ok=ok, bad=bad, skipped=skipped)


def main():
    spec = json.loads(sys.stdin.read())
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    c = Case(spec)
    t = threading.Thread(target=c.main)
    t.start()
    t.join()
    sys.stdout.write(json.dumps(c.out) + '\n')


if __name__ == '__main__':
    main()
