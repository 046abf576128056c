#!/usr/bin/env python3
"""Decides one property of /verif/properties.jsonl for the code in /repo.

  check.py C03                      the tier named by VERIF_TIER (or quick)
  check.py C03 --tier thorough
  check.py C03 --case linked        only cases whose name contains the text
  check.py --replay FILE            replay a recorded counterexample natively

exit 0: every obligation of every case was discharged (listed known findings
excepted); exit 1: a counterexample was found and reproduced on the real code
(VIOLATION line); exit 2: something was left undecided.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
SOLVER_PY = os.environ.get('VERIF_SOLVER_PYTHON', 'python3-vt')
EVID = os.path.join(HERE, 'evidence')
BUDGET = {'quick': 780, 'thorough': 7200}
TRUSTED = [
    'the symbolic executor in /verif/engine: Python statements, expressions '
    'and built-in containers, with the numpy subset in numpy_m.py, are '
    'interpreted from the source text of /repo on every run',
    'z3 (QF_FD SAT core for finite structure, nonlinear real arithmetic for '
    'coordinates)',
    'coordinates are mathematical reals: floating-point rounding is outside '
    'the claim',
    'sets are iterated in creation order of the events inside the executor; '
    'results that must not depend on it are stated order-free',
]


def cases_of(path):
    tree = ast.parse(open(path).read())
    env = {'dict': dict, 'range': range, 'list': list}
    meta = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) \
                and s.targets[0].id in ('CASES', 'BOUNDS', 'OUTSIDE'):
            meta[s.targets[0].id] = eval(compile(
                ast.Expression(s.value), path, 'eval'), dict(env))
    return meta


def known_findings(pid):
    """ids of findings listed (not fixed) for this property"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                fid, _, text = rest.partition(' ')
                out[fid] = text
    return out


def run_case(spec, timeout):
    try:
        p = subprocess.Popen(
            [SOLVER_PY, os.path.join(HERE, 'engine', 'worker.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True, start_new_session=True,
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        try:
            out, err = p.communicate(json.dumps(spec), timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return dict(case=spec['name'], status='undecided', cex=[],
                        known=[], notes=['time limit of %ds' % timeout],
                        wall_s=timeout)
        lines = [l for l in out.splitlines() if l.startswith('{')]
        if not lines:
            return dict(case=spec['name'], status='error', cex=[], known=[],
                        notes=[err[-1500:] or 'no output (rc %s)' %
                               p.returncode], wall_s=0)
        return json.loads(lines[-1])
    except Exception as e:
        return dict(case=spec['name'], status='error', cex=[], known=[],
                    notes=[repr(e)], wall_s=0)


def case_name(c):
    return c['fn'] + '(' + ', '.join(
        '%s=%s' % kv for kv in c.get('params', {}).items()) + ')'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case', default='')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--validate', type=int, default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = a.tier if a.tier in BUDGET else 'quick'
    pid = a.pid
    t0 = time.time()
    path = os.path.join(HERE, 'harness', pid.lower() + '.py')
    meta = cases_of(path)
    known = known_findings(pid)
    specs = []
    for c in meta['CASES']:
        if tier == 'quick' and c.get('tier', 'quick') != 'quick':
            continue
        d = dict(c)
        d.setdefault('params', {})
        d['name'] = case_name(d)
        if a.case and a.case not in d['name']:
            continue
        d.update(file=path, seed=seed, known=sorted(known))
        if tier == 'quick' and d.get('extra'):
            d.setdefault('limit_s', 100)
            d.setdefault('exec_s', 100)
        d.setdefault('limit_s', 240 if tier == 'quick' else 1500)
        d.setdefault('exec_s', 200 if tier == 'quick' else 1200)
        d['validate'] = a.validate if a.validate is not None else \
            (4 if tier == 'quick' else 40)
        specs.append(d)
    results = []
    done = []
    end = t0 + BUDGET[tier]

    def go(d):
        left = end - time.time()
        if d.get('extra') and any(r['status'] == 'violated'
                                  for r in done):
            return d, dict(case=d['name'], status='undecided', cex=[],
                           known=[], notes=['not needed'], wall_s=0)
        if left < 10:
            return d, dict(case=d['name'], status='undecided', cex=[],
                           known=[], notes=['time budget'], wall_s=0)
        r = run_case(d, min(left, d['limit_s'] + d['exec_s'] + 60))
        done.append(r)
        if r['status'] == 'undecided' and d.get('fallback'):
            f = dict(d, params=d['fallback'])
            f['name'] = case_name(f)
            left = end - time.time()
            if left > 20:
                r2 = run_case(f, min(left, d['limit_s'] + d['exec_s'] + 60))
                r2['notes'] = r.get('notes', []) + r2.get('notes', [])
                r2['reduced_from'] = d['name']
                return d, r2
        return d, r
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        # long cases first, those beyond the claimed bounds last
        specs.sort(key=lambda d: (bool(d.get('extra')), -d.get('cost', 1)))
        for d, r in ex.map(go, specs):
            results.append((d, r))
            print('case %-44s %-9s obligations %s/%s  %.1fs' % (
                r['case'], r['status'], r.get('proved', '-'),
                r.get('obligations', '-'), r.get('wall_s', 0)))
            sys.stdout.flush()
    rc = report(pid, tier, seed, meta, results, known, t0, a)
    return rc


def report(pid, tier, seed, meta, results, known, t0, a):
    rc = 0
    lines = []
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    nviol = 0
    undecided = []
    for d, r in results:
        if r['status'] == 'violated':
            for k, c in enumerate(r['cex']):
                nviol += 1
                rp = os.path.join(EVID, 'replays', '%s-%s-%d.json' % (
                    pid, d['fn'], k))
                with open(rp, 'w') as f:
                    json.dump(dict(property=pid, case=r['case'],
                                   harness=os.path.basename(d['file']),
                                   fn=d['fn'], params=d['fallback']
                                   if r.get('reduced_from') else d['params'],
                                   known=d['known'], **c), f, indent=1)
                lines.append('VIOLATION property=%s replay=%s' % (
                    pid, os.path.relpath(rp, HERE)))
                print('  %s: %s' % (r['case'], c['message']))
                print('    native: %s' % c['native'])
            continue
        if r['status'] == 'proved' and r.get('reach') is False:
            r['status'] = 'vacuous'
        if r['status'] == 'undecided' and d.get('extra'):
            # a larger bound than the claimed one: stated in the evidence
            print('NOT DECIDED within the time limit (beyond the claimed '
                  'bounds): %s' % r['case'])
        elif r['status'] != 'proved':
            undecided.append(r)
        v = r.get('validated')
        if v and v['bad'] and r['status'] == 'proved':
            r['status'] = 'mismatch'
            undecided.append(r)
    seen = set()
    for d, r in results:
        for k in r.get('known', []):
            if k['id'] in seen:
                continue
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s %s' % (
                pid, k['id'], known.get(k['id'], k['what'])))
    for l in dict.fromkeys(lines):
        print(l)
    if nviol:
        rc = 1
    elif undecided:
        rc = 2
        for r in undecided:
            print('UNDECIDED %s: %s %s' % (r['case'], r['status'],
                                           ' | '.join(r['notes'])[:1500]))
    evidence(pid, tier, seed, meta, results, nviol, undecided, t0)
    print('%s %s: %d cases, %d violations, %d undecided, %.1fs' % (
        pid, tier, len(results), nviol, len(undecided), time.time() - t0))
    return rc


def evidence(pid, tier, seed, meta, results, nviol, undecided, t0):
    fns, st = {}, {}
    samples = []
    cases = []
    for d, r in results:
        for k, v in r.get('functions', {}).items():
            fns[k] = fns.get(k, 0) + v
        for k, v in r.get('stats', {}).items():
            st[k] = st.get(k, 0) + v
        v = r.get('validated') or {}
        cases.append(dict(
            case=r['case'], status=r['status'],
            beyond_claimed_bounds=bool(d.get('extra')),
            reduced_from=r.get('reduced_from'),
            obligations=r.get('obligations', 0), proved=r.get('proved', 0),
            checks_stated=r.get('checks', 0),
            end_reachable=r.get('reach'), wall_s=r.get('wall_s'),
            native_replays=r.get('replays', 0), native_runs=v))
        if r.get('witness') is not None and len(samples) < 3:
            samples.append(dict(case=r['case'],
                                reachability_witness=r['witness']))
        for c in r.get('cex', [])[:1]:
            samples.append(dict(case=r['case'], counterexample=c['inputs'],
                                message=c['message']))
    cov = dict(
        explanation='bounded symbolic execution of the source of /repo: the '
        'harness inputs are solver variables, each obligation is the '
        'negation of a stated check (or an uncaught exception) and was '
        'given to z3; unsat means it holds for every input within the '
        'bounds of the case',
        bounds=meta.get('BOUNDS', 'the parameters shown in each case name; '
                        'orders of 10 and more events consist of an '
                        'arbitrary order of three events, a chain and an '
                        'antichain in all relations described at any_order '
                        'in harness/common.py'),
        outside=meta.get('OUTSIDE', 'larger sizes than those in the case '
                         'names; floating-point rounding'),
        cases=cases,
        obligations=sum(r.get('obligations', 0) for d, r in results),
        discharged=sum(r.get('proved', 0) for d, r in results),
        functions_encoded=sorted(fns), function_activations=sum(fns.values()),
        solver=dict(
            sat_queries=st.get('sat_calls', 0),
            sat_seconds=round(st.get('sat_time', 0), 3),
            real_arithmetic_queries=st.get('theory_calls', 0),
            real_arithmetic_seconds=round(st.get('theory_time', 0), 3),
            guards_decided_by_a_stored_model=st.get('sim_hits', 0)),
        statements_executed=st.get('steps', 0), aig_nodes=st.get('nodes', 0),
        native_runs_agreeing=sum((r.get('validated') or {}).get('ok', 0)
                                 for d, r in results),
        undecided=[r['case'] for r in undecided],
        samples=samples or [dict(note='no witness')],
        trusted_base=TRUSTED)
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=cov, assumptions=TRUSTED[2:], violations=nviol,
              wall_s=round(time.time() - t0, 2))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    import worker
    c = json.load(open(path))
    n = worker.Native()
    r = n.run(dict(file=os.path.join(HERE, 'harness', c['harness']),
                   fn=c['fn'], params=c['params'], inputs=c['inputs'],
                   hash=c['hash'], known=c.get('known', []), timeout=60))
    n.close()
    print(json.dumps(r, indent=1))
    return 1 if r.get('failures') or r.get('exc') else 0


if __name__ == '__main__':
    sys.exit(main())
