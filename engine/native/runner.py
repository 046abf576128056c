"""Replays harness inputs against the real code (run with the interpreter of
the repository).  stdin: one JSON job per line; stdout: one JSON line each."""
import importlib.util
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import contextlib
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vh  # noqa: E402

warnings.simplefilter('ignore')


def patch_hash(seed):
    """event hashes follow the creation order (set iteration order becomes
    reproducible); other seeds permute it"""
    try:
        from causets.causetevent import CausetEvent
    except Exception:
        return
    if CausetEvent.__hash__ is not object.__hash__ and \
            not getattr(CausetEvent, '_vh_patched', False):
        return
    import random
    rng = random.Random(seed)
    ids = {}
    keep = []
    n = [0]

    def h(self):
        k = id(self)
        v = ids.get(k)
        if v is None:
            n[0] += 1
            v = ids[k] = n[0] if seed == 0 else rng.getrandbits(40)
            keep.append(self)
        return v

    old = CausetEvent.__new__ if '__new__' in CausetEvent.__dict__ else None

    def new(cls, *a, **k):
        o = object.__new__(cls)
        h(o)
        return o
    if old is None or getattr(old, '_vh', False):
        new._vh = True
        CausetEvent.__new__ = new
    CausetEvent.__hash__ = h
    CausetEvent._vh_patched = True


def load(path):
    sys.path.insert(0, os.path.dirname(path))
    spec = importlib.util.spec_from_file_location('vharness', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Timeout(BaseException):
    pass


def alarm(*a):
    raise Timeout()


def run(mod, job):
    scratch = tempfile.mkdtemp(prefix='vh_')
    vh._reset(job.get('inputs'), job.get('seed'), job.get('known', ()),
              scratch)
    patch_hash(job.get('hash', 0))
    exc = None
    assumed = True
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, job.get('timeout', 20))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(mod, job['fn'])(**job.get('params', {}))
    except vh.AssumptionFailed:
        assumed = False
    except Timeout:
        exc = 'Timeout: no result within %ss' % job.get('timeout', 20)
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%d %s' % (os.path.basename(f.filename),
                                        f.lineno, f.name) for f in tb[-3:])
        exc = '%s: %s [%s]' % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(failures=list(vh._failures), exc=exc, assumed=assumed,
                known=list(vh._knownhits), inputs=list(vh._record),
                checks=vh._checks)


def main():
    out = sys.stdout
    mods = {}
    for line in sys.stdin:
        job = json.loads(line)
        try:
            m = mods.get(job['file'])
            if m is None:
                m = mods[job['file']] = load(job['file'])
            r = run(m, job)
        except BaseException as e:
            import traceback
            r = dict(error=traceback.format_exc())
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
