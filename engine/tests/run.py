"""python3 engine/tests/run.py [names]: symbolic versus native execution of
the snippets in idioms.py on random inputs."""
import ast
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))


def one(name):
    file = '%s/t_%s.py' % (scratch.name, name)
    with open(file, 'w') as f:
        f.write(source + '\n\ndef go():\n    run(t_%s, %r)\n' % (name, name))
    spec = dict(name=name, file=file, fn='go', params={}, seed=1, validate=0, diff=40,
                limit_s=120)
    p = subprocess.run(['python3-vt', here + '/../worker.py'], text=True,
                       input=json.dumps(spec), capture_output=True,
                       env=dict(os.environ, VERIF_REPO=os.environ.get(
                           'VERIF_REPO', '/repo')))
    try:
        return name, json.loads(p.stdout)
    except ValueError:
        return name, dict(status='crash', notes=[p.stderr[-300:]], diff=None)


scratch = tempfile.TemporaryDirectory()
source = open(here + '/idioms.py').read()
names = sys.argv[1:] or [
    f.name[2:] for f in ast.parse(open(here + '/idioms.py').read()).body
    if isinstance(f, ast.FunctionDef) and f.name.startswith('t_')]
# the executor refuses these (a check using them would be undecided)
LIMITS = {'frozenset', 'objects', 'obj_dict_key'}
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for name, o in ex.map(one, list(names)):
        d = o.get('diff')
        if name in LIMITS and o['status'] == 'unsupported':
            names.remove(name)
            print(name, 'is a stated limit')
            continue
        if not d or d['different'] or not d['same']:
            bad += 1
            print(name, o['status'], d, *[n[-160:].strip() for n in o['notes']][:1], sep=' | ') if bad <= 40 else None
print('%d of %d snippets agree' % (len(names) - bad, len(names)))
sys.exit(bad > 0)
