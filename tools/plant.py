"""Development aid: python3 tools/plant.py SPEC.py...  Each SPEC defines PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO.
Applies the edit to /repo, builds, runs the stable tests, the demonstration and the property's check, undoes the edit, and
stores the planted bug under seeded/<id>/ when it is valid."""
import json
import os
import runpy
import shutil
import subprocess
import sys

REPO = os.environ.get('PLANT_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=900):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)


def tests():
    if REPO == '/repo':
        sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    else:
        sh('cd %s && rm -f settings.json && HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
           '-o junit_family=xunit2 --basetemp=/tmp/plant_tmp --junitxml=/tmp/plant_junit.xml projectq; rm -f settings.json; /usr/bin/python3 /opt/vp/results.py /tmp/plant_out.json junit:/tmp/plant_junit.xml' % REPO)
    b, o = json.load(open('/opt/vp/BASELINE.json')), json.load(open('/tmp/plant_out.json'))

    def names(x):
        if isinstance(x, dict):
            for k in ('passed', 'pass', 'stable'):
                if k in x:
                    return set(x[k])
        return set(x)
    return sorted(names(b) - names(o))


def build():
    text = open('/opt/vp/build.sh').read().replace('cd /repo', 'cd ' + REPO)
    if subprocess.run(['bash', '-c', text], capture_output=True).returncode:
        print('DOES NOT BUILD')


def main(path):
    d = runpy.run_path(path)
    bid = os.path.basename(path)[:-3]
    if sh('git -C ' + REPO + ' status --porcelain').stdout.strip():
        sys.exit('the repository is not clean')
    tmp = '/tmp/plant/' + bid
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(d['DEMO'])
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=. exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(tmp + '/meta.json', 'w'), indent=1)
    cpp = any(e[0].endswith('pp') for e in d['EDITS'])
    r = sh('cd %s && bash %s/demo.sh' % (REPO, tmp))
    if r.returncode:
        print(bid, 'DEMO FAILS ON CLEAN TREE', (r.stdout + r.stderr)[-600:])
        return
    try:
        for f, old, new in d['EDITS']:
            p = REPO + '/projectq/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'edit does not match once:', f, s.count(old))
                return
            open(p, 'w').write(s.replace(old, new))
        open(tmp + '/patch.diff', 'w').write(sh('git -C ' + REPO + ' diff').stdout)
        if cpp:
            build()
        missing = tests()
        if missing:
            print(bid, 'TESTS FAIL', missing[:5])
            return
        r = sh('cd %s && bash %s/demo.sh' % (REPO, tmp))
        if r.returncode == 0:
            print(bid, 'DEMO PASSES WITH THE BUG')
            return
        res = []
        if '--nocheck' not in sys.argv:
            for prop in [d['PROP']] + d.get('ALSO', []):
                if os.path.exists(HERE + '/checks/%s.py' % prop):
                    r = sh('cd %s && VERIF_REPO=%s ./check %s' % (HERE, REPO, prop))
                    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                    res.append('%s rc=%d %s [%s]' % (prop, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.stdout.splitlines()[-1][-60:] if r.stdout else ''))
        dst = HERE + '/seeded/' + bid
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        print(bid, 'valid;', '; '.join(res))
    finally:
        sh('git -C ' + REPO + ' checkout -- .')
        if cpp:
            build()


for p in sys.argv[1:]:
    if not p.startswith('-'):
        main(p)
