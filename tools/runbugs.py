"""Development aid: python3 tools/runbugs.py [ID...]  Applies each planted bug to a scratch copy of /repo and runs its property's quick check."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PLANT_REPO', '/tmp/prepo')


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


for bid in sys.argv[1:] or sorted(os.listdir(HERE + '/seeded')):
    d = HERE + '/seeded/' + bid
    prop = json.load(open(d + '/meta.json'))['property']
    sh('git -C %s checkout -- .' % REPO)
    r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    if r.returncode:
        print(bid, 'DOES NOT APPLY', r.stderr[:200])
        continue
    t = time.time()
    r = sh('cd %s && VERIF_REPO=%s VERIF_EVIDENCE=/tmp/ev ./check %s quick' % (HERE, REPO, prop))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-32s %s rc=%d %s %.0f s, %d lines' % (bid, prop, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', time.time() - t, len(v)), flush=True)
    sh('git -C %s checkout -- .' % REPO)
