"""Writes MANIFEST.json from the check modules present and the not-applicable table."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'not_applicable.json')) else {}
checks, na = [], []
for p in props:
    f = os.path.join(HERE, 'checks', p['id'] + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')))
        continue
    src = open(f).read()
    cpp = 'NEEDS_CPP = True' in src
    m = re.search(r"^NOTE = (.+?)\n(?=[A-Z@]|\n|def )", src, re.M | re.S)
    note = eval(m.group(1)) if m else ''
    checks.append(dict(
        property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
        technique=('symbolic execution of the real C++ and Python code with z3 deciding every branch and obligation' if cpp else
                   'symbolic execution of the real Python code with z3 deciding every branch and obligation'),
        level='model_checking',
        level_note=(note + ' ' if note else '') + 'Holds for every value of the symbolic inputs within the bounds printed in the evidence; structure '
        '(gate kinds, register sizes, sequence shapes) is forked exhaustively within the same bounds. Trusted: the reference semantics in '
        'vf/quantum.py, the models of math/cmath/numpy/random in vf/shims.py, real arithmetic instead of binary64, z3. '
        'Every reported violation is first reproduced on the plainly loaded code.'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks load the sources of the working tree directly.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
