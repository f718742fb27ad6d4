#!/usr/bin/env python3
"""DESIGN.md from its prose (tools/design_head.md, tools/design_tail.md), the checks' bounds and the last evidence files."""
import ast
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/checks']


def text(x):
    return ' '.join(str(x).split())


class Other:
    """constants of another check, for checks that quote them"""

    def __init__(self, name):
        self.__dict__.update(consts(name))


def consts(i):
    c = {}
    names = {x.name.split('.')[0]: None for s in ast.parse(open('%s/checks/%s.py' % (V, i)).read()).body if isinstance(s, ast.Import) for x in s.names}
    env = {n: Other(n) for n in names if os.path.exists('%s/checks/%s.py' % (V, n))}
    for s in ast.parse(open('%s/checks/%s.py' % (V, i)).read()).body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ('BOUNDS', 'OUTSIDE', 'NOTE', 'ASSUMPTIONS'):
            c[s.targets[0].id] = eval(compile(ast.Expression(s.value), i, 'eval'), dict(env))
    return c


def main():
    out = [open(V + '/tools/design_head.md').read()]
    man = json.load(open(V + '/MANIFEST.json'))
    claimed = {c['property'] for c in man['checks']}
    cost = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
    for line in open(V + '/properties.jsonl'):
        p = json.loads(line)
        i = p['id']
        out.append('### %s – %s\n\n' % (i, p['title']))
        if i not in claimed:
            out.append('Not applicable: %s\n\n' % text([x for x in man['not_applicable'] if x['property'] == i][0]['reason']))
            continue
        c = consts(i)
        out.append('* Bounds (quick): %s.\n* Deeper (thorough): %s.\n* Outside: %s.\n' % (text(c['BOUNDS']['quick']), text(c['BOUNDS']['thorough']), text(c.get('OUTSIDE', '-'))))
        for k in ('NOTE', 'ASSUMPTIONS'):
            if c.get(k):
                out.append('* %s: %s.\n' % ('How' if k == 'NOTE' else 'Assumes', text(c[k])))
        if i in cost:
            out.append('* Cost (quick): %s.\n' % cost[i])
        out.append('\n')
    tail = open(V + '/tools/design_tail.md').read()
    k = json.load(open(V + '/known_findings.json'))
    fixed = ['* %s' % x.replace('fixed: property=', '').replace(' ', ' – ', 1) for x in k['fixed']]
    finds = ['* %s: %s' % (f['property'], text(f['what'])) for f in k['findings']]
    rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
    for b in sorted(os.listdir(V + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
        rows.append('| %s | %s | %s | %s |' % (b, m['property'], text(m['needs']).replace('|', '/'), caught.get(b, '?')))
    out.append(tail.replace('FIXED_LIST', '\n'.join(fixed)).replace('FINDINGS_LIST', '\n'.join(finds)).replace('BUG_TABLE', '\n'.join(rows)))
    open(V + '/DESIGN.md', 'w').write(''.join(out))


main()
