"""Writes DESIGN.md (python3)."""
import ast
import glob
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from design_text import HEAD, METHOD, TAIL  # noqa: E402
import textwrap


def wrap(s, ind=''):
    return '\n'.join(textwrap.wrap(s, 78, initial_indent=ind, subsequent_indent=ind,
                                   break_long_words=False, break_on_hyphens=False))


def consts(i):
    t = ast.parse(open(os.path.join(ROOT, 'checks', i.lower() + '.py')).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            v = n.value
            if isinstance(v, ast.Call):
                v = {k.arg: ast.literal_eval(k.value) for k in v.keywords}
            else:
                v = ast.literal_eval(v)
            out[n.targets[0].id] = v
    return out


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    out = [HEAD, '## 2. Properties: method and bounds\n']
    for p in props:
        i = p['id']
        c = consts(i)
        out.append('### %s %s\n' % (i, p['title']))
        out.append(wrap(METHOD[i]) + '\n')
        for t in ('quick', 'thorough'):
            out.append(wrap('*%s:* %s.' % (t, c['BOUNDS'].get(t, '').rstrip('.'))) + '\n')
        if c.get('ASSUMPTIONS'):
            out.append(wrap('*Assumes:* ' + '; '.join(c['ASSUMPTIONS']) + '.') + '\n')
    res = json.load(open(os.path.join(ROOT, 'tools', 'seed_results.json')))
    out.append('''## 3. Planted bugs

Each is in `seeded/<id>/` (patch, demonstration, what it needs). "first" tells
whether the check caught it when it was planted or had to be strengthened.
`tools/seed_run.py` applies each one to /repo, runs the stable tests, the
demonstration and the check, and undoes it.

| planted bug | property | caught by quick check | first |
|---|---|---|---|''')
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        s = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        r = res.get(s, {})
        out.append('| %s | %s | %s | %s |' % (s, m['property'], r.get('caught', '?'), r.get('first', 'yes')))
    fixed = []
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        if line.startswith('fixed:'):
            _, prop, commit, what = line.strip().split(' ', 3)
            fixed.append(wrap('* %s (%s) %s' % (prop.split('=')[1], commit, what)).replace('\n', '\n  '))
    out.append(TAIL % dict(fixed='Genuine defects found by writing and running the checks, each repaired by a\n"fix:" commit in /repo:\n\n' + '\n'.join(fixed)))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
