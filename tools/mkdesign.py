#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (tables of bounds and of planted changes)."""
import ast, glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = ['<!-- generated by tools/mkdesign.py: begin -->', '<!-- generated: end -->']


def meta(f):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'META':
            return {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}


out = ['### 3.2 Bounds', '']
titles = {}
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    titles[p['id']] = p['title']
for f in sorted(glob.glob(os.path.join(ROOT, 'props/c[0-9][0-9].py'))):
    pid = os.path.basename(f)[:3].upper()
    m = meta(f)
    out += ['**%s %s**' % (pid, titles[pid]), '', '* bounds: %s' % m['bounds'], '* outside: %s' % m['outside']]
    if m.get('assumptions'):
        out += ['* assumptions: %s' % '; '.join(m['assumptions'])]
    out += ['']
out += ['### 3.3 Planted changes', '',
        'All are in `seeded/`, written by `tools/mkbugs.py` from `tools/bugs/*.py`; each is caught by the quick check of its property.', '',
        '| change | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded/*'))):
    m = json.load(open(d + '/meta.json'))
    out.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '\\|')))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
a, b = s.index(MARK[0]), s.index(MARK[1])
open(p, 'w').write(s[:a] + MARK[0] + '\n' + '\n'.join(out) + '\n' + s[b:])
