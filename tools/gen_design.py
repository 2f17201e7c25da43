#!/usr/bin/env python3
"""DESIGN.md: the fixed text below with the tables derived from units/, properties.jsonl, seeded/ and tools/na.py"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
exec(open(V + '/tools/na.py').read())
U = {}
for f in sorted(glob.glob(V + '/units/*.c')):
    u = json.loads(re.match(r'/\*VP\s*(\{.*?\n\})\s*\*/', open(f).read(), re.S).group(1))
    U[os.path.basename(f)[:-2]] = u
how = {}
exec(open(V + '/tools/how.py').read())
def fs(n, p):
    u = U[n]
    r = []
    for g in u.get('enforce', u.get('functions', [])):
        q = u.get('per', {}).get(g, {}).get('properties', u['properties'])
        if p in q:
            r.append(g)
    return r or (u.get('functions', []) if p in u['properties'] else [])
out = open(V + '/tools/design_head.md').read()
out += '\n## 5. Per property: what is specified and how it is decided\n\n'
out += 'Every entry: the functions under contract (unit in brackets), then what the contracts say and what is assumed. Unless it says *bounded*, ' \
       'the obligations are discharged for every input, every loop iteration and every schedule of the calls the contract allows.\n'
for p in props:
    i = p['id']
    out += '\n### %s — %s\n' % (i, p['title'])
    if i in NA:
        out += '\nNot applicable: ' + NA[i] + '\n'
        continue
    for n in U:
        l = fs(n, i)
        if l:
            out += '\n- `%s`%s: %s' % (n, ' (**bounded**: %s)' % U[n]['bounded'] if U[n].get('bounded') else '', ', '.join(l))
    out += '\n\n' + how.get(i, '').strip() + '\n'
out += '\n' + open(V + '/tools/design_tail.md').read()
out += '\n| bug | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    out += '| %s | %s | %s | %s | check %s, failing input replayed on the real code |\n' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs'], m['property'])
open(V + '/DESIGN.md', 'w').write(out)
