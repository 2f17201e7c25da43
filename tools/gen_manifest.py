#!/usr/bin/env python3
"""MANIFEST.json from the units present and the reasons below"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
units = {}
for f in sorted(glob.glob(V + '/units/*.c')):
    u = json.loads(re.match(r'/\*VP\s*(\{.*?\n\})\s*\*/', open(f).read(), re.S).group(1))
    ps = list(u['properties'])
    for o in u.get('per', {}).values():
        ps += [q for q in o.get('properties', []) if q not in ps]
    for p in ps:
        units.setdefault(p, []).append((os.path.basename(f)[:-2], u))
NA = {}
exec(open(V + '/tools/na.py').read()) if os.path.exists(V + '/tools/na.py') else None
checks, na = [], []
for p in props:
    i = p['id']
    if i in units and i not in NA:
        fs = sorted(set(g for n, u in units[i] for g in u.get('functions', u.get('enforce', []))))
        bd = sorted(set(n for n, u in units[i] if u.get('bounded')))
        note = ('Contracts on the current text of ' + ', '.join(fs) + '; every obligation discharged for all inputs, callees '
                'represented by their stated contracts (trusted: system calls, and the assumptions listed in the evidence). '
                'A changed loop that no longer fits its invariant falls back to a bounded check plus native search, reported as such.')
        if bd:
            note += ' Bounded stand-ins (not proved): ' + ', '.join(bd) + '.'
        lv = 'proof' if len(bd) < len(units[i]) else 'other'
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py ' + i,
                       'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification (goto-instrument --dfcc function and loop contracts, cbmc)',
                       'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no contract unit for the functions it depends on has been completed yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: loop annotations are inserted mechanically into scratch copies of the sources on every run.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
