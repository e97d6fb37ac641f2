#!/usr/bin/env python3
"""Assembles DESIGN.md from doc/, properties.jsonl, the checks themselves and doc/seeded.json."""
import json, os, re, ast
here = os.path.dirname(os.path.abspath(__file__))
R = lambda p: open(os.path.join(here, p), encoding='utf8').read()
out = [R('doc/head.md')]
plan = json.loads(R('doc/props.json')); tech = json.loads(R('techniques.json'))
for l in R('properties.jsonl').splitlines():
    d = json.loads(l); i = d['id']
    out.append('### %s — %s\n\n%s\n' % (i, d['title'], plan[i]))
    f = 'mon/%s.py' % i.lower()
    if os.path.exists(os.path.join(here, f)):
        src = R(f); secs = re.findall(r'Section\("([^"]+)", \w+, (\d+)', src)
        asm = None
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS': asm = ast.literal_eval(n.value)
        out.append('Technique: %s.  %s\n' % tuple(x.rstrip('.') if k == 0 else x for k, x in enumerate(tech[i])))
        out.append('Executions per quick run: ' + ', '.join('%s %s' % s for s in secs) + '.\n')
        if asm: out.append('Bounds and assumptions: ' + '; '.join(asm) + '.\n')
out.append(R('doc/tail.md'))
try: cat = json.loads(R('doc/seeded.json'))
except IOError: cat = {}
out.append('| planted bug | property | needs | caught by |\n|---|---|---|---|\n')
sd = os.path.join(here, 'seeded')
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.loads(R('seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |\n' % (s, m['property'], m['needs'].replace('|', '/'), ', '.join(cat.get(s, ['not run']))))
open(os.path.join(here, 'DESIGN.md'), 'w', encoding='utf8').write('\n'.join(out).replace('|\n\n|', '|\n|'))
