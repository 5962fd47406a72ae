#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
out = open(V + '/tools/design_head.md').read() + '\n## Properties\n'
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    c = checks.CHECKS.get(p['id'])
    out += '\n### %s %s\n' % (p['id'], p['title'])
    if not c:
        out += 'Not applicable: %s.\n' % checks.NOT_APPLICABLE[p['id']]
        continue
    kinds = sorted(set(g['kind'] for g in c['groups']))
    out += '%s. %s.\n\n' % (' + '.join(kinds), c['note'][0].upper() + c['note'][1:])
    o = checks.ORACLES.get(p['id']) if hasattr(checks, 'ORACLES') else None
    if o: out += 'Oracle: %s.\n\n' % o
    out += '| build | flags | scenarios (bound q/t) |\n|---|---|---|\n'
    for g in c['groups']:
        sc = []
        for s in g['scen']:
            b = '' if g['kind'] == 'seq' else ' %s/%s' % ('-' if s.get('thorough_only') else s.get('q', '?'), s.get('t', '?'))
            pq = s.get('parq') or {}
            pt = s.get('part') or {}
            if pq or pt: b += ' (%s)' % ', '.join('%s=%s/%s' % (k, pq.get(k, 'default'), pt.get(k, 'default')) for k in sorted(set(pq) | set(pt)))
            sc.append(s['name'] + b)
        out += '| %s (%s) | %s | %s |\n' % (g['bin'], g['src'], ' '.join(f.replace('-D', '').replace('|', '/') for f in g['flags']) or '-', ', '.join(sc))
out += open(V + '/tools/design_tail.md').read()
f = V + '/tools/design_catch.md'
if os.path.exists(f): out += '\n' + open(f).read()
open(V + '/DESIGN.md', 'w').write(out)
