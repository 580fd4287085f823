#!/usr/bin/env python3
"""writes DESIGN.md from design_body.md, known_findings.jsonl, seeded/ and results.json (outcome of trybugs)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(V + '/tools/design_body.md').read()
res = json.load(open(V + '/tools/results.json')) if os.path.exists(V + '/tools/results.json') else {}
fixes = []
for l in open(V + '/known_findings.jsonl'):
    k = json.loads(l)
    fixes.append('* ' + (k['line'] if k['status'] == 'fixed' else 'known: property=%s %s' % (k['property'], k['what'])))
bugs = ['| bug | check | outcome | what it breaks |', '|---|---|---|---|']
ids = sorted(os.listdir(V + '/seeded'))
for i in ids:
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    bugs.append('| %s | %s | %s | %s |' % (i, m['property'], res.get(i, 'not run'), m['what_it_breaks'].replace('|', '\\|')))
body = body.replace('@FIXES@', '\n'.join(fixes)).replace('@NBUGS@', str(len(ids))).replace('@BUGS@', '\n'.join(bugs))
open(V + '/DESIGN.md', 'w').write(body)
