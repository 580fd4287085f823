#!/usr/bin/env python3
# writes MANIFEST.json; run by hand after adding a check
import json
T = {
 'C01': ('reference-model monitor over generated boundary numbers', ''),
 'C02': ('reference-model monitor over generated strings and patterns', ''),
 'C03': ('reference-model monitor over JSON-equal and nearly equal values', ''),
 'C04': ('reference-model monitor over arrays at their boundaries', ''),
 'C05': ('reference-model monitor over objects at their boundaries', ''),
 'C06': ('reference-model monitor over nested applicator trees', ''),
 'C07': ('reference-model monitor over mixed random schemas and the bundled suite', ''),
 'C08': ('reference-resolution monitor over fingerprinted multi-document universes', ''),
 'C09': ('reference-model monitor over draft selection histories', ''),
 'C10': ('compile-outcome monitor against a well-formedness oracle', ''),
 'C11': ('history monitor of loader calls against meta-schema oracle', ''),
 'C12': ('recorded fetch events checked against a cache specification', ''),
 'C13': ('fault injection at every I/O step with open/close accounting', ''),
 'C14': ('differential monitor over all loaders, recorded file system and HTTP', ''),
 'C15': ('error-record monitor against predicted errors', ''),
 'C16': ('error-record monitor against predicted branch errors', ''),
 'C17': ('re-rendering monitor of error texts under custom locales', ''),
 'C18': ('grammar oracles over generated near-grammar strings', ''),
 'C19': ('linearizability checking of recorded histories (porcupine), race detector, recording checkers', ''),
 'C20': ('Go race detector under concurrent stress, outcomes compared with sequential runs', ''),
 'C21': ('repetition and history monitors with deep comparison of documents', ''),
 'C22': ('crash and hang monitor of worker processes over junk schemas and documents', ''),
}
import subprocess, sys, re, glob
have = set(re.findall(r'(?:register\(&Check\{\s*ID:\s*|focus\()"(C\d\d)"', ''.join(open(f).read() for f in glob.glob('/verif/harness/*.go'))))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
note = 'Held on every observed execution of the run (counts in the evidence file); nothing is claimed for inputs or schedules that were not driven. Trusts the Go toolchain and the oracle in /verif/harness.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
          'evidence_file': f'evidence/{i}.json', 'technique': T[i][0], 'level': 'fault_enumeration' if i == 'C13' else 'exploration', 'level_note': T[i][1] or note})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
