#!/usr/bin/env python3
"""Regenerates /verif/seeded from bug definitions (tools/bugs/*.py).

Every bug is (id, property, needs, what, edits, demo): edits are (file, old, new) text
replacements on /repo's HEAD, demo is the body of an in-package Go test.  A bug is only kept
after the change builds, the stable tests pass with it, and the demo passes without and fails
with it.  usage: mkbugs.py [ID...]"""
import sys, os, subprocess, json, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, prop, needs, what, edits, demo, race=False, imports=()):
    BUGS.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo, race=race, imports=imports))
for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
HELP = '''
func demoValid(t *testing.T, schema, doc string, want bool) {
	t.Helper()
	s, err := NewSchema(NewStringLoader(schema))
	if err != nil {
		t.Fatalf("%s does not compile: %v", schema, err)
	}
	r, err := s.Validate(NewStringLoader(doc))
	if err != nil {
		t.Fatalf("%s: %v", doc, err)
	}
	if r.Valid() != want {
		t.Errorf("schema %s document %s: valid=%v, want %v", schema, doc, r.Valid(), want)
	}
}

func demoErrors(t *testing.T, schema, doc string) []ResultError {
	t.Helper()
	s, err := NewSchema(NewStringLoader(schema))
	if err != nil {
		t.Fatalf("%s does not compile: %v", schema, err)
	}
	r, err := s.Validate(NewStringLoader(doc))
	if err != nil {
		t.Fatalf("%s: %v", doc, err)
	}
	return r.Errors()
}

func demoCompiles(t *testing.T, schema string, want bool) {
	t.Helper()
	_, err := NewSchema(NewStringLoader(schema))
	if (err == nil) != want {
		t.Errorf("schema %s: error %v, want compiles=%v", schema, err, want)
	}
}

var _ = demoValid
var _ = demoErrors
var _ = demoCompiles
'''
DEMO = '''#!/bin/bash
# Runs the test beside this file inside the package in the current directory, through an overlay.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly TMPDIR="$T"
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
timeout 120 go test%s -overlay "$T/overlay.json" -run '^TestDemo$' -count=1 -timeout 100s .
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
def stable(cwd):
    r = run('go build ./... && go vet . >/dev/null 2>&1; go test -count=1 -v . 2>&1', cwd, env=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off'))
    want = json.load(open('/opt/vp/BASELINE.json'))
    names = want.get('stable') or want.get('passing') or want.get('tests') or want
    passed = {l.split()[2] for l in r.stdout.splitlines() if l.strip().startswith('--- PASS')}
    miss = [n for n in STABLE if n not in passed]
    return r, miss
def names():
    b = json.load(open('/opt/vp/BASELINE.json'))
    out = []
    def walk(x):
        if isinstance(x, str): out.append(x)
        elif isinstance(x, list): [walk(y) for y in x]
        elif isinstance(x, dict): [walk(y) for y in x.values()]
    walk(b)
    return sorted({o.split('/')[-1].split('::')[-1].split(' ')[-1] for o in out if 'Test' in o})
STABLE = names()
ids = sys.argv[1:]
bad = 0
W = tempfile.mkdtemp(prefix='mkbugs', dir='/tmp')
try:
    seen = {}
    for b in BUGS:
        assert b['id'] not in seen, b['id']; seen[b['id']] = 1
        if ids and b['id'] not in ids: continue
        R = W + '/repo'
        shutil.rmtree(R, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', R])
        D = V + '/seeded/' + b['id']
        shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        body = b['demo'].strip('\n')
        imps = sorted(set(b['imports']) | {'testing'})
        open(D + '/demo_test.go.txt', 'w').write('package gojsonschema\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imps) + ')\n' + HELP + '\n' + body + '\n')
        open(D + '/demo.sh', 'w').write(DEMO % (' -race' if b['race'] else ''))
        os.chmod(D + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['what']), open(D + '/meta.json', 'w'), indent=1)
        ok = True
        clean = run('bash %s/demo.sh' % D, R)
        if clean.returncode: print(b['id'], 'DEMO FAILS ON CLEAN', clean.stdout[-1500:], clean.stderr[-500:]); ok = False
        for f, old, new in b['edits']:
            s = open(R + '/' + f).read()
            if s.count(old) != 1: print(b['id'], 'EDIT MATCHES', s.count(old), f, repr(old[:60])); ok = False; break
            open(R + '/' + f, 'w').write(s.replace(old, new))
        if ok:
            d = run('gofmt -l *.go', R).stdout
            open(D + '/patch.diff', 'w').write(run('git diff', R).stdout)
            r, miss = stable(R)
            if miss: print(b['id'], 'TESTS FAIL', miss, r.stdout[-1500:], r.stderr[-600:]); ok = False
            rr = run('bash %s/demo.sh' % D, R)
            if rr.returncode == 0: print(b['id'], 'DEMO PASSES WITH BUG'); ok = False
            elif 'build failed' in rr.stdout + rr.stderr: print(b['id'], 'BUILD FAILED', rr.stdout[-800:], rr.stderr[-800:]); ok = False
        print(b['id'], 'ok' if ok else 'BAD', flush=True)
        if not ok:
            bad += 1; shutil.rmtree(D)
finally:
    shutil.rmtree(W)
sys.exit(1 if bad else 0)
