#!/usr/bin/env python3
"""trybugs.py [-c CHECK,...] [-s SEED] BUGDIR...: runs the quick checks of the harness against a copy of
/repo with each planted bug applied (development aid; the registered checks only ever use /repo)."""
import sys, os, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; checks = None; seed = '1'; tier='quick'
while args and args[0].startswith('-'):
    if args[0] == '-c': checks = args[1].split(',')
    if args[0] == '-s': seed = args[1]
    if args[0] == '-t': tier = args[1]
    args = args[2:]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off', GOWORK='off')
miss = []
for d in args:
    d = d.rstrip('/'); id = os.path.basename(d)
    W = tempfile.mkdtemp(prefix='try', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/repo'])
        if os.path.exists(d + '/patch.diff'):
            subprocess.check_call(['git', 'apply', os.path.abspath(d) + '/patch.diff'], cwd=W + '/repo')
        prop = json.load(open(d + '/meta.json'))['property'] if os.path.exists(d + '/meta.json') else ''
        g = open(V + '/harness/go.mod').read().replace('=> /repo', '=> ' + W + '/repo')
        open(W + '/go.mod', 'w').write(g); shutil.copy(V + '/harness/go.sum', W + '/go.sum')
        built = {}
        for c in (checks or [prop]):
            race = c in ('C19', 'C20')
            if race not in built:
                subprocess.check_call(['go', 'build', '-buildvcs=false', '-modfile=' + W + '/go.mod'] + (['-race'] if race else []) + ['-o', W + '/h%d' % race, '.'], cwd=V + '/harness', env=env)
                built[race] = 1
            t = time.time()
            r = subprocess.run([W + '/h%d' % race, 'run', c, tier, seed, W + '/ev'], capture_output=True, text=True, env=dict(env, VERIF_LITERALS=W + '/repo'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            ok = r.returncode == 1 and v
            if ok and '-v' in os.environ.get('TRY',''): print(r.stdout[:1500])
            print(id, c, 'CAUGHT' if ok else 'exit %d' % r.returncode, '%.0fs' % (time.time() - t), len(v), flush=True)
            if not ok: miss.append((id, c))
    finally:
        shutil.rmtree(W)
print('MISSED', miss)
