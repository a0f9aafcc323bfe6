#!/usr/bin/env python3
"""newseed.py ID PROP DIR 'needs' 'breaks' [race]: takes the diff of /tmp/w and /tmp/demo_test.go, confirms demo fails with and passes without, stores under seeded/ID."""
import sys, os, subprocess, json, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, d, needs, breaks = sys.argv[1:6]; race = 'race' in sys.argv[6:]
W = '/tmp/w'
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
assert diff.strip(), 'no change in /tmp/w'
o = os.path.join(R, 'seeded', sid); os.makedirs(o, exist_ok=True)
open(o + '/patch.diff', 'w').write(diff)
shutil.copy('/tmp/demo_test.go', o + '/demo_test.go')
t = open(R + '/tools/demo_template.sh').read().replace('@DIR@', d).replace('@CGO@', '1' if race else '0').replace('@RACE@', '-race' if race else '')
open(o + '/demo.sh', 'w').write(t); os.chmod(o + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
b = subprocess.run('GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build ./... && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go vet ./%s >/dev/null 2>&1; git checkout -- go.mod go.sum' % d, shell=True, cwd=W, capture_output=True, text=True)
if b.returncode: print('BUILD', b.stderr)
bad = subprocess.run(['bash', o + '/demo.sh'], cwd=W, capture_output=True, text=True)
good = subprocess.run(['bash', o + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
print(sid, 'with bug rc', bad.returncode, '| clean rc', good.returncode)
if bad.returncode == 0 or good.returncode: print('PROBLEM'); print((bad.stdout + bad.stderr)[-1500:]); print((good.stdout + good.stderr)[-1500:])
elif '[build failed]' in bad.stdout + bad.stderr: print('BUILD FAILED', (bad.stdout + bad.stderr)[-1500:])
# the repository's own stable tests still pass with the change
import re
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
mod = 'github.com/scouter-contrib/scouter-agent-golang/'
bypkg = {}
for x in stable:
    pk, _, t = x.rpartition('/')
    bypkg.setdefault(pk, []).append(t)
fails = []
shutil.copy('/opt/vp/mod/repo.mod', '/tmp/ns.mod'); shutil.copy(W + '/go.sum', '/tmp/ns.sum')
ps = []
for pk, ts in bypkg.items():
    ps.append((pk, subprocess.Popen(['bash', '-c', 'export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -modfile=/tmp/ns.mod"; cd %s && go test -vet=off -count=1 -timeout 60s -run "^(%s)$" ./%s' % (W, '|'.join(sorted({t.split('/')[0] for t in ts})), pk[len(mod):])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
for pk, q in ps:
    o = q.communicate()[0]
    if q.returncode: fails.append(pk); print(o[-600:])
print('stable tests', 'FAIL ' + str(fails) if fails else 'pass', len(bypkg), 'packages')
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
