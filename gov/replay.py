"""Search for a concrete failing input with the in-package harness of a property (Go test injected by overlay)."""
import os, json, subprocess, tempfile, shutil, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

def run(pid, obls=(), timeout=240):
    files = sorted(glob.glob(os.path.join(ROOT, 'replay', pid, '*.go')))
    if not files: return False, 'no replay harness for this property'
    d = tempfile.mkdtemp(prefix='vrep')
    try:
        shutil.copy(os.path.join(REPO, 'go.mod'), os.path.join(d, 'repo.mod')); shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(d, 'repo.sum'))
        env = dict(os.environ, GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod -modfile=%s/repo.mod' % d, CGO_ENABLED='0', HOME=os.environ.get('HOME', '/root'))
        env['SCOUTER_HOME'] = d
        text = []; found = False
        pk = {}
        for f in files:
            m = re.match(r'// dir: (\S+)(?:.* flags: (.*))?', open(f).readline())
            pk.setdefault(m.group(1), []).append(f)
            for w in re.findall(r'with: (\S+)', open(f).readline()):
                w = os.path.join(ROOT, 'replay', 'common', w)
                src = open(w).read(); pkg = re.search(r'^package (\w+)', open(f).read(), re.M).group(1)
                c = os.path.join(d, pkg + '_' + os.path.basename(w))
                open(c, 'w').write(re.sub(r'^package \w+', 'package ' + pkg, src, count=1, flags=re.M))
                if c not in pk[m.group(1)]: pk[m.group(1)].append(c)
            if m.group(2) and 'race' in m.group(2): env['CGO_ENABLED'] = '1'
        for dr, fs in pk.items():
            rep = {os.path.join(REPO, dr, 'zz_verif_%d_test.go' % i): f for i, f in enumerate(fs)}
            # leave the package's own tests out: they may need modules that are absent
            for t in glob.glob(os.path.join(REPO, dr, '*_test.go')): rep[t] = ''
            ov = os.path.join(d, 'overlay.json'); json.dump({'Replace': rep}, open(ov, 'w'))
            race = ['-race'] if any('flags: race' in open(f).readline() for f in fs) else []
            r = subprocess.run(['go', 'test', '-overlay', ov, '-count=1', '-timeout', '%ds' % (timeout - 20), '-run', 'TestVerif'] + race + ['./' + dr], cwd=REPO, env=env,
                               capture_output=True, text=True, errors='replace', timeout=timeout + 120)
            o = (r.stdout + r.stderr)
            hits = [l for l in o.split('\n') if 'FAILING-INPUT' in l]
            if not hits and r.returncode != 0 and ('panic:' in o or 'WARNING: DATA RACE' in o or 'fatal error:' in o) and '[build failed]' not in o and '[setup failed]' not in o: hits = [l for l in o.split('\n') if 'panic:' in l or 'DATA RACE' in l or 'fatal error' in l][:3] or ['panic']
            if hits: found = True
            text.append('$ go test ./%s\n' % dr + ('\n'.join(hits[:10]) + '\n' if hits else '') + o[-6000:])
        return found, '\n'.join(text)
    except subprocess.TimeoutExpired: return False, 'replay timed out'
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    import sys
    f, t = run(sys.argv[1]); print(t); print('FOUND' if f else 'no failing input')
