"""check.py PROPERTY [--tier quick|thorough]: verify every function under contract for a property.

Exit 0: every obligation of every contract case tagged with the property, and of every contract case used by
those at a call site, was discharged on the current tree of /repo.
Exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found]."""
import sys, os, time, json, glob, subprocess, tempfile, hashlib, re, multiprocessing as mp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'gov'))
sys.setrecursionlimit(20000)
REPO = '/repo'
GOENV = dict(os.environ, GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', HOME=os.environ.get('HOME', '/root'))

def build_extractor():
    exe = os.path.join(ROOT, 'build', 'extract')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(os.path.join(ROOT, 'extract', 'main.go')):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        subprocess.run(['go', 'build', '-o', exe, '.'], cwd=os.path.join(ROOT, 'extract'), env=GOENV, check=True)
    return exe

def extract():
    exe = build_extractor()
    fd, p = tempfile.mkstemp(suffix='.json', prefix='ssa')
    env = dict(GOENV, GOFLAGS='')
    with os.fdopen(fd, 'w') as f:
        r = subprocess.run([exe], cwd=REPO, env=env, stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise Exception('extraction failed: ' + r.stderr[-2000:])
    return p

P = S = None
def load(ssa):
    global P, S
    import prog, spec
    P = prog.Program(ssa)
    S = spec.Specs()
    for f in sorted(glob.glob(os.path.join(ROOT, 'contracts', '*.spec'))): S.load(f)

def job(a):
    name, case, budget, tier = a
    import vc
    con = S.contracts[name]
    cs = [c for c in con.cases if c.name == case][0]
    r = vc.verify(P, S, con, cs, budget=budget)
    # a solver that ran out of time: try again with other seeds and more time (any successful run is a proof)
    import state, z3
    for seed in (7, 23):
        if not any(not o['ok'] and ('unknown' in o['why'] or 'inductive' in o['why'] or 'invariant' in o['why'] or 'budget' in o['why'] or r.notes) for o in r.obl) or r.t > 150: break
        z3.set_param('smt.random_seed', seed); z3.set_param('sat.random_seed', seed); state.SCALE = 3
        r2 = vc.verify(P, S, con, cs, budget=budget)
        r2.t += r.t; r2.q += r.q; r2.solver += r.solver
        if sum(not o['ok'] for o in r2.obl) < sum(not o['ok'] for o in r.obl): r2.notes.append('discharged with random seed %d' % seed); r = r2
        else: r.t = r2.t
    for o in r.obl: o.pop('state', None)
    return dict(name=name, case=case, obl=r.obl, t=r.t, q=r.q, solver=r.solver, cvc5=r.cvc5, paths=r.paths, inlined=sorted(r.inlined), models=sorted(r.models),
                used=sorted(r.eng.used_cases), loops=len(r.loops), notes=list(map(str, r.notes))[:20])

def counts(pid, o):
    """does a failed obligation say anything about the property"""
    n = o['name']
    if pid == 'C21': return n.startswith(('lock:', 'within-subset', 'exists', 'cover:'))
    return n not in ('lock:guard', 'lock:once')
def tags(con, case): return case.tags if case.tags is not None else con.tags
def exported(n):
    m = re.search(r'([A-Za-z_][A-Za-z_0-9]*)$', n.split('$')[0])
    return bool(m) and m.group(1)[:1].isupper()

def known():
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) function=(\S+) obligation=(\S+) (.*)$', l.strip())
            if m: out.append(m.groups())
    return out

def run(pid, tier):
    t0 = time.time(); notes = []
    ssa = extract(); load(ssa); os.unlink(ssa)
    import vc
    eng0 = vc.mkengine(P, S)
    budget = 150 if tier == 'quick' else 600
    todo = [(n, c.name) for n, con in S.contracts.items() for c in con.cases if pid in tags(con, c)]
    if not todo: raise Exception('no contract for ' + pid)
    done = {}; results = []; fails = []; skipped = []; trusted = set()
    with mp.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
        while todo:
            batch = []; todo2 = []
            for n, c in todo:
                if (n, c) in done: continue
                done[(n, c)] = True
                con = S.contracts[n]
                if con.opts.get('trusted'): trusted.add(n); continue
                if con.opts.get('iface'):
                    # an interface contract stands for the contract of every implementation
                    i, m = n.rsplit('.', 1)
                    for t in eng0.impls(i):
                        mn = P.methods[t][m]
                        if mn not in S.contracts: fails.append(dict(name='exists', fn=n, pos='', ok=False, why=f'{mn} implements {n} but has no contract'))
                        else: todo2 += [(mn, cc.name) for cc in S.contracts[mn].cases]
                    continue
                fn = P.fns.get(con.fname)
                if fn is None or not fn.blocks:
                    if con.opts.get('helper'): skipped.append(n); continue
                    fails.append(dict(name='exists', fn=n, pos='', ok=False, why=f'function {n} under contract does not exist in the current tree')); continue
                batch.append((n, c, budget, tier))
            todo = todo2
            for r in pool.imap_unordered(job, sorted(batch, key=lambda b: -S.contracts[b[0]].opts.get('cost', 0) if isinstance(S.contracts[b[0]].opts.get('cost', 0), int) else 0)):
                results.append(r)
                for u in r['used']:
                    u = tuple(u)
                    if u not in done: todo.append(u)
    kn = known(); violations = []; kf = []
    for r in results:
        r['obl'] = [o for o in r['obl'] if counts(pid, o)]
        for o in r['obl']:
            if not o['ok']: fails.append(o)
    nobl = sum(len(r['obl']) for r in results); 
    for o in fails:
        hit = [k for k in kn if k[0] == pid and k[1] == o['fn'] and k[2] == o['name'].replace(' ', '_')]
        (kf if hit else violations).append((o, hit))
    for k in {h[0][3] for o, h in kf}: print(f'KNOWN-FINDING: property={pid} {k}')
    import collections
    back = collections.Counter()
    for r in results: back['cvc5 queries'] += r['cvc5']
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='proof', coverage=dict(
        obligations=nobl + len([f for f in fails if f['name'] == 'exists']), discharged=nobl - sum(1 for r in results for o in r['obl'] if not o['ok']),
        checker_cmd=f'python3-vt gov/check.py {pid} --tier {tier}',
        trusted_base=['gov/ (VC generator: symbolic execution of go/ssa, loop rule, contract application)', 'extract/ and golang.org/x/tools/go/ssa', 'Go compiler agreeing with go/ssa', 'z3 (decides every obligation); cvc5 on queries z3 leaves open'],
        functions_under_contract=sorted({r['name'] for r in results}),
        contract_cases=sorted('%s:%s' % (r['name'], r['case']) for r in results),
        inlined_bodies=sorted({x for r in results for x in r['inlined']}),
        library_models=sorted({x for r in results for x in r['models']}),
        trusted_contracts=sorted(trusted), skipped_missing_helpers=sorted(set(skipped)),
        paths=sum(r['paths'] for r in results), loops_cut=sum(r['loops'] for r in results),
        solver_queries=sum(r['q'] for r in results), solver_seconds=round(sum(r['solver'] for r in results), 2), cvc5_queries=back['cvc5 queries'],
        back_end='z3 4.x (python API, incremental) + cvc5 1.1.2 fallback',
        obligation_kinds=dict(collections.Counter(o['name'].split(':')[0] for r in results for o in r['obl']))),
        assumptions=ASSUME + [n for r in results for n in r['notes']][:20], violations=len(violations))
    rep = None
    if violations:
        rep, found = replay(pid, violations, results, tier)
        ev['coverage']['failed_obligations'] = ['%s %s %s' % (o['fn'], o['name'], o['pos']) for o, _ in violations][:50]
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    c = ev['coverage']
    print(f'{pid}: {c["discharged"]}/{c["obligations"]} obligations discharged, {len(c["functions_under_contract"])} functions, {len(c["contract_cases"])} contract cases, '
          f'{c["solver_queries"]} solver queries ({c["solver_seconds"]} s), {ev["wall_s"]} s')
    for n in skipped: print('note: helper under contract absent (its callers were verified with the new body):', n)
    if violations:
        for o, _ in violations[:12]: print('  failed obligation: %s %s %s: %s' % (o['fn'], o['name'], o['pos'], o['why'][:400]))
        print(f'VIOLATION property={pid} replay={rep}' + ('' if found else ' no-failing-input-found'))
        return 1
    return 0

ASSUME = ['integers: every Go integer operation is wrapped at its width (no mathematical-integer shortcut); floating point values are treated as reals with uninterpreted bit patterns',
          'library models in gov/lib.py (encoding/binary, io, bytes, time, strings, sync ...) are trusted',
          'no slice, string, map or buffer exceeds 2^40 elements; lengths passed to the 32-bit wire functions are below 2^31',
          'interface values hold the types known to the program (closed world) and no typed nil pointers',
          'verified sequentially: interference by other goroutines is excluded by the lock discipline (C21)',
          'a call may allocate without bound; memory exhaustion and stack exhaustion are outside the model']

def replay(pid, violations, results, tier):
    """write the replay file: failed obligations, verifier output, and a concrete failing input when the harness finds one"""
    d = os.path.join(ROOT, 'build', 'replay'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}.txt')
    out = [f'property {pid}', '', 'failed obligations:']
    for o, _ in violations:
        out.append(f'* {o["fn"]}  obligation {o["name"]}  at {o["pos"]}'); out.append('    ' + o['why'][:3000])
        if o.get('model'): out.append('    counterexample: ' + ', '.join(f'{k}={v}' for k, v in sorted(o['model'].items()))[:3000])
    found = False
    try:
        import replay as R
        found, text = R.run(pid, [o for o, _ in violations])
        out += ['', 'replay against the real code:', text]
    except Exception as e: out += ['', 'replay harness: %r' % e]
    open(path, 'w').write('\n'.join(out) + '\n')
    return path, found

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    try: sys.exit(run(pid, tier))
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc()
        d = os.path.join(ROOT, 'build', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + '.txt'); open(p, 'w').write('the verifier could not process the current tree:\n' + traceback.format_exc())
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found'); sys.exit(1)
