"""developer driver: run.py SSA 'substr' [case]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(20000)
import prog, spec, vc, glob
P = prog.Program(sys.argv[1])
S = spec.Specs()
for f in sorted(glob.glob(os.path.dirname(__file__) + '/../contracts/*.spec')): S.load(f)
pat = sys.argv[2]; cs = sys.argv[3] if len(sys.argv) > 3 else None
L = int(os.environ.get('W', '220')); t0 = time.time(); nok = nf = 0
for n, c in S.contracts.items():
    if pat not in n: continue
    if c.opts.get('trusted') or c.fname not in P.fns: print('SKIP', n); continue
    for case in c.cases:
        if cs and case.name != cs: continue
        r = vc.verify(P, S, c, case, budget=float(os.environ.get('BUDGET', '120')))
        bad = [o for o in r.obl if not o['ok']]
        if bad: nf += 1
        else: nok += 1
        if bad or os.environ.get('V'): print(('OK  ' if not bad else 'FAIL'), n, case.name, f'obl={len(r.obl)} paths={r.paths} t={r.t:.2f} q={r.q}', r.loops or '', sorted(r.inlined)[:8] if r.inlined else '')
        for o in bad[:4]: print('     ', o['name'], o['pos'], o['why'][:L])
        if len(bad) > 4: print('      ... %d more' % (len(bad) - 4))
        if (bad or os.environ.get('V')) and os.environ.get('GOVTRACE'):
            for x in r.notes: print('      note:', str(x)[:L])
print('ok', nok, 'fail', nf, 'time %.1f' % (time.time() - t0))
