"""Loops: complete unrolling when every iteration's continuation is decided, otherwise an inductive cut.
The cut infers its invariant by an optimistic fixpoint (unchanged -> closed form -> arbitrary) and checks it."""
import z3, re, os
from core import *
from state import *
from stream import *
import engine as E

MAXUNROLL = 40
_vn = re.compile(r'!(\d+)$')

def enter(eng, st, h, body):
    f = st.frames[-1]
    key = (f.fn.name, h)
    hasnext = any(i['op'] == 'next' for b in body for i in f.fn.blocks[b]['ins'])
    if not hasnext and not eng.suminvs and not eng.opts.get('nounroll') and key not in eng.cache.setdefault('nounroll', set()):
        r = unroll(eng, st, h, body)
        if r is not None: return r
    return cut(eng, st, h, body)

def finish_exits(eng, L):
    out = []
    for x, tgt in L.exits:
        if tgt == 'unwind':
            # re-dispatched by the caller's step loop
            out.append(x); continue
        eng.w.cur = x
        out += eng.jump(x, tgt)
    return out

def unroll(eng, st, h, body):
    obl = len(eng.obl); depth = len(st.frames)
    front = eng.goto(st.fork(), h)
    allexits = []
    for it in range(MAXUNROLL + 1):
        L = E.LCtx(depth, h, body)
        try:
            eng.exploreloop(front, L)
        except Unsupported:
            del eng.obl[obl:]
            if it == 0: raise
            return None
        if L.undec or len(L.backs) > 80 or len(allexits) > 400:
            del eng.obl[obl:]
            f = st.frames[-1]
            if it == 0: eng.cache['nounroll'].add((f.fn.name, h)) if False else None
            return None
        allexits += L.exits
        if not L.backs:
            L.exits = allexits
            return finish_exits(eng, L)
        nf = []
        for b in L.backs:
            eng.w.cur = b
            nf += eng.goto(b, h)
        front = nf
    del eng.obl[obl:]
    return None

class Info: pass

def variant(ts, mark, k):
    for t in ts:
        for n in consts(t):
            if n.startswith('f:'): n = n[2:]
            if n == k.decl().name(): continue
            m = _vn.search(n)
            if m and int(m.group(1)) > mark: return True
    return False

def vterms(eng, v):
    ts = []; eng.St.terms(v, ts)
    return ts
def varv(eng, v, mark, k): return variant(vterms(eng, v), mark, k)

def hasfresh(eng, v, cnt):
    """mentions an object allocated after the cut"""
    found = [False]
    def chk(x):
        if isinstance(x, int) and not isinstance(x, bool) and x < -cnt and x > -(1 << 49): found[0] = True
    def go(v):
        if isinstance(v, PtrV): chk(v.ref)
        elif isinstance(v, SliceV): chk(v.b)
        elif isinstance(v, (MapV, ChanV)): chk(v.ref)
        elif isinstance(v, IfV): 
            if v.tn: go(v.v)
        elif isinstance(v, StructV): [go(x) for x in v.fs]
        elif isinstance(v, TupV): [go(x) for x in v.vs]
        elif isinstance(v, FuncV): [go(x) for x in v.bind]
    go(v)
    return found[0]

def vequal(eng, st, a, b, t):
    """condition that two rich values are identical"""
    w = eng.w; k = w.lkind(t)
    if k == 'slice': return and_(*[w.eq(x, y, 'int') for x, y in ((a.b, b.b), (a.o, b.o), (a.l, b.l))])
    if k == 'struct': return and_(*[vequal(eng, st, x, y, f['t']) for x, y, f in zip(a.fs, b.fs, w.p.fields(t))])
    if k == 'array': return a.row.same(b.row)
    if k == 'tuple': return False
    if isinstance(a, IterV): return a is b
    return w.eq(a, b, t)

def freshval(eng, st, t, nm, birth):
    w = eng.w; k = w.lkind(t)
    if k == 'struct': return StructV(t, [freshval(eng, st, f['t'], nm, birth) for f in w.p.fields(t)])
    if k == 'array':
        return ArrV(t, eng.fresharr((nm, ()), w.p.elem(t), 1, birth))
    v = w.lift([fresh(nm, x) for x in w.sorts(t)], t)
    st.typefacts(v, t, birth)
    return v

def cut(eng, st, h, body):
    """returns the exit states"""
    f = st.frames[-1]; fn = f.fn; depth = len(st.frames); w = eng.w
    phis = []
    for i in fn.blocks[h]['ins']:
        if i['op'] != 'phi': break
        phis.append(i)
    preds = fn.blocks[h]['preds']
    init = {i['r']: eng.val(st, i['es'][preds.index(f.blk)]) for i in phis}
    phit = {i['r']: i['t'] for i in phis}
    phinst = {i['r']: i for i in phis}
    import core
    mark = core._n[0]
    k = z3.Int('k!%s.%d' % (fn.name.replace('!', '_'), h) + 'k')
    # a nested or repeated cut of the same loop needs its own counter
    eng.cache.setdefault('kn', {})
    n = eng.cache['kn'].get(k.decl().name(), 0); eng.cache['kn'][k.decl().name()] = n + 1
    k = z3.Int('k%s.%d.%d' % (fn.name, h, n))
    cnt0 = st.cnt; gap = cnt0 + 1000
    S = Info()
    S.phi = {r: ('const',) for r in init}
    S.mem = {}; S.whole = set(); S.outs = {}; S.ins = {}; S.B = None; S.cands = None; S.ghost = set()
    S.accs = {}
    S.objinv = {}
    allcands = None
    # stated event / stream invariants: the whole stream since function entry as an expression of k and the loop variables
    def stated(inv, s2, get, kk):
        c = inv.candidate(eng, st, fn, h, phis, init, phit)
        return None if c is None else safe(c, eng, s2, get, kk)
    if depth == 1:
        for inv in eng.evinv:
            if inv.candidate(eng, st, fn, h, phis, init, phit) is None: continue
            x = st.fork(); w.cur = x
            e0 = stated(inv, x, lambda r: init[r], 0)
            if e0 is not None and Eq(eng.St).decide(x, list(st.outs.get('$ev', (U('$ev0'),))), [U('$ev0')] + list(e0)): S.outs['$ev'] = ('user', inv)
            else: eng.notes.append('event invariant does not hold on entry of loop %d of %s' % (h, fn.name))
            w.cur = st
        for r in init:
            for nm, inv in eng.strinv:
                if phinst[r].get('c') == nm: S.objinv[r] = inv
    for rnd in range(14):
        obl0 = len(eng.obl)
        g, hv = generic(eng, st, S, init, phit, k, gap, h, stated)
        # candidate invariants
        if allcands is None:
            allcands = candidates(eng, st, fn, h, phis, init, phit, k)
            ok = []
            for c in allcands:
                v = safe(c, eng, st, lambda r: init[r], 0)
                if v is not None and (st.valid(v, 1500, full=getattr(c, 'full', False)) or getattr(c, 'full', False) and isz(v) and eng.unfoldvalid(st, v)): ok.append(c)
            for c in allcands:
                if c not in ok and getattr(c, 'stated', False): eng.notes.append('invariant %s does not hold on entry of loop %d of %s' % (c.name, h, fn.name))
            S.cands = ok
            S.lost = [c for c in allcands if c not in ok and getattr(c, 'required', False)]
        for c in S.cands:
            v = safe(c, eng, g, lambda r: hv[r], k)
            if v is not None: g.fact(v)
        if S.B is not None:
            g.fact(z3.Or(k == 0, z3.substitute(S.B, (k, k - 1))))
        hnode = g.node; hwlog = g.wlog; houts = dict(g.outs); hins = dict(g.ins)
        gm = g.fork()
        L = E.LCtx(depth, h, body)
        eng.trial += 1
        try: eng.exploreloop([g], L)
        finally: eng.trial -= 1
        trialobl = eng.obl[obl0:]; del eng.obl[obl0:]
        ch = False
        # --- branch conditions of completed iterations
        Bs = []
        for b in L.backs:
            cs = []; n = b.node
            while n is not hnode:
                if n.c is not None and n.branch is True and not variant([n.c], mark, k): cs.append(n.c)
                n = n.up
            Bs.append(cs)
        B = None
        if L.backs and all(Bs): B = z3.Or(*[z3.And(*c) for c in Bs]) if len(Bs) > 1 else z3.And(*Bs[0])
        elif not L.backs: B = z3.BoolVal(False)
        def sx(x): return None if x is None else x.sexpr()
        newB = sx(B) != sx(S.B)
        # --- phis
        back = []
        for b in L.backs:
            fb = b.frames[-1]; pi = preds.index(fb.blk)
            back.append({r: eng.val(b, phinst[r]['es'][pi]) for r in init})
        for r in init:
            stt = S.phi[r]; t = phit[r]
            if stt[0] == 'free': continue
            for b, bv in zip(L.backs, back):
                w.cur = b
                if stt[0] == 'const':
                    c = False if isinstance(bv[r], IterV) and bv[r] is not init[r] else vequal(eng, b, bv[r], init[r], t)
                    if b.valid(c): continue
                    S.phi[r] = down(eng, b, init[r], bv[r], t, mark, k, cnt0); ch = True
                    if S.phi[r] == ('free',) and owned(eng, st, fn, h, r, init[r], bv[r], preds, f): 
                        S.phi[r] = objstart(eng, st, S, r, init, k, stated)
                    break
                if stt[0] == 'ind':
                    c = simp(zi(bv[r]) == zi(add(init[r], mul(stt[1], add(k, 1)))))
                    if b.valid(c): continue
                    S.phi[r] = ('free',); ch = True; break
                if stt[0] == 'obj':
                    if objok(eng, b, bv[r], stt, S, r, lambda q, bv=bv: bv[q], add(k, 1), stated): continue
                    S.phi[r] = ('free',); ch = True; break
                if stt[0] == 'app':
                    v = bv[r]
                    if not (isinstance(v, SliceV) and same(v.o, 0) and b.valid(simp(zi(v.l) == zi(add(init[r].l, add(k, 1)))))):
                        S.phi[r] = ('free',); ch = True; break
                    # rows
                    r2 = approws(eng, b, gm, v, init[r], stt, mark, k)
                    if r2 is not None and r2 is not stt: S.phi[r] = r2; ch = True; break
        # --- memory
        entries = {}
        for b in L.backs:
            x = b.wlog
            while x is not hwlog:
                key, idxs = x[0]; x = x[1]
                entries.setdefault((key, skey(idxs)), (key, idxs))
        for key, idxs in entries.values():
            if idxs is None:
                if key not in S.whole: S.whole.add(key); ch = True
                continue
            i0 = idxs[0]
            if isinstance(i0, int) and i0 < -cnt0 and not i0 < -(1 << 49): continue      # allocated in this iteration
            if key in S.whole: continue
            j = 0
            while j < len(idxs) and not variant([x for x in [idxs[j]] if isz(x)], mark, k) and not usesk(idxs[j], k): j += 1
            if j == 0:
                S.whole.add(key); ch = True
                for q in [q for q in S.mem if q[0] == key]: del S.mem[q]
                continue
            pk = (key, skey(idxs[:j]))
            if any((key, skey(idxs[:m])) in S.mem and S.mem[(key, skey(idxs[:m]))][0][0] == 'free' for m in range(1, j)): continue
            if pk not in S.mem: S.mem[pk] = [('const',), idxs[:j], None]
        for pk, ent in list(S.mem.items()):
            key = pk[0]
            if key in S.whole: S.mem.pop(pk, None); continue
            stt, idxs, _ = ent
            if stt[0] == 'free': continue
            for b in L.backs:
                w.cur = b
                a = b.peek(key); a0 = st.peek(key)
                if len(idxs) == a.dims:
                    v = a.read(b, *idxs); v0 = a0.read(st, *idxs); t = a.et
                    if stt[0] == 'const':
                        if b.valid(vequal(eng, b, v, v0, t)): continue
                        nx = down(eng, b, v0, v, t, mark, k, cnt0)
                        if nx[0] == 'app': nx = ('free',)
                        ent[0] = nx; ch = True; break
                    if stt[0] == 'ind':
                        c = simp(zi(v) == zi(add(v0, mul(stt[1], add(k, 1)))))
                        if b.valid(c): continue
                        # wrapped accumulators
                        n_ = eng.p.intinfo(t)[0]
                        rv = eng.rawof(v, n_)
                        if b.valid(simp((zi(rv) - zi(add(v0, mul(stt[1], add(k, 1))))) % (1 << n_) == 0)): continue
                        ent[0] = ('free',); ch = True; break
                    if stt[0] == 'acc':
                        tot = accterm(eng, b, stt, v0, k, 1)
                        n_ = eng.p.intinfo(t)[0]
                        rv = eng.rawof(v, n_)
                        if b.valid(simp(zi(rv) == zi(tot))): continue
                        ent[0] = ('free',); ch = True; break
                else:
                    # a row: try to describe it as one store per iteration
                    r = a
                    for x in idxs: r = r.row(b, x)
                    r0 = a0
                    for x in idxs: r0 = r0.row(st, x)
                    if stt[0] == 'const':
                        if r.same(r0): continue
                        nx = rowacc(eng, b, r, r0, L, mark, k)
                        ent[0] = nx or ('free',); ch = True; break
                    if stt[0] == 'row':
                        if not rowcheck(eng, b, gm, r, r0, stt, k): ent[0] = ('free',); ch = True; break
        # --- streams
        for sid in set().union(*[set(b.outs) for b in L.backs]) if L.backs else ():
            cur = S.outs.get(sid)
            if cur and cur[0] == 'free': continue
            if sid.startswith('buf:-') and int(sid[5:].split('.')[0]) > cnt0: continue     # allocated in this iteration
            if cur and cur[0] == 'user':
                if ch: continue         # checked once the rest of the description is stable
                for b, bv in zip(L.backs, back):
                    w.cur = b
                    e1 = stated(cur[1], b, lambda r: bv[r], add(k, 1))
                    e = Eq(eng.St)
                    if e1 is None or not e.decide(b, list(b.outs[sid]), [U('$ev0')] + list(e1)):
                        S.outs[sid] = ('free',); ch = True
                        eng.notes.append('event invariant is not inductive: ' + str(e.why)[:300]); break
                continue
            hd = houts.get(sid, (U(sid + '0'),))
            ds = []
            for b in L.backs:
                bl = b.outs.get(sid, hd)
                if len(bl) < len(hd) or any(not sameg(x, y) for x, y in zip(bl, hd)): ds = None; break
                ds.append(list(bl[len(hd):]))
            if ds is None: S.outs[sid] = ('free',); ch = True; continue
            if not cur and all(not d for d in ds): continue
            fnd = delta(eng, L, ds, hnode, mark, k, gm)
            if fnd is None: S.outs[sid] = ('free',); ch = True; continue
            if not cur: S.outs[sid] = ('sum', fnd, 1); ch = True; continue
            # check the summary for this iteration
            ok = True
            for b, d in zip(L.backs, ds):
                w.cur = b
                if not Eq(eng.St).run(b, d, list(cur[1](k))): ok = False; break
            if not ok:
                S.outs[sid] = ('sum', fnd, cur[2] + 1) if cur[2] < 3 else ('free',); ch = True
        for sid in set().union(*[set(b.ins) for b in L.backs]) if L.backs else ():
            cur = S.ins.get(sid)
            if cur and cur[0] == 'free': continue
            i0 = st.ins.get(sid)
            if cur is None and all(same_ch(b.ins.get(sid), hins.get(sid)) for b in L.backs): continue
            if cur is None:
                hd = flat(list(i0)) if i0 is not None else []
                if hd and hd[0][0] == 'CAT': S.ins[sid] = ('cat', hd)
                else: S.ins[sid] = ('free',)
                ch = True; continue
            hd = cur[1]
            for b in L.backs:
                w.cur = b
                want = [('CAT', add(hd[0][1], add(k, 1)), hd[0][2], hd[0][3])] + hd[1:]
                if not Eq(eng.St).run(b, list(b.ins[sid]), want): S.ins[sid] = ('free',); ch = True; break
        for b in L.backs:
            lk = {q for q in b.ghost if q.startswith('lock ')}; lk0 = {q for q in gm.ghost if q.startswith('lock ')}
            if lk != lk0 or any(b.ghost[q][0] != gm.ghost[q][0] for q in lk):
                eng.record(b, False, 'lock:loop', 'the locks held differ between iterations'); raise Unsupported('lock state changes in a loop')
        for gk in set().union(*[set(b.ghost) for b in L.backs]) if L.backs else ():
            if gk in S.ghost or gk.startswith('lock '): continue
            for b in L.backs:
                if gk in b.ghost and not sameg(b.ghost[gk], gm.ghost.get(gk)):
                    S.ghost.add(gk); ch = True; break
        if not ch:
            # Houdini over the remaining candidates
            keep = []
            for c in S.cands:
                good = True
                for b, bv in zip(L.backs, back):
                    w.cur = b
                    if hasattr(c, 'probe') and not sumprobe(eng, c, gm, hv, b, bv, k): good = False; break
                    v = safe(c, eng, b, lambda r: bv[r], add(k, 1))
                    if v is None or not (b.valid(v, 2500, full=getattr(c, 'full', False)) or getattr(c, 'full', False) and eng.unfoldvalid(b, v)): good = False; break
                if good: keep.append(c)
                else:
                    ch = True
                    if getattr(c, 'stated', False): eng.notes.append('invariant %s is not inductive in loop %d of %s' % (c.name, h, fn.name))
                    if getattr(c, 'required', False): S.lost.append(c)
            S.cands = keep
        if os.environ.get('DBGL'): print('round', rnd, 'ch', ch, S.mem, S.whole, len(L.backs), len(L.exits), [c.name for c in S.cands])
        if newB and not ch:
            S.B = B; continue
        if ch:
            S.B = None if rnd < 1 else S.B
            # a stronger B may have come from stronger assumptions: recompute
            S.B = None
            continue
        # stable: commit
        eng.obl += trialobl if not eng.trial else trialobl
        redo = [o for o in trialobl if not o['ok'] and o['why'].endswith('trial')]
        if redo and not eng.trial:
            # rerun the final round with full-strength proving
            del eng.obl[obl0:]
            g2 = gm.fork()
            L = E.LCtx(depth, h, body)
            eng.exploreloop([g2], L)
        for c in S.lost:
            if '!nread' not in S.ghost: continue        # a loop that receives nothing
            eng.record(st, False, 'loop-invariant:' + c.name, f'not inductive in loop at block {h} of {fn.name}')
        if eng.iters and not eng.trial: iterclauses(eng, st, S, gm, hnode, L, fn, h)
        eng.cache.setdefault('loops', []).append((fn.name, h, {r: v[0] for r, v in S.phi.items()}))
        return finish_exits(eng, L)
    raise Unsupported(f'no stable invariant for loop {h} of {fn.name}')

def iterclauses(eng, st, S, gm, hnode, L, fn, h):
    """entry / iteration / leave clauses: about one arbitrary iteration of every loop that changes a ghost the clauses mention;
    `old` is the state at the function entry / at the start of the iteration"""
    names = {n for _, _, _, src in eng.iters for n in re.findall(r'gh\("([^"]+)"\)', src)}
    if not names & set(S.ghost): return
    eng.iterdone = True
    eng.itermarks.append((gm, hnode))
    import spec as SP
    for kind, lab, code, src in eng.iters:
        if kind == 'finish': continue           # at the returns of the function (vc.check_return)
        for x, o in {'entry': [(st, eng.oldst)], 'iteration': [(b, gm) for b in L.backs], 'leave': [(x, gm) for x, _ in L.exits]}[kind]:
            if getattr(x, 'panicking', None) is not None: continue
            eng.w.cur = x
            o = o.fork(); o.node = x.node; o.tf = set(x.tf)
            v = SP.ev(eng, x, code, eng.env0, o)
            eng.oblige(x, v, f'{kind}:{lab}', src)
    eng.w.cur = st

def sameg(a, b):
    if a is b: return True
    if isz(a) or isz(b): return isz(a) and isz(b) and a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(sameg(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bool, bytes)) and type(a) == type(b): return a == b
    return False
def same_ch(a, b):
    if a is b: return True
    if a is None or b is None: return False
    return len(a) == len(b) and all(sameg(x, y) for x, y in zip(a, b))

def safe(c, eng, st, get, k):
    try:
        eng.w.cur = st
        return c(eng, st, get, k)
    except (KeyError, AttributeError, IndexError, Unsupported, z3.Z3Exception):
        return None

def heads(t, out):
    """the memory components a term reads at its top level (not inside indices)"""
    if z3.is_select(t):
        a = t.arg(0)
        while z3.is_select(a) or z3.is_store(a): a = a.arg(0)
        out.add(str(a))
    else:
        for x in t.children(): heads(x, out)
    return out
def sumprobe(eng, c, gm, hv, b, bv, k):
    """heuristic: could this cell accumulate this summand? (only drops candidates)"""
    get, f = c.probe
    try:
        eng.w.cur = gm; v0 = get(gm, lambda r: hv[r])
        eng.w.cur = b; v1 = get(b, lambda r: bv[r])
        d1 = heads(zi(v1) if not isz(v1) else v1, set()); d0 = heads(zi(v0) if not isz(v0) else v0, set())
        if d1 == d0: return True      # a counter: branches decide
        eng.w.cur = gm
        u = f(eng, b, lambda r: bv[r], add(k, 1)); eng.w.cur = b
        per = eng.St.sumper(u)
        if per is None: return True
        want = heads(per, set())
        return not want or bool(want & d1)
    except (KeyError, AttributeError, z3.Z3Exception): eng.w.cur = b; return True

def usesk(x, k): return isz(x) and occurs(k, x)
def skey(idxs): return None if idxs is None else tuple(x.sexpr() if isz(x) else x for x in idxs)

def down(eng, b, v0, v, t, mark, k, cnt0):
    """next weaker description of a value that changes"""
    kd = eng.w.lkind(t)
    if kd == 'int':
        n = eng.p.intinfo(t)[0]
        d = sub(eng.rawof(v, n), eng.rawof(v0, n))
        if isc(d): return ('ind', d)
        if not varv(eng, d, mark, k):
            if usesk(d, k): return ('acc', d)
            return ('ind', d)
        return ('free',)
    if kd == 'slice' and isinstance(v, SliceV) and isinstance(v0, SliceV):
        if isc(v.b) and v.b < -cnt0 and same(v.o, 0):
            d = sub(v.l, v0.l)
            if isc(d) and d == 1: return ('app', None)
    return ('free',)

def accterm(eng, st, stt, v0, k, plus):
    """v0 + sum_{i<k+plus} d(i)"""
    d = stt[1]
    per = z3.substitute(zi(d), (k, eng.St.dummy()))
    f = eng.St.sumf(per)
    hi = add(k, plus)
    t = f(z3.IntVal(0), zi(hi))
    st.fact(z3.Implies(zi(hi) <= 0, t == 0))
    if plus: st.fact(t == f(z3.IntVal(0), k) + d)
    return add(v0, t)

def generic(eng, st, S, init, phit, k, gap, h, stated=None):
    g = st.fork(); w = eng.w
    w.cur = g
    g.cnt = max(g.cnt, gap)
    g.fact(k >= 0)
    hv = {}
    for r, stt in S.phi.items():
        t = phit[r]
        if stt[0] == 'const': hv[r] = init[r]
        elif stt[0] == 'ind':
            v = add(init[r], mul(stt[1], k)); g.typefacts(v, t)
            if isz(v):
                n, sg = eng.p.intinfo(t)
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
                g.fact(z3.And(v >= lo, v <= hi))
            hv[r] = v
        elif stt[0] == 'app':
            i0 = init[r]
            l = add(i0.l, k); c = fresh('cap', INT); g.fact(z3.And(c >= zi(l), c <= BIG))
            sl = SliceV(i0.et, g.newref(), 0, l, c)
            for p, lt_ in g.leafpaths(i0.et):
                row0 = g.comp(('[]' + i0.et, ('[]',) + p), lt_, 2).row(g, i0.b)
                a = eng.fresharr(('acc', p), lt_, 1, gap)
                j = z3.Int('j!acc')
                vf = stt[1].get(p) if stt[1] else None
                if not (isc(i0.l) and i0.l == 0):
                    for x, y in zip(a.base, row0.comps(w)):
                        g.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(i0.l)), x[j] == y[j + zi(i0.o)]), patterns=[x[j]]))
                if vf is not None:
                    for x, y in zip(a.base, w.lower(vf, lt_)):
                        g.fact(z3.ForAll([j], z3.Implies(z3.And(j >= zi(i0.l), j < zi(l)), x[j] == z3.substitute(y, (k, j - zi(i0.l)))), patterns=[x[j]]))
                g.setrow(sl, a, p, lt_)
            hv[r] = sl
        elif stt[0] == 'obj': hv[r] = objnew(eng, g, st, init[r], stt, gap)
        else: hv[r] = freshval(eng, g, t, 'phi_' + r, gap)
    for key in S.whole:
        if key[0] == '*others':
            import vc; vc.havoc(eng, g, ('others', key[1])); continue
        a = st.peek(key)
        g.mem[key] = eng.fresharr(key, a.et, a.dims, gap)
        g._wlog = ((key, None), g._wlog)
    for (key, _), (stt, idxs, _) in S.mem.items():
        if stt[0] == 'const': continue
        a = g.peek(key)
        if len(idxs) == a.dims:
            v0 = a.read(g, *idxs)
            if stt[0] == 'ind' and (key[0] == '$iter' or key == ('$chan', ('pos',))): v = add(v0, mul(stt[1], k))      # ghost iterator position
            elif stt[0] == 'ind': v = eng.wrap(g, add(eng.rawof(v0, eng.p.intinfo(a.et)[0]), mul(stt[1], k)), a.et)
            elif stt[0] == 'acc': v = eng.wrap(g, accterm(eng, g, stt, v0, k, 0), a.et)
            else: v = freshval(eng, g, a.et, 'm_' + key[0] + '.' + '.'.join(key[1]), gap)
        elif stt[0] == 'row':
            _, c0, step, vf, _ = stt
            row0 = a
            for x in idxs: row0 = row0.row(g, x)
            v = eng.fresharr(('racc', ()), a.et, a.dims - len(idxs), gap)
            j = z3.Int('j!racc')
            lo, hi = zi(c0), zi(add(c0, k))
            for x, y, z in zip(v.base, row0.comps(w), w.lower(vf, a.et)):
                g.fact(z3.ForAll([j], x[j] == z3.If(z3.And(j >= lo, j < hi), z3.substitute(z, (k, j - lo)), y[j]), patterns=[x[j]]))
        else:
            v = eng.fresharr(key, a.et, a.dims - len(idxs), gap)
        g.mem[key] = a.write(g, list(idxs), v)
        g._wlog = ((key, idxs), g._wlog)
    for sid, stt in S.outs.items():
        if stt[0] == 'user': continue
        elif stt[0] == 'sum': g.outs[sid] = st.outs.get(sid, (U(sid + '0'),)) + (('CAT', 0, k, stt[1]),)
        else:
            nm = '%s!%d' % (sid, nextn()); g.outs[sid] = (U(nm),)
    for sid, stt in S.ins.items():
        if stt[0] == 'cat':
            hd = stt[1]
            g.fact(zi(add(hd[0][1], k)) <= zi(hd[0][2]))
            g.ins[sid] = tuple([('CAT', add(hd[0][1], k), hd[0][2], hd[0][3])] + hd[1:])
        else: g.ins[sid] = (U('%s!%d' % (sid, nextn())),)
    for gk in S.ghost:
        g.ghost[gk] = eng.ghost_havoc(g, gk)
    w.cur = g
    for sid, stt in S.outs.items():
        if stt[0] == 'user': g.outs[sid] = (U('$ev0'),) + tuple(stated(stt[1], g, lambda r: hv[r], k))
    for r, stt in S.phi.items():
        if stt[0] == 'obj':
            for leaf, bsid in stt[2].items():
                nb = g.load(PtrV('any', hv[r].ref, hv[r].root, leaf), stt[3][leaf])
                sid = lib_canon(eng, nb)
                inv = S.objinv.get(r)
                c = stated(inv, g, lambda q: hv[q], k) if inv is not None else None
                g.outs[sid] = tuple(c) if c is not None else (U('%s!%d' % ('buf', nextn())),)
    f = g.frames[-1]
    eng.goto(g, h, hv)
    return g, hv

# ---- a loop variable that owns an object allocated by this function (replaced as a whole in the loop)
def lib_canon(eng, v):
    import lib
    return lib.canon(eng, v)
def isown(v): return isinstance(v, PtrV) and isc(v.ref) and -(1 << 49) < v.ref < 0 and not v.path
def owned(eng, st, fn, h, r, v0, v1, preds, f):
    """v0 and v1 are objects of this function, and v0 is reachable through this variable only"""
    if not (isown(v0) and isown(v1)) or v0.root != v1.root or not eng.w.isext(v0.et) and eng.w.lkind(v0.et) != 'struct': return False
    # registers holding v0 that are used in or after the loop
    reach = {h}; todo = [h]
    while todo:
        for x in fn.blocks[todo.pop()]['succs']:
            if x not in reach: reach.add(x); todo.append(x)
    def uses(o, out):
        if isinstance(o, dict):
            if o.get('k') == 'r' and 'n' in o: out.add(o['n'])
            for x in o.values(): uses(x, out)
        elif isinstance(o, list):
            for x in o: uses(x, out)
    for q, v in f.regs.items():
        if q == r or not (isinstance(v, PtrV) and same(v.ref, v0.ref)): continue
        for bi in reach:
            for i in fn.blocks[bi]['ins']:
                if i['op'] == 'phi':
                    for e, p in zip(i['es'], fn.blocks[bi]['preds']):
                        if p in reach or bi != h or i['r'] != r:
                            u = set(); uses(e, u)
                            if q in u and not (bi == h and p not in reach): return False
                            if q in u and i['r'] != r: return False
                    continue
                u = set(); uses({a: b for a, b in i.items() if a not in ('r', 'op')}, u)
                if q in u: return False
    # stored in memory
    for key, a in st.mem.items():
        x = a.ws
        while x:
            v = x[1]
            if isinstance(v, PtrV) and same(v.ref, v0.ref) or isinstance(v, IfV) and v.tn and isinstance(v.v, PtrV) and same(v.v.ref, v0.ref): return False
            x = x[2]
    return True
def objleaves(eng, st, et):
    out = []
    def go(t, p):
        for fd in eng.w.p.fields(t):
            if eng.w.lkind(fd['t']) == 'struct': go(fd['t'], p + (fd['name'],))
            else: out.append((p + (fd['name'],), fd['t']))
    go(et, ())
    return out
def objstart(eng, st, S, r, init, k, stated):
    v0 = init[r]; bufs = {}; types = {}
    for leaf, t in objleaves(eng, st, v0.et):
        types[leaf] = t
        x = st.load(PtrV(t, v0.ref, v0.root, leaf), t)
        if isinstance(x, IfV) and x.tn == '*bytes.Buffer' and isown(x.v): bufs[leaf] = None
    inv = S.objinv.get(r)
    if inv is not None:
        s2 = st.fork(); eng.w.cur = s2
        for leaf in bufs:
            x = st.load(PtrV(types[leaf], v0.ref, v0.root, leaf), types[leaf])
            c = stated(inv, s2, lambda q: init[q], 0)
            if c is None or not Eq(eng.St).decide(s2, list(st.outs.get(lib_canon(eng, x), ())), list(c)):
                eng.notes.append('stream invariant does not hold on entry'); del S.objinv[r]; break
        eng.w.cur = st
    return ('obj', None, bufs, types)
def objnew(eng, g, st, v0, stt, gap):
    import lib
    p = PtrV(v0.et, g.newref(), v0.root)
    for leaf, t in stt[3].items():
        if leaf in stt[2]: x = IfV(tn='*bytes.Buffer', v=PtrV('bytes.Buffer', g.newref()))
        else: x = freshval(eng, g, t, 'o_' + leaf[-1], gap)
        g.store(PtrV(t, p.ref, p.root, leaf), x, t)
    return p
def objok(eng, b, v, stt, S, r, get, k1, stated):
    if not isown(v): return False
    for leaf, t in stt[3].items():
        if leaf not in stt[2]: continue
        x = b.load(PtrV(t, v.ref, v.root, leaf), t)
        if not (isinstance(x, IfV) and x.tn == '*bytes.Buffer' and isown(x.v)): return False
        inv = S.objinv.get(r)
        if inv is not None:
            eng.w.cur = b
            c = stated(inv, b, get, k1); e = Eq(eng.St)
            if c is None or not e.decide(b, list(b.outs.get(lib_canon(eng, x), ())), list(c)):
                eng.notes.append('stream invariant is not inductive: ' + str(e.why)[:300])
                del S.objinv[r]; return True
    return True

def nextn():
    import core
    core._n[0] += 1
    return core._n[0]

def approws(eng, b, gm, v, i0, stt, mark, k):
    """element description of an append accumulator; returns stt when it is confirmed"""
    w = eng.w
    vf = {}
    for p, lt_ in b.leafpaths(i0.et):
        row = b.comp(('[]' + i0.et, ('[]',) + p), lt_, 2).row(b, v.b)
        x = row.read(b, add(i0.l, k))
        if varv(eng, x, mark, k) or hasfresh(eng, x, 0): continue
        vf[p] = x
    if stt[1] is None: return ('app', vf) if vf else stt if vf == {} and stt[1] == {} else ('app', {})
    for p, x in stt[1].items():
        y = vf.get(p)
        lt_ = dict(b.leafpaths(i0.et))[p]
        if y is None or not b.valid(vequal(eng, b, x, y, lt_), full=True):
            n = dict(stt[1]); del n[p]
            return ('app', n)
        # earlier elements are kept
        row = b.comp(('[]' + i0.et, ('[]',) + p), lt_, 2).row(b, v.b)
    return stt

def rowacc(eng, b, r, r0, L, mark, k):
    """row written once per iteration at c0+k with a closed value"""
    if r.dims != 1 or len(L.backs) != 1: return None
    if not r.ws or not (r.ws[2] is r0.ws): return None
    ix, v = r.ws[0], r.ws[1]
    if not isz(ix) or not usesk(ix, k): return None
    c0 = simp(z3.substitute(ix, (k, z3.IntVal(0))))
    if not same(simp(zi(ix) - zi(c0)), k) or varv(eng, v, mark, k) or hasfresh(eng, v, 0): return None
    return ('row', c0, 1, v, None)

def rowcheck(eng, b, gm, r, r0, stt, k):
    _, c0, _, vf, _ = stt
    j = fresh('rj', INT)
    b2 = b.fork()
    lo, hi = zi(c0), zi(add(c0, add(k, 1)))
    want0 = r0.read(b2, j)
    t = r.et
    for x, y, z in zip(eng.w.lower(r.read(b2, j), t), eng.w.lower(want0, t), eng.w.lower(vf, t)):
        if not b2.valid(x == z3.If(z3.And(j >= lo, j < hi), z3.substitute(z, (k, j - lo)), y), full=True): return False
    return True

def delta(eng, L, ds, hnode, mark, k, gm):
    S = eng.St
    for d in ds:
        ts = []; S.cterms(d, ts)
        if variant(ts, mark, k): return None
        for c in d:
            if c[0] in ('EV', 'APP') and hasfresh(eng, TupV(list(c[2])), 0): return None
    if len(ds) == 1: return (lambda d: lambda i: S.substc(d, [(k, zi(i))]))(ds[0])
    # same on every path?
    def eqd(x, y): return len(x) == len(y) and all(p is q for p, q in zip(x, y))
    if all(not d for d in ds): return lambda i: []
    gs = []
    for b in L.backs:
        cs = []; n = b.node
        while n is not hnode:
            if n.c is not None and n.branch is True:
                if variant([n.c], mark, k): cs = None; break
                cs.append(n.c)
            n = n.up
        gs.append(z3.And(*cs) if cs else (None if cs is None else z3.BoolVal(True)))
    if any(g is None for g in gs): return None
    def fn(i):
        r = S.substc(ds[-1], [(k, zi(i))])
        for g_, d in reversed(list(zip(gs[:-1], ds[:-1]))):
            r = [('COND', z3.substitute(g_, (k, zi(i))), S.substc(d, [(k, zi(i))]), r)]
        return r
    return fn

def candidates(eng, st, fn, h, phis, init, phit, k):
    out = []
    def mk(name, f, required=False):
        f.name = name; f.required = required; out.append(f)
    for i in phis:
        r, t = i['r'], i['t']; kd = eng.w.lkind(t)
        if kd == 'int':
            mk(f'{r}>=init', lambda e, s, g, kk, r=r: le(init[r], g(r)))
            mk(f'{r}<=init', lambda e, s, g, kk, r=r: le(g(r), init[r]))
            mk(f'{r}>=0', lambda e, s, g, kk, r=r: le(0, g(r)))
        elif kd == 'ptr':
            mk(f'{r}!=nil', lambda e, s, g, kk, r=r: not_(e.w.eq(g(r).ref, 0, 'int')))
        elif kd == 'iface':
            mk(f'{r}==nil', lambda e, s, g, kk, r=r: e.w.ifeq(g(r), NILI))
            mk(f'{r}!=nil', lambda e, s, g, kk, r=r: not_(e.w.ifeq(g(r), NILI)))
            for q in eng.rels.values(): mk(f'{r}==nil-if-reliable', lambda e, s, g, kk, r=r, q=q: implies(q, e.w.ifeq(g(r), NILI)))
        elif kd == 'slice':
            mk(f'{r}.l>=init', lambda e, s, g, kk, r=r: le(init[r].l, g(r).l))
            mk(f'{r}.o==0', lambda e, s, g, kk, r=r: e.w.eq(g(r).o, 0, 'int'))
    if '!nfopen' in st.ghost:       # an opened file: the read position and the loop's own offset
        for i in phis:
            if eng.w.lkind(i['t']) == 'int': mk(f"{i['r']}==read-position", lambda e, s, g, kk, r=i['r']: e.w.eq(g(r), s.ghost['!nto'], 'int'))
        mk('file-position==read-position', lambda e, s, g, kk: e.w.eq(s.ghost['!nfp'], s.ghost['!nto'], 'int'))
    for inv in eng.invs:
        f = inv.candidate(eng, st, fn, h, phis, init, phit)
        if f: f.full = True; out.append(f)
    # stated facts about each loop variable of a type
    for ty, inv in eng.eachinvs:
        for i in phis:
            if i['t'] != ty: continue
            f = inv.candidate(eng, st, fn, h, phis, init, phit, each=i['r'])
            if f: f.name = 'each ' + i['r']; f.required = False; f.full = True; out.append(f)
    # stated sums: each accumulator (loop variable or local cell) is a candidate for each sum
    for inv in eng.suminvs:
        f = inv.candidate(eng, st, fn, h, phis, init, phit)
        if not f: continue
        def acc(v0, get, f=f, t=None):
            def g(e, s, gt, kk):
                d = f(e, s, gt, kk)
                v = get(s, gt)
                if isz(d) and d.sort() == REAL: return simp(zr(v) == zr(v0) + d)
                return e.w.eq(v, e.wrap(s, add(v0, d), t), 'int')
            g.name = 'sum'; g.required = False; g.full = True; g.probe = (get, f); out.append(g)
        for i in phis:
            if eng.w.lkind(i['t']) in ('int', 'float'): acc(init[i['r']], lambda s, gt, r=i['r']: gt(r), t=i['t'])
        for key, a in st.mem.items():
            if key[0].startswith('[]') and key[1] in ((), ('[]',)) and a.dims == 2 and eng.w.lkind(key[0][2:]) in ('int', 'float'):     # cells of a small local array
                x = a.ws; seen = set()
                while x:
                    if isinstance(x[0], int) and x[0] < 0 and x[0] not in seen and x[1].base is None:
                        seen.add(x[0])
                        for n in range(4): acc(a.read(st, x[0], n), lambda s, gt, key=key, ref=x[0], n=n: s.mem[key].read(s, ref, n), t=key[0][2:])
                    x = x[2]
                continue
            if key[1] or key[0] not in eng.w.p.types or a.dims != 1 or eng.w.lkind(key[0]) not in ('int', 'float') : continue
            x = a.ws; seen = set()
            while x:
                if isinstance(x[0], int) and x[0] < 0 and x[0] not in seen:
                    seen.add(x[0])
                    acc(a.read(st, x[0]), lambda s, gt, key=key, ref=x[0]: s.mem[key].read(s, ref), t=key[0])
                x = x[2]
    return out
