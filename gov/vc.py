"""Verification of a function against a contract case, and use of contracts at call sites."""
import z3, time, itertools
from core import *
from state import *
from stream import *
from spec import *
import spec as SP
import engine as E
import lib

def case_env(eng, con, args, ghosts):
    env = dict(zip(con.params, args)); env.update(ghosts)
    return env

# ------------------------------------------------------------ call sites
class Split(Exception):
    def __init__(s, c): s.c = c
def apply(con, eng, st, args):
    n0 = len(eng.obl)
    try:
        for case in con.cases:
            r = try_case(con, case, eng, st, args)
            if r is not NotImplemented:
                eng.used_cases.add((con.name, case.name)); return r
        # no case is known to apply: distinguish on the first undecided case condition
        for case in con.cases:
            if case.opts.get('verify-only') or case.input is not None or not case.when: continue
            env = case_env(eng, con, args, {})
            for n, c in case.lets: env[n] = ev(eng, st, c, env, st)
            for lab, c, src in case.when:
                v = ev(eng, st, c, env, st)
                if isz(v) and st.decide(v) is None: raise Split(v)
        return NotImplemented
    except Split as e:
        del eng.obl[n0:]
        s2 = st.fork(); s2.fact(e.c, True); st.fact(not_(e.c), True)
        out = []
        for x in (s2, st):
            if x.sat() is False: continue
            eng.w.cur = x
            r = apply(con, eng, x, args)
            if r is NotImplemented: raise Unsupported('no contract case of %s applies after a case split' % con.name)
            out += r if isinstance(r, list) else [(x, r)]
        return out

def try_case(con, case, eng, st, args):
    env = case_env(eng, con, args, {})
    fn = eng.p.fns.get(con.fname)
    old = st.fork()
    newins = None
    if case.opts.get('verify-only'): return NotImplemented
    if case.input is not None:
        rd = ev(eng, st, case.input[0], env, old)
        sid = lib.sid_reader(eng, st, rd)
        ch = st.ins.get(sid)
        if ch is None: return NotImplemented
        ch = flat(list(ch))
        pat = case.input[2]
        # the pattern is one spec-function application on ghosts
        import ast as A
        if not (isinstance(pat, A.Call) and isinstance(pat.func, A.Name)): return NotImplemented
        hd = None
        for _ in range(12):
            if not ch: return NotImplemented
            hd = ch[0]
            if hd[0] == 'APP' and hd[1] == pat.func.id: break
            if hd[0] == 'CAT' and st.decide(lt(hd[1], hd[2])) is True:
                ch = flat(list(hd[3](hd[1])) + [('CAT', add(hd[1], 1), hd[2], hd[3])] + ch[1:]); continue
            if hd[0] == 'COND':
                d = st.decide(hd[1])
                if d is not None: ch = flat(list(hd[2] if d else hd[3]) + ch[1:]); continue
                if pat.func.id in reachapps(eng, st, hd): raise Split(hd[1])
                return NotImplemented
            if hd[0] == 'APP':
                u = eng.St.unfold(st, hd)
                if u is None: return NotImplemented
                ch = flat(u + ch[1:]); continue
            return NotImplemented
        else: return NotImplemented
        gn = {g for g, _ in case.ghosts}
        for a, v in zip(pat.args, hd[2]):
            if isinstance(a, A.Name) and a.id in gn: env[a.id] = v
        newins = (sid, tuple(ch[1:]))
    else:
        # a case that havocs an input only applies to an unknown input (unless it says that it forgets a known one)
        for l, src in case.modifies if not opt(con, case, "forget-input") else ():
            if l[0] == 'call' and l[1] == 'input':
                m = resolve(eng, st, l, env, old)
                ch = st.ins.get(m[1])
                if ch is not None:
                    ch = flat(list(ch))
                    if not ch or ch[0][0] != 'U': return NotImplemented
    if case.input is None and case.ghosts:
        for g, t in case.ghosts: env[g] = ghostval(eng, st, g, t)
    for n, c in case.lets: env[n] = ev(eng, st, c, env, old)
    for lab, c, src in case.when:
        v = ev(eng, st, c, env, old)
        if not st.valid(v, full=True): return NotImplemented
    eng.locks.needs(eng, st, con, case)
    for lab, c, src in case.requires:
        v = ev(eng, st, c, env, old)
        eng.oblige(st, v, f'pre:{con.name}:{lab}', src)
        st.fact(v)
    if case.measure is not None and eng.measure0 is not None:      # a bound on the depth of the recursion
        v = ev(eng, st, case.measure[0], env, old)
        eng.oblige(st, and_(le(0, v), lt(v, eng.measure0)), f'measure:{con.name}', 'the recursion measure %s does not decrease' % case.measure[1])
    rets = [None if r is None else ev(eng, st, r[0], env, old) for r in case.returns] if case.returns is not None else None
    sets = [(resolve(eng, st, l, env, old), ev(eng, st, c, env, old)) for l, c, _ in case.sets if not names_result(c)]
    late = [(resolve(eng, st, l, env, old), c) for l, c, _ in case.sets if names_result(c)]      # ghosts naming a result
    if any(l[0] != 'ghost' for l, _ in late): raise Unsupported('sets from a result')
    mods = [resolve(eng, st, l, env, old) for l, _ in case.modifies]
    ems = [(ev(eng, st, w, env, old), ev(eng, st, c, env, old)) for w, c, _ in case.emits]
    evs = None
    if case.eventsas is not None: evs = ev(eng, st, case.eventsas[0], env, old)
    elif case.events and not opt(con, case, 'events-post'): evs = ev(eng, st, case.events[0], env, old)
    if mods or case.ensures or rets is None or any(r is None for r in rets): st.cnt += 1000     # the callee may allocate
    quiet = eng.lockquiet; eng.lockquiet = True       # the callee answers for its own accesses
    for m in mods: havoc(eng, st, m)
    for l, v in sets:
        if l[0] == 'ptr': st.store(l[1], v, l[1].et)
        elif l[0] == 'ghost': st.ghost[l[1]] = v
        elif l[0] == 'map': eng.mapset(st, l[1], l[2], v)
        else: raise Unsupported('sets target')
    eng.lockquiet = quiet
    okmap = {}
    for wv, ch in ems:
        sid = lib.sid_writer(eng, st, wv)
        lib.emit(st, sid, ch)
        rel = lib.reliable(eng, st, wv)
        if rel is not True:
            okc = fresh('ok', BOOL); st.fact(implies(rel, okc)); okmap[sid] = and_(okmap.get(sid, True), okc)
            st.ghost['ok:' + sid] = and_(st.ghost.get('ok:' + sid, True), okc)
    if newins: st.ins[newins[0]] = newins[1]
    rts = resulttypes(eng, con)
    rv = []
    for n, t in enumerate(rts):
        v = rets[n] if rets is not None and n < len(rets) else None
        if v is None:
            import loops
            v = loops.freshval(eng, st, t, 'r_' + con.name.split('.')[-1], st.cnt)
        rv.append(adapt(eng, v, t, st))
    env2 = dict(env); bindres(env2, rv)
    SP.CTX.okmap = okmap; was = getattr(SP.CTX, 'assuming', False); SP.CTX.assuming = True
    first = st.ghost.get('$first')
    x = fresh('first', INT)
    st.fact(and_(le(old.ghost.get('$now', z3.Int('now!entry')), x), le(x, lib.nowterm(st)))); st.ghost['$first'] = x      # the callee's own first clock reading
    try:
        for lab, c, src in case.ensures:
            v = ev(eng, st, c, env2, old)
            st.fact(v)
        for a, c, src in case.defines: st.fact(ev(eng, st, a, env2, old))
    finally:
        SP.CTX.okmap = None; SP.CTX.assuming = was
        if first is None: st.ghost.pop('$first', None)
        else: st.ghost['$first'] = first
    for l, c in late: st.ghost[l[1]] = ev(eng, st, c, env2, old)
    if con.opts.get('remember') or case.opts.get('remember'): st.ghost[opt(con, case, 'remember')] = rv[0]
    if evs is None and case.events: evs = ev(eng, st, case.events[0], env2, old)
    if evs is not None: lib.emit(st, '$ev', evs)
    return rv[0] if len(rv) == 1 else TupV(rv) if rv else None

def reachapps(eng, st, c, depth=0):
    out = set()
    if c[0] == 'COND':
        for x in list(c[2][:1]) + list(c[3][:1]): out |= reachapps(eng, st, x, depth + 1)
    elif c[0] == 'APP': out.add(c[1])
    return out
def names_result(c): return any(n.startswith('result') for n in c.co_names)
def adapt(eng, v, t, st=None):
    if v is SP.nil: return eng.w.zero(t)
    if isinstance(v, (BytesV, Cond2)) and st is not None:
        if isinstance(v, Cond2):
            d = st.decide(v.c)
            if d is None: raise Unsupported('conditional content')
            return adapt(eng, v.a if d else v.b, t, st)
        sl = st.newslice('uint8', None, sub(v.hi, v.lo))
        if isc(v.lo) and v.lo == 0: st.setrow(sl, v.row)
        else: sl = SliceV('uint8', sl.b, v.lo, sl.l, sl.l); st.setrow(sl, v.row)
        return sl if eng.w.lkind(t) == 'slice' else eng.bytes2str(st, sl)
    if eng.w.lkind(t) == 'iface' and not isinstance(v, IfV):
        if isinstance(v, PtrV): return IfV(tn='*' + v.et, v=v)
    return v

def bindres(env, rv):
    for n, v in enumerate(rv): env['result%d' % n] = v
    if rv: env['result'] = rv[0]

def resulttypes(eng, con):
    fn = eng.p.fns.get(con.fname)
    if fn is not None: return fn.results
    t = con.opts.get('results') or ('none' if con.opts.get('funcspec') else None)
    if t: return [] if t == 'none' else [x.strip() for x in t.split(';')]
    # interface method
    i, m = con.fname.rsplit('.', 1)
    for mm, fns in ((x, eng.p.methods[x]) for x in eng.p.methods):
        if m in fns and eng.p.types.get(i) and eng.p.implements(mm, i): return eng.p.fns[fns[m]].results
    raise Unsupported('result types of ' + con.name)

def resolve(eng, st, l, env, old):
    if l[0] == 'field':
        o = ev(eng, st, l[1], env, old)
        sv = (SP.CTX.eng, SP.CTX.st); SP.CTX.eng = eng; SP.CTX.st = st
        try: return ('ptr', SP.lval(o, l[2]))
        finally: SP.CTX.eng, SP.CTX.st = sv
    if l[0] == 'call':
        args = [ev(eng, st, a, env, old) for a in l[2]]
        if l[1] == 'elems': return ('row', args[0])
        if l[1] == 'all': return ('all', args[0].decode())
        if l[1] == 'others': return ('others', tuple(a.decode() for a in args))
        if l[1] == 'deref': return ('ptr', args[0])
        if l[1] == 'ghost': return ('ghost', args[0].decode())
        if l[1] == 'input': return ('input', lib.sid_reader(eng, st, args[0]))
        if l[1] == 'output': return ('output', lib.sid_writer(eng, st, args[0]))
        if l[1] == 'list': return ('list', args[0])
        if l[1] in ('linked', 'slist'): return ('obj', {'linked': 'gods.linked', 'slist': 'gods.list'}[l[1]], args[0])
        if l[1] == 'chan': return ('chan', args[0])
        if l[1] == 'mapof': return ('mapall', args[0])
        if l[1] == 'entry': return ('map', args[0], args[1])
        if l[1] == 'glob':
            n = args[0].decode(); t = eng.p.globals[n]
            return ('ptr', PtrV(t, 0, root='@' + n))
    raise Unsupported('lvalue')

def stackwrites(st, a):
    x = a.ws; out = {}
    while x:
        if isinstance(x[0], int) and x[0] in st.stk: out.setdefault(x[0], x[1])
        x = x[2]
    return out.items()
def havoc(eng, st, m):
    import loops
    if m[0] == 'ptr': st.store(m[1], loops.freshval(eng, st, m[1].et, 'h', st.cnt), m[1].et)
    elif m[0] == 'row':
        for p, t in st.leafpaths(m[1].et): st.setrow(m[1], eng.fresharr(('h', p), t, 1, st.cnt), p, t)
    elif m[0] == 'all':
        touch(eng, st, m[1])
        for key in set(st.mem) | set(eng.bases):
            if allkey(m[1], key):
                a = st.peek(key)
                st.mem[key] = eng.fresharr(key, a.et, a.dims, st.cnt)
                st.wlog = ((key, None), st.wlog)
    elif m[0] == 'others':
        from state import keeps
        for key in set(st.mem) | set(eng.bases):
            if key[0] in ('$iter',) or keeps(m[1], key): continue
            a = st.peek(key)
            b = eng.fresharr(key, a.et, a.dims, st.cnt)
            for x in stackwrites(st, a): b = b.write(st, [x[0]], x[1])
            st.mem[key] = b
            st.wlog = ((key, None), st.wlog)
        import loops
        st.gens += ((loops.nextn(), st.cnt, m[1]),)
        st.wlog = ((('*others', m[1]), None), st.wlog)
    elif m[0] == 'ghost': st.ghost[m[1]] = eng.ghost_havoc(st, m[1])
    elif m[0] == 'input': 
        import loops as L_
        st.ins[m[1]] = (U('%s!%d' % (m[1], L_.nextn())),)
    elif m[0] == 'output':
        import loops as L_
        st.outs[m[1]] = (U('%s!%d' % (m[1], L_.nextn())),)
    elif m[0] == 'chan':
        for f in ('n', 'pos'): st.store(PtrV('int', m[1].ref, '$chan', (f,)), fresh('ch' + f, INT), 'int')
    elif m[0] == 'obj':
        import models3
        models3.havocobj(eng, st, m[1], m[2].ref)
    elif m[0] == 'list':
        import models2 as M2
        own0 = st.comp((M2.EL, ('own',)), 'int', 1).comps(eng.w)[0]; pos0 = st.comp((M2.EL, ('pos',)), 'int', 1).comps(eng.w)[0]
        for f in ('lo', 'n'): M2.lset(st, m[1], f, fresh('l' + f, INT))
        for key in ((M2.EL, ('pos',)), (M2.EL, ('own',))):
            a = st.comp(key, 'int', 1); st.mem[key] = eng.fresharr(key, 'int', 1, st.cnt); st.wlog = ((key, None), st.wlog)
            eng.listhv[id(st.wlog)] = (st.wlog, m[1].ref)
        own1 = st.mem[(M2.EL, ('own',))].base[0]; pos1 = st.mem[(M2.EL, ('pos',))].base[0]
        x = z3.Int('x!hv'); lr = zi(m[1].ref)      # elements of other lists are left alone
        st.fact(z3.ForAll([x], z3.Implies(z3.And(x >= -st.cnt + 1000, own0[x] != lr), z3.And(own1[x] == own0[x], pos1[x] == pos0[x])), patterns=[own1[x]]))
        key = (M2.L, ('e',)); a = st.comp(key, 'int', 2)
        st.mem[key] = a.write(st, [m[1].ref], eng.fresharr(key, 'int', 1, st.cnt)); st.wlog = ((key, (m[1].ref,)), st.wlog)
    elif m[0] == 'mapall':
        mv = m[1]; kt, et = eng.mt(mv)
        for nm, t in [('dom', 'bool'), ('len', 'int')] + [('val', None)]:
            if nm == 'val':
                for p, t2 in st.leafpaths(et):
                    key = ('map ' + mv.tn, ('val',) + p)
                    a = st.comp(key, t2, 2)
                    st.mem[key] = a.write(st, [mv.ref], eng.fresharr(key, t2, 1, st.cnt)); st.wlog = ((key, (mv.ref,)), st.wlog)
            elif nm == 'dom':
                key = ('map ' + mv.tn, ('dom',)); a = st.comp(key, 'bool', 2)
                st.mem[key] = a.write(st, [mv.ref], eng.fresharr(key, 'bool', 1, st.cnt)); st.wlog = ((key, (mv.ref,)), st.wlog)
            else:
                key = ('map ' + mv.tn, ('len',)); a = st.comp(key, 'int', 1)
                l = fresh('maplen', INT); st.fact(and_(le(0, l), le(l, BIG)))
                st.mem[key] = a.write(st, [mv.ref], l); st.wlog = ((key, (mv.ref,)), st.wlog)
    elif m[0] == 'map':
        mv = m[1]; kt, et = eng.mt(mv)
        eng.mapset(st, mv, m[2], loops.freshval(eng, st, et, 'h', st.cnt))
        ki = eng.mkey(st, m[2], kt)
        here = fresh('has', z3.BoolSort())
        n = fresh('maplen', INT); full = eng.maplen(st, mv)
        st.fact(zi(n) == z3.If(here, zi(full), zi(full) - 1)); st.fact(n >= 0)
        for nm, val, t, idx in (('dom', here, 'bool', [mv.ref, ki]), ('len', n, 'int', [mv.ref])):
            key = ('map ' + mv.tn, (nm,))
            st.mem[key] = st.comp(key, t, len(idx)).write(st, idx, val); st.wlog = ((key, tuple(idx)), st.wlog)
    else: raise Unsupported('havoc ' + m[0])

def allkey(spec, key):
    if '.' in spec and not spec.startswith(('map ', '[]')):
        # type or type.field
        if key[0] == spec: return True
        t, _, f = spec.rpartition('.')
        return key[0] == t and key[1] and key[1][0] == f
    return key[0] == spec
def touch(eng, st, spec):
    """create the memory components a modifies clause all(..) names: one first read later would otherwise show the old value"""
    def leaves(t, path):
        for fd in eng.w.p.fields(t):
            k = eng.w.lkind(fd['t'])
            if k == 'struct': yield from leaves(fd['t'], path + (fd['name'],))
            elif k == 'array': yield path + (fd['name'], '[]'), eng.w.p.elem(fd['t']), 2
            else: yield path + (fd['name'],), fd['t'], 1
    t, _, f = spec.rpartition('.')
    if spec in eng.w.p.types and eng.w.lkind(spec) == 'struct': ls = [x for x in leaves(spec, ())]; root = spec
    elif t in eng.w.p.types and eng.w.lkind(t) == 'struct': ls = [x for x in leaves(t, ()) if x[0][0] == f]; root = t
    else: raise Unsupported('all(%s)' % spec)
    if not ls: raise Unsupported('all(%s)' % spec)
    for p, lt_, d in ls: st.comp((root, p), lt_, d)

def ghostval(eng, st, g, t):
    if t == 'real': return fresh('g_' + g, REAL)
    if t == 'nat':
        v = fresh('g_' + g, INT); st.fact(v >= 0); return v
    if t == 'bytes':
        row = SArr('uint8', 1, [fresh('g_' + g, z3.ArraySort(INT, INT))])
        n = fresh('g_%s_len' % g, INT); st.fact(and_(le(0, n), lt(n, 1 << 31)))
        return BytesV(row, 0, n)
    if t == 'stream': return Ch([('U', 'g_' + g)])
    if t == 'mathint': return fresh('g_' + g, INT)
    if t.startswith('fn '):     # ghost function  fn int int -> int
        return fresh('g_' + g, z3.ArraySort(INT, INT))
    if t.startswith('tree'): return fresh('g_' + g, lib.VT)
    import loops
    v = loops.freshval(eng, st, t, 'g_' + g, 0)
    return v

# ------------------------------------------------------------ bodies
class Result:
    def __init__(s): s.obl = []; s.err = None; s.paths = 0; s.t = 0; s.q = 0; s.solver = 0; s.notes = []; s.inlined = set(); s.models = set(); s.contracts = set(); s.loops = []

def mkengine(prog, specs, con=None, case=None):
    core_reset()
    import locks as LK
    eng = E.Engine(prog, {})
    eng.specs = specs
    for n, c in specs.contracts.items():
        c.apply = (lambda c: lambda e, st, args: apply(c, e, st, args))(c)
    eng.contracts = dict(specs.contracts)
    eng.ghosttypes = {}
    for n, c in specs.contracts.items():
        for o in [c.opts] + [q.opts for q in c.cases]:
            for g in (o.get('ghosttype') or '').split(';') if o.get('ghosttype') else ():
                k, _, t = g.strip().partition(' '); eng.ghosttypes[k] = t.strip()
            if o.get('remember') and c.fname in prog.fns and prog.fns[c.fname].results: eng.ghosttypes[o['remember']] = prog.fns[c.fname].results[0]
    eng.unfold_spec = lambda st, c: unfold(eng, st, c)
    eng.argseq = lambda st, a, b: argseq(eng, st, a, b)
    import locks as LK
    eng.modelfns['$dyn'] = dyncall
    eng.locks = LK; eng.guards = []; eng.lockquiet = False; eng.onwrite = LK.onwrite
    eng.eveq = lambda st, a, b: lib.eveq(eng, st, a, b)
    eng.St.specs = specs.fns
    eng.invnames = lambda st, fn, h: {}
    eng.ghost_havoc = lambda st, k: lib.ghost_havoc(eng, st, k)
    return eng

def core_reset():
    import core
    core._n[0] = 0

def verify(prog, specs, con, case, budget=120, progress=None):
    res = Result(); t0 = time.time()
    eng = mkengine(prog, specs, con, case)
    eng.ctxname = con.name + (':' + case.name if case.name != 'main' else '')
    eng.deadline = t0 + budget
    res.eng = eng
    try:
        verify0(eng, prog, specs, con, case, res)
    except Unsupported as e:
        res.err = 'unsupported: ' + str(e)
    except RecursionError as e:
        res.err = 'unsupported: recursion'
    except z3.Z3Exception as e:
        if os.environ.get('GOVTRACE'):
            import traceback; traceback.print_exc()
        res.err = 'unsupported: z3 ' + str(e)[:200]
    except (AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError) as e:
        import traceback
        if os.environ.get('GOVTRACE'): traceback.print_exc()
        res.err = 'engine: %s %s at %s' % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().split('\n')[-3].strip()[:160])
    res.obl = eng.obl; res.paths = eng.npaths; res.t = time.time() - t0
    res.q = eng.stats['queries']; res.solver = eng.stats['time']; res.notes = eng.notes; res.cvc5 = eng.stats.get('cvc5', 0)
    res.inlined = eng.inlined; res.models = eng.used_models; res.contracts = eng.used_contracts
    res.loops = eng.cache.get('loops', [])
    if res.err: res.obl.append(dict(name='within-subset', ok=False, why=res.err, fn=eng.ctxname, pos=''))
    return res

def meets(eng, st, fv, name):
    """verify the body of a known function against a function specification"""
    import core, copy
    if isinstance(eng.oldst, State) and fv.name == getattr(eng, 'meetself', None): return True
    c = eng.p.__dict__.setdefault('_meets', {})
    key = (fv.name, name)
    if key not in c:
        con = copy.copy(eng.specs.funcspecs[name]); con.name = con.fname = fv.name; con.opts = {k: v for k, v in con.opts.items() if k not in ('trusted', 'funcspec')}
        n0 = core._n[0]; cur = eng.w.cur; ctx = (SP.CTX.st, SP.CTX.eng, SP.CTX.old, SP.CTX.okmap, SP.CTX.outer)
        SP.CTX.st = SP.CTX.eng = SP.CTX.old = SP.CTX.okmap = SP.CTX.outer = None
        rs = []
        try:
            for case in con.cases: rs.append(verify(eng.p, eng.specs, con, case, budget=60))
        finally:
            core._n[0] = n0; eng.w.cur = cur
            SP.CTX.st, SP.CTX.eng, SP.CTX.old, SP.CTX.okmap, SP.CTX.outer = ctx
        c[key] = [o for r in rs for o in r.obl]
        for o in c[key]: o.pop('state', None)
    bad = [o for o in c[key] if not o['ok']]
    for o in c[key]: eng.record(st, o['ok'], 'meets:%s:%s' % (name, o['name']), '%s: %s' % (o.get('fn'), o.get('why')))
    return not bad
def dyncall(eng, st, fv, args, sig):
    """call of an unknown function value: through a function specification it is known to satisfy"""
    ps = [(n, c, z3.Function('meets_' + n, INT, BOOL)(zi(fv.ref))) for n, c in eng.specs.funcspecs.items()]
    for full in (False, True):
      for name, con, p in ps:
        if st.valid(p, full=full):
            eng.used_contracts.add(name)
            r = apply(con, eng, st, args)
            if r is NotImplemented: raise Unsupported('no case of %s applies' % name)
            return r
    h = lib.MODELS.get('$dyn0')
    if h is not None: return h(eng, st, fv, args, sig)
    raise Unsupported('call of unknown function value')

def opt(con, case, k, d=None): return case.opts.get(k, con.opts.get(k, d))

def verify0(eng, prog, specs, con, case, res):
    fn = prog.fns.get(con.fname)
    if fn is None or not fn.blocks:
        raise Unsupported('function %s does not exist' % con.name)
    eng.noinline_self = con.fname
    eng.panicmode = opt(con, case, 'panics', 'oblige')
    eng.curopts = dict(con.opts); eng.curopts.update(case.opts)
    eng.locks.install(eng, con)
    eng.evinv = case.evinv; eng.strinv = case.strinv
    st = State(eng); eng.w.cur = st
    import loops
    args = []
    for p in fn.params:
        args.append(loops.freshval(eng, st, p['t'], p['name'] or 'p', 0))
    if len(con.params) != len(args): raise Unsupported(f'{con.name} has {len(args)} parameters, contract has {len(con.params)}')
    lib.setup(eng, st, con, case)
    env = case_env(eng, con, args, {})
    for g, t in case.ghosts: env[g] = ghostval(eng, st, g, t)
    eng.env0 = env
    eng.oldst = st
    SP.CTX.old = st
    for n, c in case.lets: env[n] = ev(eng, st, c, env, st)
    for lab, c, src in case.when + case.requires + case.assumes:
        assume(eng, st, c, env)
    for lab, c, src in case.assumes: eng.notes.append('assumed about the arguments of %s (not checked at its callers): %s' % (con.name, src))
    if case.input is not None:
        rd = ev(eng, st, case.input[0], env, st)
        sid = lib.sid_reader(eng, st, rd)
        pat = ev(eng, st, case.input[1], env, st)
        st.ins[sid] = tuple(list(pat)) + (U('REST'),)
    eng.measure0 = ev(eng, st, case.measure[0], env, st) if case.measure is not None else None
    # vacuity: the precondition must be satisfiable
    r = st.sat(full=True, timeout=1500)
    eng.locks.pre(eng, st, con)
    eng.record(st, r is not False, 'cover:precondition-satisfiable', 'precondition is contradictory')
    eng.iters = case.iters; eng.iterdone = False; eng.itermarks = []
    eng.invs = case.inv; eng.suminvs = case.suminv; eng.eachinvs = case.eachinv
    ini = st.fork(); eng.oldst = ini; SP.CTX.old = ini
    ts = []
    for x in list(args) + list(env.values()):
        if isz(x) or isinstance(x, (PtrV, SliceV, MapV, ChanV, FuncV, IfV, StructV, ArrV, TupV, ExtV, BytesV)): eng.St.terms(x, ts)
    for x in ts: eng.entrynames |= {n for n in consts(x) if not n.startswith('f:')}
    bind = tuple(loops.freshval(eng, st, v['t'], v['name'] or 'fv', 0) for v in fn.freevars) if fn.freevars else ()
    eng.push(st, fn, args, bind, None)
    rets, panics = eng.explore(st, 1)
    for p in panics:
        s2, v = p
        if s2.sat() is not False: eng.locks.atexit(eng, s2)
        if eng.panicmode != 'oblige' and not opt(con, case, 'mayfail'):
            eng.record(s2, s2.sat(full=True) is False, 'no-panic:escapes', f'panic reaches the caller: {v}')
    if opt(con, case, 'streams-off') and case.emits: raise Unsupported('streams-off contract with an emits clause')
    if opt(con, case, 'nowait'):
        import faults
        bad, seen = faults.waits(prog, con.fname)
        eng.record(st, not bad, 'no-blocking:%d functions' % len(seen), 'may wait: ' + '; '.join('%s: %s' % x for x in bad))
    if case.iters and not eng.iterdone: eng.record(st, False, 'iteration:missing', 'no loop changes the ghosts of the iteration clauses')
    live = 0
    for s2, vs in rets:
        if s2.sat() is False: continue
        if not live and s2.hasq() and s2.sat(full=True, timeout=1500) is False: continue
        live += 1
        eng.locks.atexit(eng, s2)
        check_return(eng, con, case, env, ini, s2, vs, fn)
    eng.record(st, live > 0, 'cover:returns', 'no feasible path returns')

def assume(eng, st, c, env):
    SP.CTX.lastfk = None
    was = getattr(SP.CTX, 'assuming', False); SP.CTX.assuming = True
    try: v = ev(eng, st, c, env, st)
    finally: SP.CTX.assuming = was
    st.fact(v)
    q = SP.CTX.lastfk
    if q is not None and isz(v) and q[0].eq(v):     # instantiated where the map is enumerated
        key = 'fk ' + str(q[1].ref)
        st.ghost[key] = st.ghost.get(key, ()) + ((q[2], q[3]),)

def check_return(eng, con, case, env, ini, st, vs, fn):
    eng.w.cur = st
    st0 = st
    env2 = dict(env); bindres(env2, vs)
    # pre-state view that knows everything learned on the path
    old = ini.fork(); old.node = st.node; old.tf = set(st.tf)
    if case.returns is not None:
        for n, r in enumerate(case.returns):
            if r is None: continue
            want = ev(eng, old, r[0], env, old)
            want = adapt(eng, want, fn.results[n])
            st.node = longer(st.node, old.node)
            import loops
            sv = (SP.CTX.eng, SP.CTX.st); SP.CTX.eng = eng; SP.CTX.st = st
            try: c = same_result(eng, st, old, vs[n], want, fn.results[n])
            finally: SP.CTX.eng, SP.CTX.st = sv
            eng.oblige(st, c, f'result{n}', f'result {vs[n]} is not {r[1]}')
    for lab, c, src in case.ensures:
        v = ev(eng, st, c, env2, old)
        eng.oblige(st, v, f'ensures:{lab}', src)
    for gm, hn in eng.itermarks:
        n = st0.node
        while n is not None and n is not hn: n = n.up
        if n is None: continue
        o = gm.fork(); o.node = st.node; o.tf = set(st.tf)
        for kind, lab, c, src in case.iters:
            if kind == 'finish': eng.oblige(st, ev(eng, st, c, env2, o), f'finish:{lab}', src)
    for a, c, src in case.defines:
        eng.oblige(st, ev(eng, st, c, env2, old), 'defines', src)
    for l, c, src in case.sets:
        if '"!' in src: continue       # definitional ghost: a name for a value of this call
        want = ev(eng, old, c, env, old); st.node = longer(st.node, old.node)
        tgt = resolve(eng, old, l, env, old)
        st.node = longer(st.node, old.node)
        if tgt[0] == 'ptr':
            got = st.load(tgt[1], tgt[1].et); t = tgt[1].et
        elif tgt[0] == 'ghost': got = st.ghost.get(tgt[1]); t = None
        else: raise Unsupported('sets')
        sv = (SP.CTX.eng, SP.CTX.st); SP.CTX.eng = eng; SP.CTX.st = st
        try: v = SP._eq(got, want if want is not SP.nil else SP.nil)
        finally: SP.CTX.eng, SP.CTX.st = sv
        eng.oblige(st, v, f'sets:{src}', f'{src} = {got}, expected {want}')
    seen = set()
    soff = opt(con, case, 'streams-off')
    if not soff or case.events is not None:
        want = {}
        for w, c, src in case.emits:
            wv = ev(eng, old, w, env, old)
            sid = lib.sid_writer(eng, old, wv)
            ch = ev(eng, old, c, env2, old) if not opt(con, case, 'emits-post') else ev(eng, st, c, env2, old)
            want.setdefault(sid, []); want[sid] += list(ch)
            st.node = longer(st.node, old.node)
        if case.events is not None:
            want['$ev'] = list(ev(eng, st if opt(con, case, 'events-post') else old, case.events[0], env2, old))
            st.node = longer(st.node, old.node)
        modout = set()
        for l, src in case.modifies:
            if l[0] == 'call' and l[1] == 'output': modout.add(resolve(eng, old, l, env, old)[1])
        for sid in set(want) | set(st.outs):
            if sid == '$ev' and case.events is None and opt(con, case, 'events-off'): continue
            if sid in modout or (soff and sid != '$ev'): continue
            if sid.startswith('buf:-'): continue        # allocated by the callee
            got = list(st.outs.get(sid, (U(sid + '0'),)))
            exp = list(ini.outs.get(sid, (U(sid + '0'),))) + want.get(sid, [])
            s2 = st.fork(); eng.w.cur = s2
            ok = st.ghost.get('ok:' + sid, True)
            s2.fact(ok)
            e = Eq(eng.St)
            r = e.decide(s2, got, exp)
            if not r and sid == '$ev' and opt(con, case, 'events-any-order'):
                # the events concern different objects: they may come in any order
                n0 = len(list(ini.outs.get(sid, (0,))))
                if len(got) - n0 <= 5:
                    for p in itertools.permutations(got[n0:]):
                        s3 = st.fork(); eng.w.cur = s3; s3.fact(ok)
                        if Eq(eng.St).decide(s3, got[:n0] + list(p), exp): r = True; break
            eng.record(st, r, 'emits' if sid != '$ev' else 'events', '' if r else f'{e.why}; emitted {show(got)[:600]}; expected {show(exp)[:600]}')
        if case.input is not None and not soff:
            rd = ev(eng, old, case.input[0], env, old)
            sid = lib.sid_reader(eng, old, rd)
            e = Eq(eng.St); s2 = st.fork(); eng.w.cur = s2
            r = e.decide(s2, list(st.ins[sid]), [U('REST')])
            eng.record(st, r, 'consumes', '' if r else f'{e.why}; left {show(st.ins[sid])[:400]}')
    if not opt(con, case, 'frame-off'): frame(eng, con, case, env, ini, old, st)

def longer(a, b): return a if a.d >= b.d else b

def same_result(eng, st, old, got, want, t):
    import loops
    k = eng.w.lkind(t)
    if isinstance(want, (BytesV, Cond2)):
        if isinstance(got, SliceV): got = BytesV(st.row(got), got.o, add(got.o, got.l))
        elif isinstance(got, bytes) or isz(got): got = SP.content(got)
        e = Eq(eng.St)
        A = SP.RAW(got); B = SP.RAW(want)
        la, lb = SP.blength(got), SP.blength(want)
        if isinstance(want, BytesV) and isinstance(want.row, lib.ChunkRow) and want.lo == 0 and e.decide(st.fork(), list(A), list(want.row.chunks)): return True      # equal streams are equally long
        e = Eq(eng.St)
        if not st.valid(simp(zi(la) == zi(lb))): return simp(zi(la) == zi(lb))
        return e.decide(st.fork(), list(A), list(B))
    if k == 'ptr' and isinstance(got, PtrV) and isinstance(want, PtrV): return SP.ptreq(got, want) if (got.path or want.path) else eng.w.eq(got.ref, want.ref, 'int')
    if k == 'slice' and isinstance(want, SliceV): return loops.vequal(eng, st, got, want, t)
    return SP._eq(got, want)

def frame(eng, con, case, env, ini, old, st):
    from state import keeps
    ents = {}; lists = {}
    x = st.wlog
    while x:
        key, idxs = x[0]; hv = eng.listhv.get(id(x)); x = x[1]
        if key[0].startswith('$') and key[0] != '$chan': continue
        if hv is not None:      # havoc of one list's elements by a callee: what it may change is exactly that list
            lists.setdefault(str(hv[1]), []).append((key, idxs, hv[1])); continue
        ents.setdefault((key, str(idxs)), (key, idxs))
    if not ents and not lists: return
    allowed = []
    for l, _, src in case.sets: allowed.append(resolve(eng, old, l, env, old))
    for l, src in case.modifies: allowed.append(resolve(eng, old, l, env, old))
    st.node = longer(st.node, old.node)
    for es in lists.values():
        if any(a[0] == 'list' and st.valid(eng.w.eq(es[0][2], a[1].ref, 'int'), 800) for a in allowed): continue
        for key, idxs, _ in es: ents.setdefault((key, str(idxs)), (key, idxs))
    def ok(key, idxs):
        for a in allowed:
            if a[0] == 'all' and allkey(a[1], key): return True
            if a[0] == 'others' and (set(a[1]) <= set(key[1]) if key[0] == '*others' else not keeps(a[1], key)): return True
            if a[0] == 'ptr':
                root, path, ix = st._addr(a[1], a[1].et)
                if key[0] == root and tuple(key[1][:len(path)]) == tuple(path) and idxs is not None and len(ix) <= len(idxs):
                    if all(st.cmpidx(p, q) is True or st.valid(simp(zi(p) == zi(q)), 800) for p, q in zip(ix, idxs)): return True
            if a[0] == 'row' and key[0] == '[]' + a[1].et and idxs is not None:
                if st.valid(eng.w.eq(idxs[0], a[1].b, 'int'), 800): return True
            if a[0] == 'chan' and key[0] == '$chan' and key[1] != ('cap',) and idxs is not None and st.valid(eng.w.eq(idxs[0], a[1].ref, 'int'), 800): return True
            if a[0] == 'obj' and key[0] == a[1] and idxs is not None and st.valid(eng.w.eq(idxs[0], a[2].ref, 'int'), 800): return True
            if a[0] == 'list' and key[0] == 'container/list.Element' and key[1][0] in ('pos', 'own'):
                own0 = ini.comp((key[0], ('own',)), 'int', 1)
                if idxs is not None:
                    if st.valid(eng.w.eq(own0.read(st, idxs[0]), a[1].ref, 'int'), 800): return True
                else:
                    r = fresh('fr', INT); s2 = st.fork(); s2.fact(r >= 0); s2.isold(r)
                    s2.fact(not_(eng.w.eq(own0.read(s2, r), a[1].ref, 'int')))
                    a0 = ini.peek(key) if key in ini.mem or key in eng.bases else None
                    if s2.valid(vq(eng, s2, st.mem[key].read(s2, r), a0.read(s2, r), 'int'), full=True): return True
            if a[0] == 'list' and key[0] == 'container/list.List' and idxs is not None and st.valid(eng.w.eq(idxs[0], a[1].ref, 'int'), 800): return True
            if a[0] in ('mapall', 'map') and key[0] == 'map ' + a[1].tn and idxs is not None:
                if st.valid(eng.w.eq(idxs[0], a[1].ref, 'int'), 800): return True
        return False
    for key, idxs in ents.values():
        if idxs is not None and isinstance(idxs[0], int) and idxs[0] < 0 and not idxs[0] < -(1 << 49): continue
        if ok(key, idxs): continue
        if key[0] == '*others':
            eng.record(st, False, 'frame:others', 'the call may change more than the modifies clause allows'); continue
        a = st.mem[key]; a0 = ini.peek(key) if key in ini.mem or key in eng.bases else None
        if a0 is None: continue
        nm = 'frame:%s.%s' % (key[0], '.'.join(key[1]))
        if idxs is None:
            r = fresh('fr', INT); s2 = st.fork(); s2.fact(r >= 0); s2.isold(r)
            if a.dims == 1:
                good = s2.valid(vq(eng, s2, a.read(s2, r), a0.read(s2, r), a.et))
            else:
                r2 = fresh('fr', INT)
                good = s2.valid(vq(eng, s2, a.read(s2, r, r2), a0.read(s2, r, r2), a.et))
            eng.record(st, good, nm, 'memory outside the modifies clause may change')
            continue
        if isz(idxs[0]) and idxs[0].get_id() not in eng.old:
            if st.valid(simp(idxs[0] < 0), 500): continue
        if len(idxs) == a.dims:
            eng.oblige(st, vq(eng, st, a.read(st, *idxs), a0.read(st, *idxs), a.et), nm, 'not in the modifies clause')
        else:
            r, r0 = a, a0
            for i in idxs: r = r.row(st, i); r0 = r0.row(st, i)
            if r.same(r0): continue
            j = fresh('fr', INT)
            eng.oblige(st, vq(eng, st, r.read(st, j), r0.read(st, j), a.et), nm, 'not in the modifies clause')

def vq(eng, st, a, b, t):
    import loops
    return loops.vequal(eng, st, a, b, t)
