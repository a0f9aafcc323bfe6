"""Symbolic execution of SSA / verification condition generation."""
import z3, os, subprocess, tempfile, time, sys
from core import *
from state import *
from stream import *
import bv

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'idx', 'regs', 'defers', 'ret', 'unw', 'panic', 'isdef', 'recovered', 'tag')
    def __init__(s, fn, ret=None, isdef=False):
        s.fn, s.blk, s.prev, s.idx, s.regs, s.defers, s.ret = fn, 0, None, 0, {}, (), ret
        s.unw = False; s.panic = None; s.isdef = isdef; s.recovered = False; s.tag = None
    def copy(s):
        n = Frame.__new__(Frame)
        for a in Frame.__slots__: setattr(n, a, getattr(s, a))
        n.regs = dict(s.regs)
        return n

class LCtx:
    def __init__(s, depth, h, body): s.depth, s.h, s.body, s.backs, s.exits, s.undec = depth, h, body, [], [], False

class Abort(Exception): pass

class Engine:
    guards = (); lockquiet = False; curopts = {}; measure0 = None
    def __init__(s, prog, contracts=None):
        s.p = prog; s.w = World(prog)
        s.stats = {'queries': 0, 'time': 0.0}
        s.inc = Inc(s.stats); s.fullmode = False
        s.contracts = contracts or {}
        s.old = {}; s.cache = {}; s.applen = {}
        s.emptystr = zs(b'')
        s.St = Streams(s)
        s.obl = []; s.trial = 0
        s.bases = {}; s.genbases = {}; s.lctx = None; s.qfacts = {}; s.entrynames = set()
        s.raw = {}; s.litidx = {}
        s.panicmode = 'oblige'
        s.observe = {}; s.goevents = True
        s.iters = []; s.iterdone = False; s.itermarks = []; s.evinv = []; s.strinv = []; s.invs = []; s.suminvs = []; s.eachinvs = []; s.ifbirth = {}; s.keep = []              # loop invariant candidates from the contract
        s.cur = None
        s.maxpaths = 4000; s.npaths = 0
        s.deadline = None
        s.modelfns = {}
        s.constrows = {}; s.constrefs = {}
        s.notes = []
        s.ctxname = '?'
        s.inlined = set()
        s.noinline_self = None; s.privs = {}
        s.used_models = set(); s.used_contracts = set()
        s.opts = {}; s.implused = set(); s.used_cases = set(); s.listhv = {}; s.rels = {}
        import lib
        lib.install(s)
    # ------------------------------------------------ memory bases
    def base(s, key, et, dims):
        if key in s.bases: return s.bases[key]
        def srt(d, x): return x if d == 0 else z3.ArraySort(INT, srt(d - 1, x))
        nm = 'H0.%s.%s' % (key[0], '.'.join(key[1]))
        a = SArr(et, dims, [z3.Const(nm + ('' if i == 0 else '#%d' % i), srt(dims, x)) for i, x in enumerate(s.w.sorts(et))])
        s.bases[key] = a
        return a
    def fresharr(s, key, et, dims, birth):
        def srt(d, x): return x if d == 0 else z3.ArraySort(INT, srt(d - 1, x))
        nm = 'H.%s.%s' % (key[0], '.'.join(key[1]))
        return SArr(et, dims, [fresh(nm + ('' if i == 0 else '#%d' % i), srt(dims, x)) for i, x in enumerate(s.w.sorts(et))], birth=birth)
    def lib_alloc(s, st, p, t):
        import lib
        lib.alloc_ext(s, st, p, t)
    # ------------------------------------------------ obligations
    def oblige(s, st, cond, name, detail='', timeout=None):
        """record obligation `name`; returns True if proved"""
        if isinstance(cond, bool) and cond: ok, why = True, ''
        else:
            ok, why = s.prove(st, cond)
        s.obl.append(dict(name=name, ok=ok, why=why if ok else (detail + ' ' + why).strip(), fn=s.ctxname, pos=s.pos(st)))
        if not ok:
            s.obl[-1]['state'] = st
            if not s.trial: s.obl[-1]['model'] = s.counterexample(st, cond)
        return ok
    def counterexample(s, st, cond):
        """values of the scalar unknowns in a model of the failed obligation"""
        try:
            sol = z3.Solver(); sol.set('timeout', 3000); n = st.node
            while n is not None:
                if n.c is not None: sol.add(n.c)
                n = n.up
            sol.add(z3.Not(zb(cond)))
            if sol.check() != z3.sat: return None
            m = sol.model(); out = {}
            for d in m.decls():
                if d.arity() == 0 and d.range() in (INT, BOOL, REAL): out[d.name()] = str(m[d])
                if len(out) > 60: break
            return out
        except Exception: return None
    def record(s, st, ok, name, why=''):
        s.obl.append(dict(name=name, ok=ok, why=why, fn=s.ctxname, pos=s.pos(st)))
        if not ok: s.obl[-1]['state'] = st
        return ok
    def pos(s, st):
        if not st or not st.frames: return ''
        f = st.frames[-1]
        ln = f.fn.line
        b = f.fn.blocks[f.blk]['ins']
        for j in range(min(f.idx, len(b) - 1), -1, -1):
            if b[j].get('line'): ln = b[j]['line']; break
        return f'{f.fn.file}:{ln}'
    def goalform(s, c):
        """the formula to refute when c is to be proved: facts about the memory a quantified body reads become hypotheses in it"""
        if not isz(c) or not s.qfacts or not hasq(c): return c
        if z3.is_quantifier(c):
            if c.is_forall() and c.num_vars() == 1 and c.var_name(0) in s.qfacts:
                i, f = s.qfacts[c.var_name(0)]
                return z3.ForAll([i], z3.Implies(f, s.goalform(z3.substitute_vars(c.body(), i))))
            return c
        if z3.is_and(c): return z3.And(*[s.goalform(x) for x in c.children()])
        if z3.is_or(c): return z3.Or(*[s.goalform(x) for x in c.children()])
        if z3.is_implies(c): return z3.Implies(c.arg(0), s.goalform(c.arg(1)))
        return c
    def hypform(s, c):
        """a quantified formula that is assumed, together with the facts about the memory its body reads"""
        if s.qfacts and z3.is_quantifier(c) and c.is_forall() and c.num_vars() == 1 and c.var_name(0) in s.qfacts:
            i, f = s.qfacts[c.var_name(0)]
            b = z3.substitute_vars(c.body(), i)
            if z3.is_implies(b): return z3.ForAll([i], z3.Implies(b.arg(0), z3.And(b.arg(1), f)))
        return c
    def prove(s, st, cond):
        if isinstance(cond, bool) and not cond:
            r = st.sat(full=True)
            return (r is False), ('' if r is False else 'condition is false on a feasible path ' + s.cache.pop('streamwhy', ''))
        if isz(cond) and z3.is_and(cond) and hasq(cond):
            how = 'z3'
            for x in cond.children():
                r = s.prove(st, x)
                if not r[0]: return r
                if r[1] != 'z3': how = r[1]
            return True, how
        if isz(cond) and bv.wanted(cond):
            t0 = time.time(); r = bv.prove(s, st, cond); s.stats['queries'] += 1; s.stats['time'] += time.time() - t0
            if r is True: return True, 'z3 bit-vectors'
        if st.valid(cond, 3000, full=True): return True, 'z3'
        if s.unfoldvalid(st, cond): return True, 'z3'
        if s.trial:
            return False, 'trial'
        cond = s.goalform(cond)
        m = s.inc.check(st.node, z3.Not(cond), 3000, True)
        # fresh solver, then cvc5
        cs = []; n = st.node
        while n is not None:
            if n.c is not None: cs.append(n.c)
            n = n.up
        cs.reverse()
        t0 = time.time()
        if m is None:
            sol = z3.Solver(); sol.set('timeout', 8000); sol.add(*cs); sol.add(z3.Not(cond))
            r = sol.check(); s.stats['queries'] += 1; s.stats['time'] += time.time() - t0
            if r == z3.unsat: return True, 'z3'
            if r == z3.unknown:
                r2 = s.cvc5(sol.to_smt2())
                if r2 == 'unsat': return True, 'cvc5'
                return False, 'solver: unknown for ' + str(cond)[:300]
        if os.environ.get('CEX'):
            sol = z3.Solver(); sol.set('timeout', 8000); sol.add(*cs); sol.add(z3.Not(cond)); sol.check()
            with open(os.environ['CEX'], 'a') as fh: print('GOAL', cond.sexpr(), '\nFACTS', *[c.sexpr() for c in cs], '\nMODEL', sol.model() if sol.check() == z3.sat else '?', file=fh, sep='\n')
        return False, 'solver: counterexample exists for ' + str(cond)[:300]
    def unfoldvalid(s, st, cond):
        # lengths of specification functions: unfold them
        todo, seen, st0 = [cond], set(), st
        for depth in range(3):
            ap = []
            for x in todo:
                for t in subterms(x):
                    if t.get_id() in s.applen and t.get_id() not in seen: seen.add(t.get_id()); ap.append(s.applen[t.get_id()])
            if not ap: break
            if st is st0: st = st.fork(); s.w.cur = st
            todo = []
            for t, c in ap:
                u = s.St.unfold(st, c)
                if u is not None:
                    e = zi(s.St.blen(st, u)); st.fact(t == e); todo.append(e)
            if st.valid(cond, 3000, full=True): return True
        return False
    def cvc5(s, smt):
        s.stats['cvc5'] = s.stats.get('cvc5', 0) + 1
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + smt)
            r = subprocess.run(['cvc5', '--tlimit=8000', f.name], capture_output=True, text=True, timeout=20)
            return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
        except Exception as e: return 'unknown'
        finally:
            try: os.unlink(f.name)
            except Exception: pass
    # ------------------------------------------------ panics
    def panic_unless(s, st, ok, what):
        """returns list of states that continue normally; panicking successors go to s.extra"""
        if isinstance(ok, bool) and ok: return True
        if s.panicmode == 'oblige':
            s.oblige(st, ok, 'no-panic:' + what)
            st.fact(ok)
            return True
        if s.panicmode == 'assume':
            st.fact(ok); return True
        # fork
        d = st.decide(ok)
        if d is True: return True
        if d is None:
            st2 = st.fork(); st2.fact(not_(ok), True)
            s.startpanic(st2, what); s.extra.append(st2)
            st.fact(ok, True)
            return True
        s.startpanic(st, what)
        return False
    def startpanic(s, st, what):
        st.panicking = what
    # ------------------------------------------------ integers
    def rawof(s, v, n):
        if isz(v):
            r = s.raw.get(v.get_id())
            if r and r[2] >= n: return r[1]
        return v
    def wrap(s, st, raw, t):
        n, sg = s.p.intinfo(t)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        if isc(raw): return (raw - lo) % (1 << n) + lo
        if n == 64 and raw.get_id() in st.tf and False: return raw
        key = ('inr', raw.get_id(), n, sg)
        if key in st.rcache: return raw
        if st.valid(z3.And(raw >= lo, raw <= hi), 1500):
            st.rcache[key] = raw
            return raw
        if sg: w = simp((raw - lo) % (1 << n) + lo)
        else: w = simp(raw % (1 << n))
        if isz(w):
            s.raw[w.get_id()] = (w, raw, n)
            st.fact(z3.And(w >= lo, w <= hi))
        return w
    def umod(s, st, v, n):
        """v mod 2^n as an unsigned number"""
        if isc(v): return v % (1 << n)
        r = s.rawof(v, n)
        if isc(r): return r % (1 << n)
        if not r.eq(v): return simp(r % (1 << n))
        if st.valid(z3.And(v >= 0, v < (1 << n)), 1500): return v
        return simp(v % (1 << n))
    def signed(s, st, u, n):
        """signed reading of an n-bit unsigned value"""
        if isc(u): return u - (1 << n) if u >= 1 << (n - 1) else u
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(u.arg(1)) and u.arg(1).as_long() == 1 << n:
            v = u.arg(0)
            if st.valid(z3.And(v >= -(1 << (n - 1)), v < (1 << (n - 1))), 1500): return v
        if st.valid(u < (1 << (n - 1)), 1000): return u
        return simp(z3.If(u >= (1 << (n - 1)), u - (1 << n), u))
    def pow2(s, x):
        if isc(x) and x > 0 and x & (x - 1) == 0: return x.bit_length() - 1
        return None
    def multof(s, x, k):
        """is term x syntactically a multiple of 2^k"""
        if isc(x): return x % (1 << k) == 0
        if z3.is_mul(x): return any(z3.is_int_value(a) and a.as_long() % (1 << k) == 0 for a in x.children())
        if z3.is_add(x): return all(s.multof(a.as_long() if z3.is_int_value(a) else a, k) for a in x.children())
        return False
    def bitop(s, st, o, x, y, t):
        n, sg = s.p.intinfo(t)
        if isc(x) and isc(y):
            m = (1 << n) - 1; a, b = x & m, y & m
            r = {'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b & m}[o]
            return r - (1 << n) if sg and r >> (n - 1) else r
        if o == '&':
            for a, b in ((x, y), (y, x)):
                if isc(a) and a >= 0 and s.pow2(a + 1) is not None:
                    if a == 0: return 0
                    return s.umod(st, b, s.pow2(a + 1))
        if o == '&^' and isc(y) and y >= 0 and s.pow2(y + 1) is not None:
            return sub(x, s.umod(st, x, s.pow2(y + 1)))
        if o in ('|', '^', '+'):
            if isc(x) and x == 0: return y
            if isc(y) and y == 0: return x
            for a, b in ((x, y), (y, x)):
                for k in (8, 16, 24, 32, 40, 48, 56):
                    if k < n and s.multof(b, k) and st.valid(and_(le(0, a), lt(a, 1 << k)), 800):
                        return s.wrap(st, add(a, b), t)
        if o == '^':
            for a, b in ((x, y), (y, x)):
                if isc(b) and b & ((1 << n) - 1) == (1 << n) - 1: return sub(-1 if sg else (1 << n) - 1, a)
        v = bv.opf(o, n, sg)(zi(x), zi(y))
        st.typefacts(v, t)
        for a, b in ((x, y), (y, x)):
            if o == '&' and isc(a) and a >= 0: st.fact(z3.And(v >= 0, v <= a))
        return v
    def arith(s, st, o, x, y, t):
        n, sg = s.p.intinfo(t)
        if o in ('+', '-', '*'):
            a, b = s.rawof(x, n), s.rawof(y, n)
            r = add(a, b) if o == '+' else sub(a, b) if o == '-' else mul(a, b)
            return s.wrap(st, r, t)
        if o in ('&', '|', '^', '&^'): return s.bitop(st, o, x, y, t)
        if o == '<<':
            if isc(y): return 0 if y >= n else s.wrap(st, mul(s.rawof(x, n), 1 << y), t)
            return s.ufint(st, 'shl%d' % n, [x, y], t)
        if o == '>>':
            if isc(y):
                if y >= n: return 0 if not sg else (s.ite_int(lt(x, 0), -1, 0))
                return ediv(x, 1 << y)
            return s.ufint(st, 'shr%d' % n, [x, y], t)
        if o in ('/', '%'):
            if isc(x) and isc(y) and y != 0:
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return s.wrap(st, q, t) if o == '/' else x - q * y
            if (isc(x) and x >= 0 or st.valid(le(0, x), 1000)) and (isc(y) and y > 0 or st.valid(lt(0, y), 1000)):
                return ediv(x, y) if o == '/' else emod(x, y)
            ax, ay = s.ite_int(lt(x, 0), mul(-1, x), x), s.ite_int(lt(y, 0), mul(-1, y), y)
            q = ediv(ax, ay)
            q = s.ite_int(simp(zb(lt(x, 0)) != zb(lt(y, 0))), mul(-1, q), q)
            return s.wrap(st, q, t) if o == '/' else sub(x, mul(q, y))
        raise Unsupported('arith ' + o)
    def ite_int(s, c, a, b):
        if isinstance(c, bool): return a if c else b
        if same(a, b): return a
        return simp(z3.If(c, zi(a), zi(b)))
    def ufint(s, st, name, args, t):
        f = z3.Function('uf_' + name, *[INT] * len(args), INT)
        r = f(*[zi(a) for a in args])
        st.typefacts(r, t)
        return r
    # ------------------------------------------------ operands
    def val(s, st, o, f=None):
        if o is None: return None
        k = o['k']
        if k == 'r':
            f = f or st.frames[-1]
            return f.regs[o['n']]
        if k == 'c': return s.const(o)
        if k == 'g':
            return PtrV(s.p.elem(o['t']) if s.p.kind(o['t']) == 'ptr' else o['t'], 0, root='@' + o['n'])
        if k == 'f': return FuncV(name=o['n'], tn=o.get('t'))
        if k == 'b': return FuncV(name='builtin ' + o['n'])
        raise Unsupported('operand ' + k)
    def const(s, o):
        t = o['t']
        if o.get('zero') or o['v'] is None:
            return s.w.zero(t)
        v = o['v']
        if o.get('s'): 
            if s.w.lkind(t) == 'str': return bytes(v)
            raise Unsupported('string const of type ' + t)
        if isinstance(v, bool): return v
        k = s.w.lkind(t)
        if k == 'float':
            from fractions import Fraction
            f = Fraction(float(v)) if o.get('f') else Fraction(v)
            if o.get('f'):
                f = Fraction(v) if 'e' not in v and 'E' not in v and 'Inf' not in v else Fraction(float(v))
            return z3.RealVal(f'{f.numerator}/{f.denominator}')
        if o.get('i'): return int(v)
        raise Unsupported(f'const {o}')
    def opt(s, o):
        return o['t'] if o and 't' in o else None
    # ------------------------------------------------ control
    def goto(s, st, tgt, phivals=None):
        f = st.frames[-1]
        b = f.fn.blocks[tgt]
        vals = []; n = 0
        if b['ins'] and b['ins'][0]['op'] == 'phi':
            if phivals is None: pi = b['preds'].index(f.blk)
            for i in b['ins']:
                if i['op'] != 'phi': break
                n += 1
                vals.append((i['r'], phivals[i['r']] if phivals is not None else s.val(st, i['es'][pi])))
        for r, v in vals: f.regs[r] = v
        f.prev, f.blk, f.idx = f.blk, tgt, n
        return [st]
    def jump(s, st, tgt):
        f = st.frames[-1]
        L = s.lctx
        if L is not None and len(st.frames) == L.depth:
            if tgt == L.h: L.backs.append(st); return []
            if tgt not in L.body: L.exits.append((st, tgt)); return []
        loops = f.fn.loops()
        if tgt in loops and f.blk not in loops[tgt]: return s.enter_loop(st, tgt, loops[tgt])
        if tgt in loops and f.blk in loops[tgt]:
            raise Unsupported('back edge outside loop context')
        return s.goto(st, tgt)
    def explore(s, st0, depth):
        """run until the frame at `depth` returns; returns (rets, panics)"""
        rets, panics = [], []
        work = [st0]
        while work:
            st = work.pop()
            if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exceeded')
            s.w.cur = st
            r = s.step(st, depth)
            for x in reversed(r):
                if x[0] == 'go': work.append(x[1])
                elif x[0] == 'ret':
                    s.npaths += 1
                    if s.npaths > s.maxpaths: raise Unsupported('too many paths')
                    rets.append(x[1:])
                else: panics.append(x[1:])
        return rets, panics
    def exploreloop(s, sts, L):
        sv = s.lctx; s.lctx = L
        try:
            work = list(sts)
            n = 0
            while work:
                st = work.pop()
                if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exceeded')
                s.w.cur = st
                for x in reversed(s.step(st, 0)):
                    if x[0] == 'go': work.append(x[1])
                    else: raise Unsupported('return inside loop context')
                n += 1
                if n > 20000: raise Unsupported('loop body too large')
        finally: s.lctx = sv
    def step(s, st, depth):
        """run one straight-line stretch of st"""
        s.extra = []
        while True:
            if st.panicking is not None:
                r = s.unwind(st, depth)
                if r is None: continue
                return r + [('go', x) for x in s.extra]
            f = st.frames[-1]
            if f.unw:
                # a deferred call returned during unwinding
                r = s.unwind(st, depth)
                if r is None: continue
                return r + [('go', x) for x in s.extra]
            ins = f.fn.blocks[f.blk]['ins']
            i = ins[f.idx]
            op = i['op']
            if op == 'return':
                vs = [s.val(st, x) for x in i['xs']]
                return s.doreturn(st, vs, depth) + [('go', x) for x in s.extra]
            if op == 'jump':
                r = s.jump(st, f.fn.blocks[f.blk]['succs'][0])
                return [('go', x) for x in r + s.extra]
            if op == 'if':
                r = s.doif(st, i)
                return [('go', x) for x in r + s.extra]
            if op == 'rundefers':
                if f.defers:
                    d = f.defers[0]; f.defers = f.defers[1]
                    r = s.docall(st, d, None, isdef=True)
                    if r is not None: return [('go', x) for x in r + s.extra]
                    continue
                f.idx += 1
                continue
            if op == 'panic':
                if s.panicmode == 'oblige':
                    s.oblige(st, False, 'no-panic:explicit panic')
                    return [('go', x) for x in s.extra]
                s.startpanic(st, 'panic'); continue
            f.idx += 1
            if op in ('call', 'go', 'defer'):
                s.callt = i.get('t')
                c = s.callinfo(st, i)
                if op == 'defer':
                    f.defers = (c, f.defers)
                    continue
                if op == 'go': r = s.dogo(st, c)
                else: r = s.docall(st, c, i.get('r'))
                if r is not None: return [('go', x) for x in r + s.extra]
                continue
            r = getattr(s, 'i_' + op, s.unknown)(st, i, f)
            if r is not None:
                return [('go', x) for x in r + s.extra]
    def unknown(s, st, i, f): raise Unsupported(f"instruction {i['op']}")
    def unwind(s, st, depth):
        f = st.frames[-1]
        L = s.lctx
        if L is not None and len(st.frames) <= L.depth and not f.unw:
            if st.panicking is not None:
                L.exits.append((st, 'unwind')); return []
        if st.panicking is not None:
            f.unw = True; f.panic = st.panicking; st.panicking = None; f.recovered = False
        if f.defers:
            d = f.defers[0]; f.defers = f.defers[1]
            r = s.docall(st, d, None, isdef=True)
            return [('go', x) for x in r] if r is not None else None
        if f.recovered:
            f.unw = False; f.panic = None
            rb = f.fn.recover
            if rb is not None and rb is not False and f.fn.blocks[rb]['ins']:
                f.blk, f.idx, f.prev = rb, 0, None
                return None
            return s.doreturn(st, [s.w.zero(t) for t in f.fn.results], depth)
        p = f.panic
        st.frames.pop()
        if f.tag == 'go': return [('panic', st, 'in a goroutine: %s' % p)]
        if len(st.frames) < depth or not st.frames:
            return [('panic', st, p)]
        st.panicking = p
        return None
    def doreturn(s, st, vs, depth):
        f = st.frames.pop()
        if not st.frames or len(st.frames) < depth:
            return [('ret', st, vs)]
        g = st.frames[-1]
        if f.ret is not None:
            g.regs[f.ret] = vs[0] if len(vs) == 1 else TupV(vs)
        return [('go', st)]
    def doif(s, st, i):
        f = st.frames[-1]
        c = s.val(st, i['x'])
        a, b = f.fn.blocks[f.blk]['succs']
        d = st.decide(c)
        if d is not None:
            if not isinstance(c, bool): st.fact(c if d else not_(c), True)
            return s.jump(st, a if d else b)
        L = s.lctx
        if L is not None and len(st.frames) == L.depth and f.blk == L.h and ((a in L.body) != (b in L.body)): L.undec = True
        st2 = st.fork()
        st.fact(c, True); st2.fact(not_(c), True)
        r = s.jump(st, a)
        s.w.cur = st2
        return r + s.jump(st2, b)
    # ------------------------------------------------ calls
    def callinfo(s, st, i):
        c = i['call']
        if 'invoke' in c:
            return ('invoke', s.val(st, c['recv']), c['iface'], c['invoke'], [s.val(st, a) for a in c['args']], c['sig'], [s.opt(a) for a in c['args']])
        return ('call', s.val(st, c['fn']), None, None, [s.val(st, a) for a in c['args']], c['sig'], [s.opt(a) for a in c['args']])
    def setret(s, st, reg, v):
        if reg is not None: st.frames[-1].regs[reg] = v
    def finish(s, st, reg, r):
        """deliver a model result: value, or list of (state, value)"""
        if isinstance(r, list):
            out = []
            for st2, v in r:
                if v is not PANIC: s.setret(st2, reg, v)
                out.append(st2)
            return out
        s.setret(st, reg, r)
        return None
    def docall(s, st, c, reg, isdef=False):
        kind, fv, iface, meth, args, sig, ats = c
        if isdef: s.callt = None
        if s.curopts.get('faults'):
            import faults
            r = faults.call(s, st, c, reg, isdef)
            if r is not NotImplemented: return r
        if kind == 'invoke': return s.invoke(st, fv, iface, meth, args, reg, isdef)
        if fv.name is None:
            if not s.panic_unless(st, not_(s.w.eq(fv.ref, 0, 'int')), 'nil func call'): return [st]
            h = s.modelfns.get('$dyn')
            if h is not None: return s.finish(st, reg, h(s, st, fv, args, sig))
            raise Unsupported('call of unknown function value')
        return s.callfn(st, fv.name, list(args), reg, isdef, bind=fv.bind, ats=ats)
    def callfn(s, st, name, args, reg, isdef=False, bind=(), ats=None, nocontract=False):
        if name.startswith('builtin '):
            return s.finish(st, reg, s.builtin(st, name[8:], args, ats))
        # bound methods and thunks
        if name in s.observe:
            r = s.observe[name](s, st, name, args)
            if r is not NotImplemented: return s.finish(st, reg, r)
        cn = name + '@' + str(s.curopts.get('view'))
        if cn not in s.contracts: cn = name
        if not nocontract and cn in s.contracts and s.contracts[cn].usable(s, st, name):
            s.used_contracts.add(cn)
            s.locks.atcall(s, st, s.specs.contracts[cn])
            r = s.contracts[cn].apply(s, st, args)
            if r is not NotImplemented: return s.finish(st, reg, r)
        if name.endswith('.init') and name[0] != '(' and st.frames and st.frames[-1].fn.name.endswith('.init'):
            return s.finish(st, reg, None)   # initialisers of imported packages ran before this one and cannot reach its variables
        if name in s.modelfns:
            s.used_models.add(name)
            if s.guards: s.locks.onmodel(s, st, name, args)
            r = s.modelfns[name](s, st, args)
            return s.finish(st, reg, r)
        fn = s.p.fns.get(name)
        if fn is None or not fn.blocks:
            r = s.extern(st, name, args)
            return s.finish(st, reg, r)
        if len(st.frames) > 40 or sum(1 for f in st.frames if f.fn is fn) > 2: raise Unsupported('recursion in ' + name)
        s.inlined.add(name)
        s.push(st, fn, args, bind, reg, isdef)
        return None
    def push(s, st, fn, args, bind, reg, isdef=False):
        f = Frame(fn, reg, isdef)
        for n, a in enumerate(args): f.regs['p%d' % n] = a
        for n, a in enumerate(bind): f.regs['fv%d' % n] = a
        st.frames.append(f)
    def extern(s, st, name, args):
        raise Unsupported('no model for external function ' + name)
    def invoke(s, st, v, iface, meth, args, reg, isdef=False):
        if v.isnil:
            s.panic_unless(st, False, f'nil interface {meth}'); return [st] if s.panicmode == 'fork' else []
        full = f'{iface}.{meth}'
        if v.tn is None:
            if not s.panic_unless(st, v.term != nilI, f'nil interface {meth}'): return [st]
        if full in s.observe:
            r = s.observe[full](s, st, full, [v] + args)
            if r is not NotImplemented: return s.finish(st, reg, r)
        if v.tn is None and full in s.contracts and s.contracts[full].usable(s, st, full):
            s.used_contracts.add(full)
            r = s.contracts[full].apply(s, st, [v] + args)
            if r is not NotImplemented: return s.finish(st, reg, r)
        if full in s.modelfns:
            s.used_models.add(full)
            r = s.modelfns[full](s, st, [v] + args)
            if r is not NotImplemented: return s.finish(st, reg, r)
        if v.tn is not None:
            mm = s.p.methods.get(s.p.unalias(v.tn), {}).get(meth)
            if mm is None: 
                k = f'{v.tn}.{meth}'
                if k in s.modelfns: return s.finish(st, reg, s.modelfns[k](s, st, [v.v] + args))
                raise Unsupported(f'no method {meth} on {v.tn}')
            return s.callfn(st, mm, [v.v] + args, reg, isdef)
        # symbolic: one successor per implementing type of the program
        impls = s.impls(iface)
        if not impls: raise Unsupported(f'no implementation known for {full}')
        out = []
        for t in impls:
            c = tagof(v.term) == s.p.tagid(t)
            if st.sat(c) is False: continue
            st2 = st.fork(); st2.fact(c, True)
            s.w.cur = st2
            x = s.w.unbox(st2, v, t)
            if isinstance(x, PtrV): st2.fact(not_(s.w.eq(x.ref, 0, 'int')))
            r = s.callfn(st2, s.p.methods[t][meth], [x] + args, reg, isdef)
            out += [st2] if r is None else r
        return out
    def impls(s, iface):
        u = s.p.under(iface)[0]
        r = []
        for t, mm in s.p.methods.items():
            if t.split('.')[0].lstrip('*(') not in s.w.repopkgs: continue
            if s.p.kind(t) == 'iface': continue
            if s.p.implements(t, iface): r.append(t)
        # prefer pointer receivers: value types are included only if they are boxed somewhere
        boxed = s.boxed()
        return [t for t in r if t in boxed]
    def boxed(s):
        if not hasattr(s, '_boxed'):
            b = set()
            for f in s.p.fns.values():
                for bl in f.blocks:
                    for i in bl['ins']:
                        if i['op'] == 'makeiface': b.add(s.p.unalias(i['xt']))
            s._boxed = b
        return s._boxed
    def dogo(s, st, c):
        kind, fv, iface, meth, args, sig, ats = c
        name = fv.name if kind == 'call' else f'{iface}.{meth}'
        if s.curopts.get('spawn'):
            import faults
            return faults.spawn(s, st, c)
        h = s.modelfns.get('$go')
        if h is not None:
            r = h(s, st, name, args, fv)
            if isinstance(r, list): return [x[0] for x in r]
        return None
    # ------------------------------------------------ builtins
    def builtin(s, st, n, args, ats):
        w = s.w
        if n == 'len' or n == 'cap':
            v = args[0]
            if isinstance(v, SliceV): return v.l if n == 'len' else v.c
            if isinstance(v, (bytes,)) or (isz(v) and v.sort() == S): return st.slen(v)
            if isinstance(v, MapV):
                if s.guards: s.locks.onmap(s, st, v)
                return s.maplen(st, v)
            if isinstance(v, ChanV):
                a = st.load(PtrV('int', v.ref, root='$chan', path=('n',)) if n == 'len' else PtrV('int', v.ref, root='$chan', path=('cap',)), 'int')
                st.fact(a >= 0 if isz(a) else True)
                return a
            if isinstance(v, ArrV): return s.p.under(v.tn)[1]['n']
            if isinstance(v, PtrV): return s.p.under(v.et)[1]['n']
            raise Unsupported('len')
        if n == 'append': return s.append(st, args[0], args[1], ats[0] if ats else None)
        if n == 'copy':
            d, x = args
            if isinstance(x, SliceV): srow = st.row(x); so, sl = x.o, x.l
            else: srow, so, sl = st.srow(x), 0, st.slen(x)
            dl = d.l
            c = st.decide(le(sl, dl))
            nn = (sl if c else dl) if c is not None else s.ite_int(le(sl, dl), sl, dl)
            if isc(nn) and nn <= 64:
                vals = [srow.read(st, add(so, i)) for i in range(nn)]
                for i, v in enumerate(vals): st.store(st.elemptr(d, i), v, d.et)
                return nn
            drow = st.row(d)
            if isc(d.o) and d.o == 0 and isc(so) and so == 0 and st.valid(simp(zi(nn) == zi(dl))) and same(sl, dl):
                st.setrow(d, srow); return nn
            a = s.fresharr(('copy', ()), d.et, 1, st.cnt)
            j = z3.Int('j!copy')
            for x1, y1, z1 in zip(a.base, srow.comps(w), drow.comps(w)):
                st.fact(z3.ForAll([j], x1[j] == z3.If(z3.And(j >= zi(d.o), j < zi(d.o) + zi(nn)), y1[j - zi(d.o) + zi(so)], z1[j]), patterns=[x1[j]]))
            st.setrow(d, a)
            return nn
        if n == 'delete':
            s.mapdelete(st, args[0], args[1]); return None
        if n == 'recover':
            f = st.frames[-1]
            if f.isdef and len(st.frames) >= 2 and st.frames[-2].unw and not st.frames[-2].recovered:
                st.frames[-2].recovered = True
                return IfV(term=s.panicval(st))
            return NILI
        if n == 'ssa:wrapnilchk':
            s.panic_unless(st, not_(w.eq(args[0].ref, 0, 'int')), 'nil pointer')
            return args[0]
        if n in ('print', 'println'): return None
        if n in ('min', 'max'):
            r = args[0]
            for a in args[1:]:
                r = s.ite_int(le(r, a) if n == 'min' else le(a, r), r, a)
            return r
        if n == 'close': return None
        raise Unsupported('builtin ' + n)
    def panicval(s, st):
        t = fresh('panicval', I); st.fact(t != nilI); return t
    def append(s, st, a, b, t):
        """append: the result is a fresh backing array (see DESIGN: aliasing with spare capacity is not modelled)"""
        et = a.et
        if not isinstance(b, SliceV):      # append([]byte, string...)
            b = st.newslice('uint8', st.srow(b), st.slen(b))
        l = add(a.l, b.l)
        if isc(b.l) and b.l == 0: return a
        nl = s.w.nleaves
        lp = st.leafpaths(et)
        c = fresh('cap', INT); st.fact(z3.And(c >= zi(l), c <= BIG))
        st.fact(zi(l) <= BIG)
        r = SliceV(et, st.newref(), 0, l, c)
        for p, lt_ in lp:
            ka = ('[]' + et, ('[]',) + p)
            comp = st.comp(ka, lt_, 2)
            rowa = comp.row(st, a.b) if not (isc(a.l) and a.l == 0) else SArr(lt_, 1, None, dflt=s.w.zero(lt_))
            kb = ('[]' + b.et, ('[]',) + p)
            rowb = st.comp(kb, lt_, 2).row(st, b.b)
            if not (isc(a.o) and a.o == 0):
                if isc(a.l) and a.l <= 64:
                    vals = [rowa.read(st, add(a.o, i)) for i in range(a.l)]
                    rowa = SArr(lt_, 1, None, dflt=s.w.zero(lt_))
                    for i, v in enumerate(vals): rowa = rowa.write(st, [i], v)
                else:
                    x = s.fresharr(('app', ()), lt_, 1, st.cnt); j = z3.Int('j!app')
                    for p1, q1 in zip(x.base, rowa.comps(s.w)): st.fact(z3.ForAll([j], p1[j] == q1[j + zi(a.o)], patterns=[p1[j]]))
                    rowa = x
            if isc(b.l) and b.l <= 64:
                for i in range(b.l): rowa = rowa.write(st, [add(a.l, i)], rowb.read(st, add(b.o, i)))
            elif isc(a.l) and a.l == 0 and isc(b.o) and b.o == 0: rowa = rowb
            else:
                x = s.fresharr(('app', ()), lt_, 1, st.cnt); j = z3.Int('j!app')
                for p1, q1, q2 in zip(x.base, rowa.comps(s.w), rowb.comps(s.w)):
                    st.fact(z3.ForAll([j], p1[j] == z3.If(j < zi(a.l), q1[j], q2[j - zi(a.l) + zi(b.o)]), patterns=[p1[j]]))
                rowa = x
            st.setrow(r, rowa, p, lt_)
        return r
    # ------------------------------------------------ maps
    def mkey(s, st, k, t):
        kk = s.w.lkind(t)
        if kk == 'int': return k
        if kk == 'str':
            t_ = zs(k)
            f = z3.Function('kint_S', S, INT); g = z3.Function('kinv_S', INT, S)
            if z3.is_app(t_) and t_.num_args() == 1 and t_.decl().name() == 'kinv_S': return t_.arg(0)
            r = f(t_)
            st.fact(g(r) == t_)
            if litfact(t_) is not None: st.fact(litfact(t_))
            if isinstance(k, bytes): s.litidx[r.get_id()] = k; s.keep.append(r)
            return r
        if kk == 'iface':
            t_ = s.w.ifterm(k)
            f = z3.Function('kint_I', I, INT); g = z3.Function('kinv_I', INT, I)
            if z3.is_app(t_) and t_.num_args() == 1 and t_.decl().name() == 'kinv_I': return t_.arg(0)
            r = f(t_); st.fact(g(r) == t_); return r
        if kk in ('ptr',): return k.ref
        raise Unsupported('map key ' + t)
    def mt(s, m):
        j = s.p.under(m.tn)[1]
        return j['key'], j['e']
    def mapdom(s, st, m, ki):
        a = st.comp(('map ' + m.tn, ('dom',)), 'bool', 2)
        if isc(m.ref) and m.ref == 0: return False
        r = a.read(st, m.ref, ki)
        if isz(m.ref) and r is not False: st.fact(z3.Implies(m.ref == 0, z3.Not(zb(r))))
        return r
    def maplen(s, st, m):
        if isc(m.ref) and m.ref == 0: return 0
        a = st.comp(('map ' + m.tn, ('len',)), 'int', 1)
        l = a.read(st, m.ref)
        if isz(l): st.fact(z3.And(l >= 0, l <= BIG))
        if isz(m.ref): st.fact(z3.Implies(m.ref == 0, zi(l) == 0))
        return l
    def mapval(s, st, m, ki, et, path=()):
        if s.w.lkind(et) == 'struct':
            return StructV(et, [s.mapval(st, m, ki, f['t'], path + (f['name'],)) for f in s.p.fields(et)])
        a = st.comp(('map ' + m.tn, ('val',) + path), et, 2)
        return a.read(st, m.ref, ki)
    def mapput(s, st, m, ki, v, et, path=()):
        if s.w.lkind(et) == 'struct':
            for f, x in zip(s.p.fields(et), v.fs): s.mapput(st, m, ki, x, f['t'], path + (f['name'],))
            return
        key = ('map ' + m.tn, ('val',) + path)
        st.mem[key] = st.comp(key, et, 2).write(st, [m.ref, ki], v)
        st.wlog = ((key, (m.ref, ki)), st.wlog)
    def mapset(s, st, m, k, v):
        kt, et = s.mt(m)
        ki = s.mkey(st, k, kt)
        was = s.mapdom(st, m, ki)
        l = s.maplen(st, m)
        s.mapput(st, m, ki, v, et)
        for nm, val, t, idx in (('dom', True, 'bool', [m.ref, ki]), ('len', s.ite_int(was, l, add(l, 1)), 'int', [m.ref])):
            key = ('map ' + m.tn, (nm,))
            st.mem[key] = st.comp(key, t, len(idx)).write(st, idx, val)
            st.wlog = ((key, tuple(idx)), st.wlog)
    def mapdelete(s, st, m, k):
        if isc(m.ref) and m.ref == 0: return
        kt, et = s.mt(m)
        ki = s.mkey(st, k, kt)
        was = s.mapdom(st, m, ki); l = s.maplen(st, m)
        if was is not False and not isinstance(was, bool): st.fact(z3.Implies(was, zi(l) >= 1))
        for nm, val, t, idx in (('dom', False, 'bool', [m.ref, ki]), ('len', s.ite_int(was, sub(l, 1), l), 'int', [m.ref])):
            key = ('map ' + m.tn, (nm,))
            st.mem[key] = st.comp(key, t, len(idx)).write(st, idx, val)
            st.wlog = ((key, tuple(idx)), st.wlog)
    def newmap(s, st, tn):
        r = st.newref(); m = MapV(tn, r)
        st.mem[('map ' + tn, ('dom',))] = st.comp(('map ' + tn, ('dom',)), 'bool', 2).write(st, [r], SArr('bool', 1, None, dflt=False))
        st.mem[('map ' + tn, ('len',))] = st.comp(('map ' + tn, ('len',)), 'int', 1).write(st, [r], 0)
        return m
    # ------------------------------------------------ instructions
    def i_alloc(s, st, i, f):
        p = st.alloc(s.p.elem(i['t']))
        if not i.get('heap') or s.curopts.get('faults') and s.private(f.fn, i['r']): st.stk = st.stk | {p.ref}       # no other function can reach it
        f.regs[i['r']] = p
    def private(s, fn, r):
        """is the variable reached only by this function and its closures, which are explored where they run"""
        k = (fn.name, r)
        if k not in s.privs:
            s.privs[k] = False
            def only(g, kind, n):
                from prog import ops
                for b in g.blocks:
                    for j in b['ins']:
                        if j.get('r') == n and kind == 'r': continue
                        us = [o for o in ops(j) if o.get('k') == kind and o.get('n') == n]
                        if not us: continue
                        if j['op'] == 'unop' and j['o'] == '*' or j['op'] == 'store' and j['a'] in us and not (j['x'].get('k') == kind and j['x'].get('n') == n): continue
                        if j['op'] == 'makeclosure':
                            h = s.p.fns[j['fn']['n']]
                            if all(only(h, 'r', 'fv%d' % q) for q, o in enumerate(j['b']) if o in us): continue
                        return False
                return True
            s.privs[k] = only(fn, 'r', r)
        return s.privs[k]
    def i_phi(s, st, i, f): raise Unsupported('phi in the middle of a block')
    def i_binop(s, st, i, f):
        o = i['o']; x, y = s.val(st, i['x']), s.val(st, i['y'])
        t = i['x']['t']
        f.regs[i['r']] = s.binop(st, o, x, y, t, i)
        return [st] if st.panicking is not None else None
    def binop(s, st, o, x, y, t, i=None):
        w = s.w; k = w.lkind(t)
        if o in ('==', '!='):
            ty = i['y']['t'] if i else t
            if k == 'nil': t = ty; k = w.lkind(t)
            if k == 'iface' and w.lkind(ty) != 'iface': y = IfV(tn=ty, v=y)
            elif i and w.lkind(ty) == 'iface' and k != 'iface': x = IfV(tn=t, v=x); t = ty
            c = w.eq(x, y, t)
            return c if o == '==' else not_(c)
        if k == 'int':
            if o in ('<', '<=', '>', '>='):
                return lt(x, y) if o == '<' else le(x, y) if o == '<=' else lt(y, x) if o == '>' else le(y, x)
            if o in ('/', '%'):
                s.panic_unless(st, not_(w.eq(y, 0, 'int')), 'division by zero')
            return s.arith(st, o, x, y, t)
        if k == 'float':
            x, y = zr(x), zr(y)
            if o in ('<', '<=', '>', '>='): return simp({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o])
            if o == '/':
                if not st.valid(simp(y != 0), 1000): s.notes.append('float division by possibly zero')
            return z3.simplify({'+': x + y, '-': x - y, '*': x * y, '/': x / y}[o])
        if k == 'str':
            if o == '+': return st.sconcat(x, y)
            f = z3.Function('str_lt', S, S, BOOL)
            a, b = zs(x), zs(y)
            return {'<': f(a, b), '>': f(b, a), '<=': z3.Not(f(b, a)), '>=': z3.Not(f(a, b))}[o]
        if k == 'bool':
            x, y = zb(x), zb(y)
            return simp({'&': z3.And(x, y), '|': z3.Or(x, y), '^': z3.Xor(x, y)}[o])
        raise Unsupported(f'binop {o} {t}')
    def nilcheck(s, st, p, what):
        if isc(p.ref):
            if p.ref != 0 or p.root.startswith('@'): return True
            r = s.panic_unless(st, False, what)
            if s.panicmode == 'oblige': st.fact(False)
            return r and s.panicmode != 'oblige'
        key = ('nn', p.ref.get_id())
        if key in st.rcache: return True
        r = s.panic_unless(st, simp(p.ref != 0), what)
        if r: st.rcache[key] = p.ref
        return r
    def i_unop(s, st, i, f):
        o = i['o']; x = s.val(st, i['x']); t = i['t']
        w = s.w
        if o == '*':
            if not s.nilcheck(st, x, 'nil dereference'): return [st] if st.panicking is not None else []
            if s.guards: s.locks.onread(s, st, x)
            v = s.gload(st, x, t)
        elif o == '!': v = not_(x)
        elif o == '-':
            v = s.wrap(st, sub(0, s.rawof(x, s.p.intinfo(t)[0])), t) if w.lkind(t) == 'int' else z3.simplify(-zr(x))
        elif o == '^':
            n, sg = s.p.intinfo(t)
            v = s.wrap(st, sub(-1, x) if sg else sub((1 << n) - 1, x), t)
        elif o == '<-':
            return s.chanrecv(st, x, i, f)
        else: raise Unsupported('unop ' + o)
        f.regs[i['r']] = v
    def gload(s, st, p, t):
        """load, with package constants resolved"""
        if p.root.startswith('@'):
            h = s.modelfns.get('$global')
            if h is not None:
                v = h(s, st, p, t)
                if v is not None: return v
            if not p.path:
                c = s.p.constglobals().get(p.root[1:])
                if c is not None: return s.constglobal(st, p.root[1:], c, t)
        return st.load(p, t)
    def constglobal(s, st, name, c, t):
        """package variable written only by the initialiser, with a constant"""
        s.notes.append('package constant ' + name)
        if c[0] == 'val': return c[1]
        et, row = c[1], c[2]
        ref = s.constrefs.setdefault(name, (1 << 41) + len(s.constrefs))
        key = ('[]' + et, ('[]',))
        sl = SliceV(et, ref, 0, len(row), len(row))
        b = s.base(key, et, 2).base[0]
        s.constrows[(b.get_id(), ref)] = row
        if ('cg', name) not in st.rcache:
            st.rcache[('cg', name)] = True
            if len(row) <= 16:
                for j, x in enumerate(row): st.fact(z3.Select(z3.Select(b, ref), j) == x)
        return sl
    def chanrecv(s, st, x, i, f):
        h = s.modelfns.get('$recv')
        if h is None: raise Unsupported('channel receive')
        r = h(s, st, x, i)
        return s.finish(st, i['r'], r)
    def i_send(s, st, i, f):
        h = s.modelfns.get('$send')
        if h is None: raise Unsupported('channel send')
        r = h(s, st, s.val(st, i['ch']), s.val(st, i['x']), i)
        return None if r is None else [x[0] for x in r]
    def i_select(s, st, i, f):
        h = s.modelfns.get('$select')
        if h is None: raise Unsupported('select')
        r = h(s, st, i)
        return s.finish(st, i['r'], r)
    def i_makechan(s, st, i, f):
        r = st.newref(); c = ChanV(i['t'], r)
        st.store(PtrV('int', r, root='$chan', path=('n',)), 0, 'int')
        st.store(PtrV('int', r, root='$chan', path=('cap',)), s.val(st, i['x']), 'int')
        f.regs[i['r']] = c
    def i_changeiface(s, st, i, f): f.regs[i['r']] = s.val(st, i['x'])
    def i_changetype(s, st, i, f):
        v = s.val(st, i['x']); t = i['t']
        f.regs[i['r']] = s.retype(v, t)
    def retype(s, v, t):
        k = s.w.lkind(t)
        if isinstance(v, MapV): return MapV(v.tn, v.ref)
        if isinstance(v, StructV): return StructV(t, v.fs)
        return v
    def i_convert(s, st, i, f):
        x = s.val(st, i['x']); ft, t = i['x']['t'], i['t']
        f.regs[i['r']] = s.convert(st, x, ft, t)
    def convert(s, st, x, ft, t):
        w = s.w; a, b = w.lkind(ft), w.lkind(t)
        if a == 'int' and b == 'int':
            n, sg = s.p.intinfo(t); m, sg2 = s.p.intinfo(ft)
            if isz(x) and (m < n and (sg or not sg2) or (m == n and sg == sg2)): return x
            raw = s.rawof(x, n)
            if isc(x): raw = x
            return s.wrap(st, raw, t)
        if a == 'int' and b == 'float': return z3.simplify(z3.ToReal(zi(x)))
        if a == 'float' and b == 'float': return x
        if a == 'float' and b == 'int':
            r = zr(x)
            c = z3.simplify(r >= 0)
            v = z3.simplify(z3.If(c, z3.ToInt(r), -z3.ToInt(-r)))
            v = simp(v)
            return s.wrap(st, v, t)
        if a == 'str' and b == 'slice':
            et = s.p.elem(t)
            if s.p.basic(et) not in ('byte', 'uint8'): raise Unsupported('[]rune conversion')
            return st.newslice(et, st.srow(x), st.slen(x))
        if a == 'slice' and b == 'str': return s.bytes2str(st, x)
        if a == 'int' and b == 'str':
            if isc(x): return chr(x).encode('utf8')
            r = z3.Function('rune2str', INT, S)(zi(x)); st.strfacts(r); return r
        if a == 'str' and b == 'str': return x
        if a == b: return x
        raise Unsupported(f'convert {ft} -> {t}')
    def bytes2str(s, st, x):
        if isc(x.l) and x.l == 0: return b''
        row = st.row(x)
        if isc(x.l) and isc(x.o) and x.l <= 256:
            bs = [row.read(st, x.o + j) for j in range(x.l)]
            if all(isc(b) for b in bs): return bytes(bs)
        if row.ws == () and row.base is not None and isc(x.o) and x.o == 0:
            b = row.base[0]
            if z3.is_app(b) and b.decl().eq(sbytes_f):
                v = b.arg(0)
                if same(x.l, slen_f(v)) or st.valid(simp(zi(x.l) == slen_f(v))): return st.unlit(v)
        r = smk_f(row.toz3(s.w), zi(x.o), zi(x.l))
        st.strfacts(r)
        st.fact(slen_f(r) == zi(x.l))
        if getattr(row, 'chunks', None) is not None and isc(x.o) and x.o == 0 and same(x.l, row.clen): s.cache[('srow', r.get_id())] = (row, r)
        key = ('smkfact', r.get_id())
        if key not in st.rcache:
            st.rcache[key] = r
            j = z3.Int('j!smk')
            st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(x.l)), sbytes_f(r)[j] == row.toz3(s.w)[j + zi(x.o)]), patterns=[sbytes_f(r)[j]]))
        return r
    def i_extract(s, st, i, f): f.regs[i['r']] = s.val(st, i['x']).vs[i['i']]
    def fieldof(s, t, n):
        return s.p.fields(t)[n]
    def i_field(s, st, i, f):
        x = s.val(st, i['x'])
        if isinstance(x, StructV): f.regs[i['r']] = x.fs[i['i']]; return
        if isinstance(x, ExtV):
            fd = s.fieldof(i['x']['t'], i['i'])
            fn = z3.Function('extf_%s_%s' % (x.tn, fd['name']), INT, *[s.w.sorts(fd['t'])[0]])
            f.regs[i['r']] = s.w.lift([fn(zi(x.x))], fd['t']); return
        raise Unsupported('field')
    def i_fieldaddr(s, st, i, f):
        p = s.val(st, i['x'])
        if not s.nilcheck(st, p, 'nil dereference'): return [st] if st.panicking is not None else []
        fd = s.fieldof(s.p.elem(i['x']['t']), i['i'])
        f.regs[i['r']] = PtrV(fd['t'], p.ref, p.root, p.path + (fd['name'],))
    def inbounds(s, st, ix, n, what='index out of range'):
        return s.panic_unless(st, and_(le(0, ix), lt(ix, n)), what)
    def i_indexaddr(s, st, i, f):
        x = s.val(st, i['x']); ix = s.val(st, i['y'])
        if isinstance(x, SliceV):
            if not s.inbounds(st, ix, x.l): return [st]
            f.regs[i['r']] = st.elemptr(x, ix)
        else:
            at = s.p.elem(i['x']['t'])
            if not s.nilcheck(st, x, 'nil dereference'): return [st] if st.panicking is not None else []
            if not s.inbounds(st, ix, s.p.under(at)[1]['n']): return [st]
            f.regs[i['r']] = PtrV(s.p.elem(at), x.ref, x.root, x.path + (('i', ix),))
    def i_index(s, st, i, f):
        x = s.val(st, i['x']); ix = s.val(st, i['y'])
        if isinstance(x, ArrV):
            if not s.inbounds(st, ix, s.p.under(x.tn)[1]['n']): return [st]
            f.regs[i['r']] = x.row.read(st, ix)
        else:
            if not s.inbounds(st, ix, st.slen(x)): return [st]
            f.regs[i['r']] = st.schar(x, ix)
    def i_lookup(s, st, i, f):
        m = s.val(st, i['x'])
        if not isinstance(m, MapV):
            ix = s.val(st, i['y'])
            if not s.inbounds(st, ix, st.slen(m)): return [st]
            f.regs[i['r']] = st.schar(m, ix); return
        if s.guards: s.locks.onmap(s, st, m)
        kt, et = s.mt(m)
        ki = s.mkey(st, s.val(st, i['y']), kt)
        if isc(m.ref) and m.ref == 0: has, v = False, s.w.zero(et)
        else:
            has = s.mapdom(st, m, ki)
            if isz(m.ref): has = and_(has, simp(m.ref != 0))
            d = st.decide(has)
            if d is None:
                st2 = st.fork(); st2.fact(not_(has), True); st.fact(has, True)
                l = s.maplen(st, m)
                if isz(l): st.fact(l >= 1)
                v = s.mapval(st, m, ki, et)
                st2.frames[-1].regs[i['r']] = TupV([s.w.zero(et), False]) if i['ok'] else s.w.zero(et)
                f.regs[i['r']] = TupV([v, True]) if i['ok'] else v
                return [st, st2]
            has = d
            v = s.mapval(st, m, ki, et) if d else s.w.zero(et)
        f.regs[i['r']] = TupV([v, has]) if i['ok'] else v
    def i_makeclosure(s, st, i, f):
        f.regs[i['r']] = FuncV(name=i['fn']['n'], bind=tuple(s.val(st, b) for b in i['b']), tn=i['t'])
    def i_makeiface(s, st, i, f):
        f.regs[i['r']] = IfV(tn=s.p.unalias(i['xt']), v=s.val(st, i['x']))
    def i_makemap(s, st, i, f): f.regs[i['r']] = s.newmap(st, i['t'])
    def i_makeslice(s, st, i, f):
        l, c = s.val(st, i['len']), s.val(st, i['cap'])
        if not s.panic_unless(st, and_(le(0, l), le(l, c)), 'makeslice: len out of range'): return [st]
        if s.curopts.get('count-input'):
            import lib
            s.oblige(st, le(c, add(sub(lib.nread(st), lib.nread(s.oldst)), 4096)), 'alloc:make', 'the capacity of this make is not bounded by the bytes received')
        if isz(c): st.fact(c <= BIG)
        f.regs[i['r']] = st.zeroslice(s.p.elem(i['t']), l, c)
    def i_range(s, st, i, f):
        m = s.val(st, i['x'])
        if not isinstance(m, MapV): raise Unsupported('range over string')
        if s.guards: s.locks.onmap(s, st, m)
        r = st.newref()
        st.store(PtrV('int', r, root='$iter', path=('pos',)), 0, 'int')
        kt, et = s.mt(m)
        n = s.maplen(st, m)
        # ghost enumeration of the keys present at the start of the iteration
        e = fresh('enum', z3.ArraySort(INT, INT)); inv = fresh('enuminv', z3.ArraySort(INT, INT))
        dom = st.comp(('map ' + m.tn, ('dom',)), 'bool', 2).row(st, m.ref)
        d = dom.toz3(s.w)
        f.regs[i['r']] = IterV(m=m, mem=None, enum=e, pos=r, n=n, inv=inv, d=d)
        st.ghost['enum ' + str(m.ref)] = (e, n, inv, d)
    def i_next(s, st, i, f):
        it = s.val(st, i['x'])
        if s.guards: s.locks.onmap(s, st, it.m)
        pp = PtrV('int', it.pos, root='$iter', path=('pos',))
        pos = st.load(pp, 'int')
        kt, et = s.mt(it.m)
        c = lt(pos, it.n)
        if isz(pos): st.fact(pos >= 0)
        d = st.decide(c)
        outs = []
        if d is not False:
            a = st.fork() if d is None else st
            a.fact(c, True)
            s.w.cur = a
            ki = it.enum[zi(pos)]
            a.fact(z3.And(it.d[ki], it.inv[ki] == zi(pos)))
            dom = a.comp(('map ' + it.m.tn, ('dom',)), 'bool', 2).row(a, it.m.ref)
            k = s.unkey(a, ki, kt)
            v = s.mapval(a, it.m, ki, et)
            a.store(pp, add(pos, 1), 'int')
            a.frames[-1].regs[i['r']] = TupV([True, k, v])
            outs.append(a)
        if d is not True:
            b = st
            b.fact(not_(c), True)
            kt_, et_ = s.w.zero(kt), s.w.zero(et)
            b.frames[-1].regs[i['r']] = TupV([False, kt_, et_])
            outs.append(b)
        return outs
    def unkey(s, st, ki, kt):
        k = s.w.lkind(kt)
        if k == 'int': 
            st.typefacts(ki, kt); return ki
        if k == 'str':
            f = z3.Function('kint_S', S, INT); g = z3.Function('kinv_S', INT, S)
            r = g(ki); st.fact(f(r) == ki); st.strfacts(r); return r
        if k == 'iface':
            f = z3.Function('kint_I', I, INT); g = z3.Function('kinv_I', INT, I)
            r = g(ki); st.fact(f(r) == ki); return IfV(term=r)
        raise Unsupported('map key ' + kt)
    def i_slice(s, st, i, f):
        x = s.val(st, i['x']); lo, hi, mx = s.val(st, i['lo']), s.val(st, i['hi']), s.val(st, i['max'])
        lo = 0 if lo is None else lo
        if isinstance(x, SliceV):
            h = x.l if hi is None else hi
            if not s.panic_unless(st, and_(le(0, lo), le(lo, h), le(h, x.c if hi is not None else x.l)), 'slice bounds out of range'): return [st]
            m = x.c if mx is None else mx
            r = SliceV(x.et, x.b, add(x.o, lo), sub(h, lo), sub(m, lo))
        elif isinstance(x, PtrV):       # array pointer
            at = x.et; n = s.p.under(at)[1]['n']
            h = n if hi is None else hi
            if not s.panic_unless(st, and_(le(0, lo), le(lo, h), le(h, n)), 'slice bounds out of range'): return [st]
            et = s.p.elem(at)
            if x.root != '[]' + et or x.path: raise Unsupported('slice of an array field')
            sl = SliceV(et, x.ref, 0, n, n)
            r = SliceV(et, sl.b, lo, sub(h, lo), sub(n, lo))
        else:
            n = st.slen(x)
            h = n if hi is None else hi
            if not s.panic_unless(st, and_(le(0, lo), le(lo, h), le(h, n)), 'slice bounds out of range'): return [st]
            r = s.substr(st, x, lo, h)
        f.regs[i['r']] = r
    def substr(s, st, x, lo, hi):
        if isinstance(x, bytes) and isc(lo) and isc(hi): return x[lo:hi]
        if isc(lo) and lo == 0 and same(hi, st.slen(x)): return x
        n = st.slen(x)
        inr = and_(le(0, lo), le(lo, hi), le(hi, n))
        f = z3.Function('substr', S, INT, INT, S)
        while isz(x) and x.decl().eq(f):      # a part of a part (within the whole: checked where the code takes it)
            if not st.valid(inr): break
            a = x.arg(1); a = a.as_long() if z3.is_int_value(a) else a
            lo, hi = add(a, lo), add(a, hi); x = st.unlit(x.arg(0))
        r = f(zs(x), zi(lo), zi(hi))
        st.strfacts(r); st.fact(z3.Implies(zb(inr), slen_f(r) == zi(sub(hi, lo))))
        return r
    def i_store(s, st, i, f):
        p = s.val(st, i['a']); v = s.val(st, i['x'])
        if not s.nilcheck(st, p, 'nil dereference'): return [st] if st.panicking is not None else []
        st.store(p, v, i['x']['t'] if s.w.lkind(p.et) != 'iface' else p.et)
    def i_mapupdate(s, st, i, f):
        m = s.val(st, i['m'])
        if isc(m.ref):
            if m.ref == 0:
                if not s.panic_unless(st, False, 'assignment to nil map'): return [st]
                return []
        elif not s.panic_unless(st, simp(m.ref != 0), 'assignment to nil map'): return [st]
        s.mapset(st, m, s.val(st, i['key']), s.val(st, i['x']))
    def implcond(s, st, v, at):
        f = z3.Function('impl ' + at, INT, BOOL)
        s.implused.add(at)
        for t, n in list(s.p.tagids.items()): st.fact(f(z3.IntVal(n)) if s.p.implements(t, at) else z3.Not(f(z3.IntVal(n))))
        return z3.And(v.term != nilI, f(tagof(v.term)))
    def tagid(s, st, t):
        new = s.p.unalias(t) not in s.p.tagids
        n = s.p.tagid(t)
        for at in s.implused:
            f = z3.Function('impl ' + at, INT, BOOL)
            st.fact(f(z3.IntVal(n)) if s.p.implements(t, at) else z3.Not(f(z3.IntVal(n))))
        return n
    def i_typeassert(s, st, i, f):
        v = s.val(st, i['x']); at = i['at']
        isif = s.w.lkind(at) == 'iface'
        if v.isnil: ok = False
        elif isif:
            if v.tn: ok = s.p.implements(s.p.unalias(v.tn), at)
            else:
                if s.p.under(i['x']['t'])[0] == s.p.under(at)[0]: ok = simp(v.term != nilI)
                else: ok = s.implcond(st, v, at)
        else:
            if v.tn: ok = s.p.unalias(v.tn) == s.p.unalias(at)
            else: ok = simp(tagof(v.term) == s.tagid(st, at))
        def good(st2):
            if isif: return v
            s.w.cur = st2
            x = s.w.unbox(st2, v, at)
            if s.w.lkind(at) == 'ptr' and isz(x.ref): st2.fact(x.ref != 0)     # assumption: no typed nil pointers in interfaces
            return x
        z = s.w.zero(at)
        if not i['ok']:
            if not s.panic_unless(st, ok, 'type assertion'): return [st]
            if isinstance(ok, bool) and not ok: return []
            f.regs[i['r']] = good(st); return
        d = st.decide(ok)
        if d is None:
            st2 = st.fork()
            st.fact(ok, True); st2.fact(not_(ok), True)
            f.regs[i['r']] = TupV([good(st), True])
            st2.frames[-1].regs[i['r']] = TupV([z, False])
            return [st, st2]
        if d and not isinstance(ok, bool): st.fact(ok)
        f.regs[i['r']] = TupV([good(st), True]) if d else TupV([z, False])
    # ------------------------------------------------ loops: see loops.py
    def enter_loop(s, st, h, body):
        import loops
        return loops.enter(s, st, h, body)
PANIC = object()
