"""Byte streams and event logs as lists of chunks; equality under a path condition."""
from core import *

# chunk forms
#  ('BE', n, u)            n bytes, big endian, 0 <= u < 256^n
#  ('ARR', row, lo, hi)    bytes row[lo..hi)
#  ('U', name)             an unknown stream (rest of the input, earlier output)
#  ('APP', name, args)     a named spec function, unfolded on demand
#  ('COND', c, X, Y)
#  ('CAT', lo, hi, fn)     fn(lo) ++ ... ++ fn(hi-1)
#  ('EV', name, args, mem) one event
def U(n): return ('U', n)

class Streams:
    def __init__(s, eng): s.eng = eng; s.sums = {}; s.sumpers = {}; s.apps = {}; s.specs = {}
    # -- substitution of z3 terms inside rich values
    def subst(s, v, sub):
        if isz(v):
            r = z3.substitute(v, *sub)
            if r.eq(v): return v
            return simp(r) if z3.is_int(r) or z3.is_bool(r) else r
        if isinstance(v, PtrV): return PtrV(v.et, s.subst(v.ref, sub), v.root, tuple(x if isinstance(x, str) else ('i', s.subst(x[1], sub)) for x in v.path))
        if isinstance(v, SliceV): return SliceV(v.et, *[s.subst(x, sub) for x in (v.b, v.o, v.l, v.c)])
        if isinstance(v, MapV): return MapV(v.tn, s.subst(v.ref, sub))
        if isinstance(v, ChanV): return ChanV(v.tn, s.subst(v.ref, sub))
        if isinstance(v, IfV): return v if v.isnil else IfV(tn=v.tn, v=s.subst(v.v, sub)) if v.tn else IfV(term=s.subst(v.term, sub))
        if isinstance(v, StructV): return StructV(v.tn, [s.subst(x, sub) for x in v.fs])
        if isinstance(v, ArrV): return ArrV(v.tn, s.subst(v.row, sub))
        if isinstance(v, ExtV): return ExtV(v.tn, s.subst(v.x, sub))
        if isinstance(v, TupV): return TupV([s.subst(x, sub) for x in v.vs])
        if isinstance(v, BytesV): return BytesV(s.subst(v.row, sub), s.subst(v.lo, sub), s.subst(v.hi, sub))
        if isinstance(v, ChV):
            r = s.substc(v.ch, sub)
            return v if r is v.ch else ChV(r)
        if isinstance(v, Cond2): return Cond2(s.subst(v.c, sub), s.subst(v.a, sub), s.subst(v.b, sub))
        if getattr(v, 'chunks', None) is not None:
            import lib
            nc = s.substc(v.chunks, sub); r = lib.ChunkRow(v.et, 1, [s.subst(v.base[0], sub)])
            if all(a is b for a, b in zip(nc, v.chunks)): return v
            r.base = [fresh('chrow', v.base[0].sort())]
            r.chunks, r.clen = nc, s.subst(v.clen, sub)
            return r
        if isinstance(v, SArr):
            ws = []; x = v.ws; ch = False
            while x:
                a, b = s.subst(x[0], sub), s.subst(x[1], sub)
                ch |= a is not x[0] or b is not x[1]
                ws.append((a, b)); x = x[2]
            base = v.base and [s.subst(b, sub) for b in v.base]
            if not ch and (base is None or all(p is q for p, q in zip(base, v.base))): return v
            nw = ()
            for a, b in reversed(ws): nw = (a, b, nw)
            return SArr(v.et, v.dims, base, v.dflt, nw, v.birth, v.nm, v.g)
        if isinstance(v, FuncV): return v if v.name else FuncV(ref=s.subst(v.ref, sub), tn=v.tn)
        if isinstance(v, (tuple, list)): return type(v)(s.subst(x, sub) for x in v)
        return v
    def substc(s, ch, sub):
        r = [s.subst1(c, sub) for c in ch]
        return ch if isinstance(ch, list) and all(a is b for a, b in zip(r, ch)) else r
    def subst1(s, c, sub):
        k = c[0]
        if k == 'BE': n = ('BE', c[1], s.subst(c[2], sub))
        elif k == 'ARR': n = ('ARR', s.subst(c[1], sub), s.subst(c[2], sub), s.subst(c[3], sub))
        elif k == 'U': return c
        elif k in ('APP', 'EV'):
            m = s.substmem(c[3], sub) if len(c) > 3 and c[3] is not None else None
            n = (k, c[1], tuple(s.subst(x, sub) for x in c[2]), m)
            if m is (c[3] if len(c) > 3 else None) and all(a is b for a, b in zip(n[2], c[2])): return c
            return n
        elif k == 'COND': n = ('COND', s.subst(c[1], sub), s.substc(c[2], sub), s.substc(c[3], sub))
        elif k == 'CAT':
            n = ('CAT', s.subst(c[1], sub), s.subst(c[2], sub), (lambda f: lambda i: s.substc(list(f(i)), sub))(c[3]))
            return n
        else: raise Unsupported(k)
        return c if all(a is b for a, b in zip(n, c)) else n
    def substmem(s, mem, sub):
        ch = {}
        for k, a in mem.items():
            if a.ws == () and a is s.eng.bases.get(k): continue
            b = s.subst(a, sub)
            if b is not a: ch[k] = b
        if not ch: return mem
        m = dict(mem); m.update(ch)
        return m
    # -- free variables (to decide loop invariance)
    def terms(s, v, out):
        if isz(v): out.append(v)
        elif isinstance(v, PtrV):
            s.terms(v.ref, out)
            for x in v.path:
                if not isinstance(x, str): s.terms(x[1], out)
        elif isinstance(v, SliceV): [s.terms(x, out) for x in (v.b, v.o, v.l)]
        elif isinstance(v, (MapV, ChanV)): s.terms(v.ref, out)
        elif isinstance(v, FuncV): s.terms(v.ref, out); [s.terms(x, out) for x in v.bind]
        elif isinstance(v, IfV): s.terms(v.v if v.tn else v.term, out)
        elif isinstance(v, StructV): [s.terms(x, out) for x in v.fs]
        elif isinstance(v, TupV): [s.terms(x, out) for x in v.vs]
        elif isinstance(v, ArrV): s.terms(v.row, out)
        elif isinstance(v, ExtV): s.terms(v.x, out)
        elif isinstance(v, BytesV): s.terms((v.row, v.lo, v.hi), out)
        elif isinstance(v, Cond2): s.terms((v.c, v.a, v.b), out)
        elif isinstance(v, ChV): s.cterms(v.ch, out)
        elif isinstance(v, SArr):
            x = v.ws
            while x: s.terms(x[0], out); s.terms(x[1], out); x = x[2]
            for b in v.base or []: s.terms(b, out)
            if getattr(v, 'chunks', None): s.cterms(v.chunks, out)
        elif isinstance(v, (tuple, list)): [s.terms(x, out) for x in v]
    def cterms(s, ch, out):
        for c in ch:
            k = c[0]
            if k == 'BE': s.terms(c[2], out)
            elif k == 'ARR': s.terms((c[1], c[2], c[3]), out)
            elif k in ('APP', 'EV'):
                s.terms(c[2], out)
                if len(c) > 3 and c[3] is not None: s.memterms(c[3], out)
            elif k == 'COND': s.terms(c[1], out); s.cterms(c[2], out); s.cterms(c[3], out)
            elif k == 'CAT':
                s.terms((c[1], c[2]), out); s.cterms(c[3](s.dummy()), out)
            elif k == 'U': out.append(z3.Int('U:' + c[1]))
    def memterms(s, mem, out):
        for k, a in mem.items():
            if a is s.eng.bases.get(k): continue
            s.terms(a, out)
    def dummy(s): return z3.Int('dummy!i')
    # -- length
    def blen(s, st, ch):
        n = 0
        for c in ch: n = add(n, s.clen(st, c))
        return n
    def clen(s, st, c):
        k = c[0]
        if k == 'BE': return c[1]
        if k == 'ARR': return sub(c[3], c[2])
        if k == 'EV': return 1
        if k == 'U':
            t = z3.Int('blen:' + c[1]); st.fact(t >= 0); return t
        if k == 'APP':
            ts = []; s.terms(c[2], ts)
            ts = [x for x in ts]
            shape = s.key(c[2], ts)
            mem = None
            if len(c) > 3 and c[3] is not None:
                import spec
                mem = 'entry' if spec.memclean(s.eng, c[3]) and spec.oldargs(s.eng, st, c[2]) else spec.memkey(s.eng, c[3])
            key = (c[1], shape, mem)
            f = s.apps.get(key)
            if f is None: f = s.apps[key] = z3.Function('blen_%s_%d' % (c[1], len(s.apps)), *[x.sort() for x in ts], INT)
            t = f(*ts)
            st.fact(t >= 0)
            s.eng.applen[t.get_id()] = (t, c)
            return t
        if k == 'COND':
            a, b = s.blen(st, c[2]), s.blen(st, c[3])
            if same(a, b): return a
            d = st.decide(c[1])
            if d is not None: return a if d else b
            return simp(z3.If(zb(c[1]), zi(a), zi(b)))
        if k == 'CAT':
            if isc(c[1]) and isc(c[2]) and c[2] - c[1] <= 8:
                r = 0
                for i in range(c[1], c[2]): r = add(r, s.blen(st, c[3](i)))
                return r
            per = s.blen(st, c[3](s.dummy()))
            ts = []; s.terms(per, ts)
            if not any(occurs(s.dummy(), t) for t in ts):       # constant size
                if st.valid(le(c[1], c[2])): return mul(sub(c[2], c[1]), per)
            lo, hi = zi(c[1]), zi(c[2])
            per, sh = s.shifted(per)        # the elements are counted by the index they are read at
            if sh is not None: lo, hi = zi(simp(lo + sh)), zi(simp(hi + sh))
            f = s.sumf(per)
            t = f(lo, hi)
            s.additive(st, f, lo, hi)
            st.fact(z3.Implies(lo >= hi, t == 0)); st.fact(t >= 0)
            # unfold the last element once
            last = z3.substitute(zi(per), (s.dummy(), hi - 1))
            st.fact(z3.Implies(lo < hi, t == f(lo, simp(hi - 1) if not isc(simp(hi - 1)) else zi(simp(hi - 1))) + last))
            first = z3.substitute(zi(per), (s.dummy(), lo))
            st.fact(z3.Implies(lo < hi, t == f(zi(simp(lo + 1)), hi) + first))
            return t
        raise Unsupported('clen ' + k)
    def shifted(s, per):
        d = s.dummy(); seen = set(); offs = []
        def go(t):
            if t.get_id() in seen: return True
            seen.add(t.get_id())
            if not occurs(d, t): return True
            if t.sort() == INT and (t.eq(d) or z3.is_add(t) and any(x.eq(d) for x in t.children())):
                offs.append(t); return True
            return all(go(x) for x in t.children()) if z3.is_app(t) else False
        if not go(zi(per)) or not offs or any(not o.eq(offs[0]) for o in offs) or offs[0].eq(d): return per, None
        sh = z3.simplify(offs[0] - d)
        if occurs(d, sh): return per, None
        return z3.substitute(zi(per), (offs[0], d)), sh
    def additive(s, st, f, lo, hi):
        """sum over [a, c) = sum over [a, b) + sum over [b, c), for the ranges that start together"""
        rs = s.__dict__.setdefault('ranges', {}).setdefault(f.name(), [])
        for a, b in rs[-16:]:
            if a.eq(lo) and not b.eq(hi):
                st.fact(z3.Implies(z3.And(lo <= b, b <= hi), f(lo, hi) == f(lo, b) + f(b, hi)))
                st.fact(z3.Implies(z3.And(lo <= hi, hi <= b), f(lo, b) == f(lo, hi) + f(hi, b)))
        if not any(a.eq(lo) and b.eq(hi) for a, b in rs): rs.append((lo, hi))
    def sumf(s, per):
        k = zi(per).sexpr()
        if k not in s.sums: s.sums[k] = z3.Function('sum!%d' % len(s.sums), INT, INT, INT)
        s.sumpers[str(s.sums[k].name())] = per
        return s.sums[k]
    def sumper(s, u):
        return s.sumpers.get(str(u.decl().name())) if z3.is_app(u) else None
    def key(s, args, hole=None):
        """structural key; with `hole`, z3 terms are replaced by placeholders"""
        out = []
        def go(v):
            if isz(v): out.append('?' if hole is not None else v.sexpr())
            elif isinstance(v, PtrV): out.append(f'P{v.root}'); go(v.ref); [out.append(x) if isinstance(x, str) else go(x[1]) for x in v.path]
            elif isinstance(v, SliceV): out.append(f'S{v.et}'); go(v.b); go(v.o); go(v.l)
            elif isinstance(v, (MapV, ChanV)): out.append(f'M{v.tn}'); go(v.ref)
            elif isinstance(v, FuncV): out.append(f'F{v.name}'); go(v.ref) if v.ref is not None else None; [go(x) for x in v.bind]
            elif isinstance(v, IfV):
                if v.isnil: out.append('nil')
                elif v.tn: out.append('I' + v.tn); go(v.v)
                else: out.append('I'); go(v.term)
            elif isinstance(v, StructV): out.append('T' + v.tn); [go(x) for x in v.fs]
            elif isinstance(v, ExtV): out.append('X' + v.tn); go(v.x)
            elif isinstance(v, TupV): out.append('('); [go(x) for x in v.vs]; out.append(')')
            elif isinstance(v, ArrV): go(v.row)
            elif isinstance(v, BytesV): out.append('B'); go(v.row); go(v.lo); go(v.hi)
            elif isinstance(v, Cond2): out.append('C'); go(v.c); go(v.a); go(v.b)
            elif isinstance(v, SArr):
                out.append('A')
                x = v.ws
                while x: go(x[0]); go(x[1]); x = x[2]
                for b in v.base or []: go(b)
            elif isinstance(v, (tuple, list)):
                out.append('('); [go(x) for x in v]; out.append(')')
            else: out.append(repr(v))
        go(args)
        return '|'.join(out)
    # -- equality: returns list of (guard facts, condition) conjuncts or raises Mismatch
    def unfold(s, st, c):
        f = s.specs.get(c[1])
        if f is None: return None
        return s.eng.unfold_spec(st, c)

class Mismatch(Exception):
    pass

def occurs(v, t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        st += x.children()
        if z3.is_quantifier(x): st.append(x.body())
    return False
def consts(t, acc=None):
    acc = {} if acc is None else acc
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc['f:' + x.decl().name()] = x
        st += x.children()
        if z3.is_quantifier(x): st.append(x.body())
    return acc

def flat(ch):
    r = []
    work = list(ch); work.reverse()
    while work:
        c = work.pop()
        if c[0] == 'ARR' and getattr(c[1], 'chunks', None) is not None and same(c[2], 0) and same(c[3], c[1].clen):
            work += list(reversed(c[1].chunks)); continue
        if c[0] == 'ARR' and same(c[2], c[3]): continue
        if c[0] == 'ARR' and r and r[-1][0] == 'ARR' and r[-1][1].same(c[1]) and same(r[-1][3], c[2]):
            r[-1] = ('ARR', c[1], r[-1][2], c[3]); continue
        if c[0] == 'CAT' and isc(c[1]) and isc(c[2]) and c[1] >= c[2]: continue
        if c[0] == 'BE' and c[1] == 0: continue
        r.append(c)
    return r

class Eq:
    """prove chunk list A == B in state st. prove(st2, cond, why) is called for each side condition."""
    def __init__(s, S, depth=0): s.S = S; s.why = None; s.steps = 0
    def decide(s, st, A, B):
        """are the streams equal: first without the quantified facts of the path, then with them"""
        if st.sat() is False: return True
        r = s.run(st.fork(), list(A), list(B))
        if r or not st.hasq(): return r
        if st.sat(full=True) is False: return True
        eng = st.eng; eng.fullmode = True
        try:
            s.steps = 0
            return s.run(st.fork(), list(A), list(B))
        finally: eng.fullmode = False
    def run(s, st, A, B, depth=0, und={}):
        s.steps += 1; und = dict(und)
        if depth > 60 or s.steps > 4000: s.why = 'too deep'; return False
        S = s.S
        A, B = flat(A), flat(B)
        while True:
            if not A and not B: return True
            if not A or not B:
                rest = A or B
                # remaining chunks must be empty
                c = rest[0]
                if c[0] == 'APP':
                    u = s.unfold(st, c, und)
                    if u is not None:
                        rest = u + rest[1:]
                        A, B = (rest, []) if A else ([], rest)
                        continue
                if c[0] == 'COND': return s.split(st, c, A, B, depth, und)
                if c[0] in ('ARR', 'CAT'):
                    e = le(c[3], c[2]) if c[0] == 'ARR' else le(c[2], c[1])
                    if st.valid(e):
                        if A: A = A[1:]
                        else: B = B[1:]
                        continue
                s.why = f'extra {"actual" if A else "expected"} {show(rest)}'
                return False
            a, b = A[0], B[0]
            ka, kb = a[0], b[0]
            # identical
            if ka == kb == 'U':
                if a[1] == b[1]: A, B = A[1:], B[1:]; continue
                s.why = f'{a[1]} vs {b[1]}'; return False
            if ka == 'COND': return s.split(st, a, A, B, depth, und)
            if kb == 'COND': return s.split(st, b, A, B, depth, und)
            if ka == kb == 'APP' and a[1] == b[1]:
                eq = S.eng.argseq(st, a, b)
                if eq is True or (eq is not False and eq is not None and st.valid(eq)): A, B = A[1:], B[1:]; continue
            if ka == kb == 'CAT':
                r = s.cats(st, a, b, depth)
                if r: A, B = A[1:], B[1:]; continue
            # empties
            if ka in ('ARR', 'CAT') and st.valid(le(a[3], a[2]) if ka == 'ARR' else le(a[2], a[1])): A = A[1:]; continue
            if kb in ('ARR', 'CAT') and st.valid(le(b[3], b[2]) if kb == 'ARR' else le(b[2], b[1])): B = B[1:]; continue
            if ka == kb == 'CAT':
                # different numbers of elements: split the longer one
                la, lb = sub(a[2], a[1]), sub(b[2], b[1])
                d = st.decide(le(la, lb)) if not st.valid(simp(zi(la) == zi(lb))) else None
                if d is True:
                    m = add(b[1], la)
                    if s.cats(st, a, ('CAT', b[1], m, b[3]), depth): A, B = A[1:], [('CAT', m, b[2], b[3])] + B[1:]; continue
                elif d is False:
                    m = add(a[1], lb)
                    if s.cats(st, ('CAT', a[1], m, a[3]), b, depth): A, B = [('CAT', m, a[2], a[3])] + A[1:], B[1:]; continue
            if kb == 'APP':
                u = s.unfold(st, b, und)
                if u is not None: B = flat(u + B[1:]); continue
            if ka == 'APP':
                u = s.unfold(st, a, und)
                if u is not None: A = flat(u + A[1:]); continue
            if ka == 'CAT' or kb == 'CAT':
                # peel the first element
                x = a if ka == 'CAT' else b
                d = st.decide(lt(x[1], x[2]))
                if d is None:
                    ok = True
                    for c in (lt(x[1], x[2]), le(x[2], x[1])):
                        st2 = st.fork(); st2.fact(c)
                        if st2.sat() is False: continue
                        ok = ok and s.run(st2, A, B, depth + 1, und)
                        if not ok: break
                    return ok
                u = list(x[3](x[1])) + [('CAT', add(x[1], 1), x[2], x[3])]
                if ka == 'CAT': A = flat(u + A[1:])
                else: B = flat(u + B[1:])
                depth += 1
                if depth > 60: s.why = 'too deep'; return False
                continue
            if ka == 'EV' or kb == 'EV':
                if ka != kb or a[1] != b[1]: s.why = f'event {show([a])} vs {show([b])}'; return False
                eq = S.eng.eveq(st, a, b)
                if eq is True or (eq is not False and st.valid(eq)): A, B = A[1:], B[1:]; continue
                s.why = f'event arguments differ ({S.eng.cache.pop("evwhy", "")}): {show([a])} vs {show([b])}'; s.badst = st; s.badc = eq; return False
            if ka == 'BE' and kb == 'BE':
                n, m = a[1], b[1]
                if n == m:
                    c = simp(zi(a[2]) == zi(b[2]))
                    if st.valid(c): A, B = A[1:], B[1:]; continue
                    s.why = f'byte group of {n}: {a[2]} vs {b[2]}'; s.badst = st; s.badc = c; return False
                if n < m: B = list(splitbe(b, n)) + B[1:]
                else: A = list(splitbe(a, m)) + A[1:]
                continue
            if ka == 'ARR' and kb == 'ARR':
                la, lb = sub(a[3], a[2]), sub(b[3], b[2])
                if same(la, lb) or st.valid(simp(zi(la) == zi(lb))):
                    if s.rows(st, a, b): A, B = A[1:], B[1:]; continue
                    s.why = f'content differs: {show([a])} vs {show([b])}'; return False
                d = st.decide(le(la, lb))
                if d is None:
                    ok = True
                    for c in (lt(la, lb), simp(zi(la) == zi(lb)), lt(lb, la)):
                        st2 = st.fork(); st2.fact(c)
                        if st2.sat() is False: continue
                        ok = ok and s.run(st2, A, B, depth + 1, und)
                        if not ok: break
                    return ok
                if d: B = [('ARR', b[1], b[2], add(b[2], la)), ('ARR', b[1], add(b[2], la), b[3])] + B[1:]
                else: A = [('ARR', a[1], a[2], add(a[2], lb)), ('ARR', a[1], add(a[2], lb), a[3])] + A[1:]
                continue
            if {ka, kb} == {'ARR', 'BE'}:
                x, y = (a, b) if ka == 'ARR' else (b, a)
                l = sub(x[3], x[2])
                if not st.valid(le(1, l)):
                    if st.valid(le(l, 0)):
                        continue
                    ok = True
                    for c in (le(1, l), le(l, 0)):
                        st2 = st.fork(); st2.fact(c)
                        if st2.sat() is False: continue
                        ok = ok and s.run(st2, A, B, depth + 1, und)
                        if not ok: break
                    return ok
                byte = ('BE', 1, x[1].read(st, x[2]))
                u = [byte, ('ARR', x[1], add(x[2], 1), x[3])]
                if ka == 'ARR': A = u + A[1:]
                else: B = u + B[1:]
                if isc(l) and l == 1:
                    A, B = flat(A), flat(B)
                continue
            s.why = f'{show(A[:2])} vs {show(B[:2])}'
            return False
    def unfold(s, st, c, und):
        """unfold a specification function; at most 4 times on a path when its case distinction is not decided"""
        u = s.S.unfold(st, c)
        if u is not None and any(x[0] == 'COND' for x in u) and not all(st.decide(x[1]) is not None for x in u if x[0] == 'COND'):
            if und.get(c[1], 0) >= 4: s.why = 'unfolding of ' + c[1]; return None
            und[c[1]] = und.get(c[1], 0) + 1
        return u
    def split(s, st, c, A, B, depth, und={}):
        d = st.decide(c[1])
        def rep(L, pick): return flat((list(c[2] if pick else c[3]) + L[1:]) if L and L[0] is c else L)
        if d is not None: return s.run(st, rep(A, d), rep(B, d), depth + 1, und)
        for pick in (True, False):
            st2 = st.fork(); st2.fact(c[1] if pick else not_(c[1]))
            if st2.sat() is False: continue
            if not s.run(st2, rep(A, pick), rep(B, pick), depth + 1, und): return False
        return True
    def cats(s, st, a, b, depth):
        if not (st.valid(simp(zi(a[1]) == zi(b[1]))) and st.valid(simp(zi(a[2]) == zi(b[2])))):
            # same count, shifted index
            if not st.valid(simp(zi(sub(a[2], a[1])) == zi(sub(b[2], b[1])))): return False
        i = fresh('ci', INT)
        st2 = st.fork(); st2.fact(and_(le(0, i), lt(i, sub(a[2], a[1]))))
        if st2.sat() is False: return True
        return s.run(st2, list(a[3](add(a[1], i))), list(b[3](add(b[1], i))), depth + 1)
    def rows(s, st, a, b):
        l = sub(a[3], a[2])
        if a[1].same(b[1]) and (same(a[2], b[2]) or st.valid(simp(zi(a[2]) == zi(b[2])))): return True
        if isc(l) and l <= 64:
            for i in range(l):
                if not st.valid(simp(zi(a[1].read(st, add(a[2], i))) == zi(b[1].read(st, add(b[2], i))))): return False
            return True
        i = fresh('ri', INT)
        st2 = st.fork(); st2.fact(and_(le(0, i), lt(i, l)))
        if st2.sat() is False: return True
        return st2.valid(simp(zi(a[1].read(st2, add(a[2], i))) == zi(b[1].read(st2, add(b[2], i)))))

def splitbe(c, n):
    m = c[1]
    k = 1 << (8 * (m - n))
    return ('BE', n, ediv(c[2], k)), ('BE', m - n, emod(c[2], k))

def show(ch):
    r = []
    for c in ch:
        k = c[0]
        if k == 'BE': r.append(f'BE{c[1]}({str(c[2])[:80]})')
        elif k == 'ARR': r.append(f'ARR[{str(c[2])[:40]}..{str(c[3])[:60]})')
        elif k == 'U': r.append(c[1])
        elif k == 'APP': r.append(f'{c[1]}({str(c[2])[:120]})')
        elif k == 'COND': r.append(f'COND({str(c[1])[:60]} ? {show(c[2])} : {show(c[3])})')
        elif k == 'CAT': r.append(f'CAT({c[1]},{c[2]},...)')
        elif k == 'EV': r.append(f'EV {c[1]}({str(c[2])[:200]})')
    return ' ++ '.join(r)
