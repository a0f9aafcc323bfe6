"""Models of the github.com/emirpasic/gods containers used by the repository (trusted).
A linked map/set is a window [lo, lo+n) of a key row plus the position, membership and value of every key;
a singly linked list is a window of a value row."""
import z3
from core import *
from state import *
import engine as E, lib
from lib import MODELS, model, retuple
import spec as SP
G = 'github.com/emirpasic/gods/'
LH, SL, IT = 'gods.linked', 'gods.list', 'gods.iter'
OBJS = {LH: [('lo', 'int', 1), ('n', 'int', 1), ('e', 'int', 2), ('pos', 'int', 2), ('dom', 'bool', 2), ('val', 'any', 2)],
        SL: [('lo', 'int', 1), ('n', 'int', 1), ('e', 'any', 2)]}
def rd(st, root, f, ref, *ix):
    t = {'val': 'any', 'dom': 'bool'}.get(f, 'any' if root == SL and f == 'e' else 'int')
    return st.comp((root, (f,)), t, 1 + (f in ('e', 'pos', 'dom', 'val'))).read(st, ref, *ix)
def wr(st, root, f, v, ref, *ix):
    key = (root, (f,))
    t = {'val': 'any', 'dom': 'bool'}.get(f, 'any' if root == SL and f == 'e' else 'int')
    a = st.comp(key, t, 1 + (f in ('e', 'pos', 'dom', 'val')))
    st.mem[key] = a.write(st, [ref] + list(ix), v); st.wlog = ((key, (ref,) + ix), st.wlog)
def size(st, root, ref):
    n = rd(st, root, 'n', ref)
    if isz(n): st.fact(z3.And(n >= 0, n <= BIG))
    return n
def key(eng, st, v): return eng.mkey(st, v, 'any')
def wfkey(eng, st, r, k):
    """model invariant of one key"""
    lo, n = rd(st, LH, 'lo', r), size(st, LH, r)
    p = rd(st, LH, 'pos', r, k)
    st.fact(implies(rd(st, LH, 'dom', r, k), and_(le(lo, p), lt(p, add(lo, n)), eng.w.eq(rd(st, LH, 'e', r, p), k, 'int'))))
def keyat(eng, st, r, i):
    lo, n = rd(st, LH, 'lo', r), size(st, LH, r)
    k = rd(st, LH, 'e', r, add(lo, i))
    st.fact(implies(and_(le(0, i), lt(i, n)), and_(rd(st, LH, 'dom', r, k), eng.w.eq(rd(st, LH, 'pos', r, k), add(lo, i), 'int'))))
    return k
def hasite(t):
    return any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in subterms(t))
def forall1(x, body, pat): return z3.ForAll([x], body) if hasite(pat) else z3.ForAll([x], body, patterns=[pat])
def wfall(eng, st, r, to=None):
    row = lambda f, t: st.comp((LH, (f,)), t, 2).row(st, r).toz3(eng.w)
    to = to or st
    dom, pos, e = row('dom', 'bool'), row('pos', 'int'), row('e', 'int')
    lo, n = zi(rd(st, LH, 'lo', r)), zi(size(st, LH, r))
    x = z3.Int('x!lh')
    to.fact(forall1(x, z3.Implies(dom[x], z3.And(lo <= pos[x], pos[x] < lo + n, e[pos[x]] == x)), dom[x]))
    to.fact(forall1(x, z3.Implies(z3.And(lo <= x, x < lo + n), z3.And(dom[e[x]], pos[e[x]] == x)), e[x]))
def newobj(st, root):
    r = st.newref()
    for f in ('lo', 'n'): wr(st, root, f, 0, r)
    if root == LH:
        k = (LH, ('dom',)); st.mem[k] = st.comp(k, 'bool', 2).write(st, [r], SArr('bool', 1, None, dflt=False)); st.wlog = ((k, (r,)), st.wlog)
    return r
def put(eng, st, r, k, v=None):
    """append the key when it is new; a list of states"""
    d = st.decide(rd(st, LH, 'dom', r, k)); out = []
    wfkey(eng, st, r, k)
    for has in ((True, False) if d is None else (d,)):
        s2 = st.fork() if d is None else st
        c = rd(s2, LH, 'dom', r, k)
        if d is None: s2.fact(c if has else not_(c), True)
        if not has:
            at = add(rd(s2, LH, 'lo', r), size(s2, LH, r))
            wr(s2, LH, 'e', k, r, at); wr(s2, LH, 'pos', at, r, k); wr(s2, LH, 'dom', True, r, k)
            wr(s2, LH, 'n', add(size(s2, LH, r), 1), r)
        if v is not None: wr(s2, LH, 'val', v, r, k)
        out.append(s2)
    return out
def shifted(eng, st, key_, ref, cut, t):
    """row with the entry at index cut removed (later ones move down)"""
    a = st.comp(key_, t, 2); rows = a.row(st, ref).comps(eng.w)
    r1 = eng.fresharr(key_, t, 1, st.cnt); j = z3.Int('j!rm')
    for b, r0 in zip(r1.base, rows):
        st.fact(z3.ForAll([j], b[j] == z3.If(j < zi(cut), r0[j], r0[j + 1]), patterns=[b[j]]))
        if not hasite(r0): st.fact(z3.ForAll([j], z3.And(z3.Implies(j < zi(cut), b[j] == r0[j]), z3.Implies(j > zi(cut), b[j - 1] == r0[j])), patterns=[r0[j]]))
    st.mem[key_] = a.write(st, [ref], r1); st.wlog = ((key_, (ref,)), st.wlog)
def remove(eng, st, r, k):
    d = st.decide(rd(st, LH, 'dom', r, k)); out = []
    wfkey(eng, st, r, k)
    for has in ((True, False) if d is None else (d,)):
        s2 = st.fork() if d is None else st
        c = rd(s2, LH, 'dom', r, k)
        if d is None: s2.fact(c if has else not_(c), True)
        if has:
            eng.w.cur = s2
            lo, n, p = rd(s2, LH, 'lo', r), size(s2, LH, r), rd(s2, LH, 'pos', r, k)
            if s2.decide(eng.w.eq(p, lo, 'int')) is True: wr(s2, LH, 'lo', add(lo, 1), r)
            elif s2.decide(eng.w.eq(p, add(lo, sub(n, 1)), 'int')) is True: pass
            else:
                shifted(eng, s2, (LH, ('e',)), r, p, 'int')
                kp = (LH, ('pos',)); a = s2.comp(kp, 'int', 2); p0 = a.row(s2, r).toz3(eng.w)
                p1 = eng.fresharr(kp, 'int', 1, s2.cnt); b = p1.base[0]; j = z3.Int('j!rm')
                s2.fact(z3.ForAll([j], b[j] == z3.If(p0[j] > zi(p), p0[j] - 1, p0[j]), patterns=[b[j]]))
                s2.mem[kp] = a.write(s2, [r], p1); s2.wlog = ((kp, (r,)), s2.wlog)
            wr(s2, LH, 'n', sub(n, 1), r); wr(s2, LH, 'dom', False, r, k)
        out.append(s2)
    eng.w.cur = st
    return out
def each(eng, st, sl, f):
    """run f(state, element) over a variadic slice of known length"""
    if not isc(sl.l): raise Unsupported('variadic call with a slice of unknown length')
    sts = [st]
    for j in range(sl.l):
        nx = []
        for s2 in sts:
            eng.w.cur = s2
            nx += f(s2, s2.load(s2.elemptr(sl, j), sl.et))
        sts = nx
    return [(s2, None) for s2 in sts]
def nn(eng, st, a): return eng.nilcheck(st, a[0], 'nil container')

MP, ST, LS = '(*' + G + 'maps/linkedhashmap.Map).', '(*' + G + 'sets/linkedhashset.Set).', '(*' + G + 'lists/singlylinkedlist.List).'
@model(G + 'maps/linkedhashmap.New')
def m1(eng, st, a): return PtrV(G + 'maps/linkedhashmap.Map', newobj(st, LH))
@model(G + 'sets/linkedhashset.New')
def m2(eng, st, a):
    r = newobj(st, LH); p = PtrV(G + 'sets/linkedhashset.Set', r)
    return [(s2, p) for s2, _ in each(eng, st, a[0], lambda s2, x: put(eng, s2, r, key(eng, s2, x)))]
@model(MP + 'Size', ST + 'Size')
def m3(eng, st, a): return size(st, LH, a[0].ref) if nn(eng, st, a) else []
@model(MP + 'Empty', ST + 'Empty')
def m3e(eng, st, a): return eng.w.eq(size(st, LH, a[0].ref), 0, 'int') if nn(eng, st, a) else []
@model(MP + 'Put')
def m4(eng, st, a):
    if not nn(eng, st, a): return []
    return [(s2, None) for s2 in put(eng, st, a[0].ref, key(eng, st, a[1]), a[2])]
@model(MP + 'Get')
def m5(eng, st, a):
    if not nn(eng, st, a): return []
    r, k = a[0].ref, key(eng, st, a[1])
    wfkey(eng, st, r, k)
    v = eng.w.ite(rd(st, LH, 'dom', r, k), rd(st, LH, 'val', r, k), NILI, 'any')
    return retuple(v, not_(eng.w.ifeq(v, NILI)))
@model(MP + 'Remove')
def m6(eng, st, a):
    if not nn(eng, st, a): return []
    return [(s2, None) for s2 in remove(eng, st, a[0].ref, key(eng, st, a[1]))]
@model(MP + 'Clear', ST + 'Clear')
def m7(eng, st, a):
    if not nn(eng, st, a): return []
    r = a[0].ref; wr(st, LH, 'n', 0, r)
    k = (LH, ('dom',)); st.mem[k] = st.comp(k, 'bool', 2).write(st, [r], SArr('bool', 1, None, dflt=False)); st.wlog = ((k, (r,)), st.wlog)
    return None
def listing(eng, st, r, f):
    """new slice s with s[i] = f(i)"""
    n = size(st, LH, r)
    sl = st.newslice('any', None, n)
    x = eng.fresharr(('lst', ()), 'any', 1, st.cnt); j = z3.Int('j!ls')
    st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), x.base[0][j] == f(j)), patterns=[x.base[0][j]]))
    st.setrow(sl, x)
    return sl
@model(MP + 'Values')
def m8(eng, st, a):
    if not nn(eng, st, a): return []
    r = a[0].ref; wfall(eng, st, r)
    e, lo = st.comp((LH, ('e',)), 'int', 2).row(st, r).toz3(eng.w), rd(st, LH, 'lo', r)
    v = st.comp((LH, ('val',)), 'any', 2).row(st, r).toz3(eng.w)
    return listing(eng, st, r, lambda j: v[e[j + zi(lo)]])
@model(MP + 'Keys', ST + 'Values')
def m9(eng, st, a):
    if not nn(eng, st, a): return []
    r = a[0].ref; wfall(eng, st, r)
    e, lo = st.comp((LH, ('e',)), 'int', 2).row(st, r).toz3(eng.w), rd(st, LH, 'lo', r)
    g = z3.Function('kinv_I', INT, I)
    return listing(eng, st, r, lambda j: g(e[j + zi(lo)]))
@model(MP + 'Iterator', ST + 'Iterator')
def m10(eng, st, a):
    if not nn(eng, st, a): return []
    it = st.newref()
    wr(st, IT, 'map', a[0].ref, it); wr(st, IT, 'idx', -1, it)
    return ExtV((MP if 'hashmap' in a[0].et else ST)[2:-2].rsplit('.', 1)[0] + '.Iterator', it)
IM, IS = '(*' + G + 'maps/linkedhashmap.Iterator).', '(*' + G + 'sets/linkedhashset.Iterator).'
def itobj(eng, st, p):
    v = st.load(p, p.et)
    return v.x
@model(IM + 'Next', IS + 'Next')
def m11(eng, st, a):
    it = itobj(eng, st, a[0]); r, i = rd(st, IT, 'map', it), rd(st, IT, 'idx', it)
    n = size(st, LH, r)
    wr(st, IT, 'idx', eng.ite_int(lt(i, n), add(i, 1), i), it)
    return lt(rd(st, IT, 'idx', it), n)
@model(IM + 'Key', IS + 'Value')
def m12(eng, st, a):
    it = itobj(eng, st, a[0]); r, i = rd(st, IT, 'map', it), rd(st, IT, 'idx', it)
    if not eng.panic_unless(st, and_(le(0, i), lt(i, size(st, LH, r))), 'iterator without element'): return []
    return eng.unkey(st, zi(keyat(eng, st, r, i)), 'any')
@model(IM + 'Value')
def m12v(eng, st, a):
    it = itobj(eng, st, a[0]); r, i = rd(st, IT, 'map', it), rd(st, IT, 'idx', it)
    if not eng.panic_unless(st, and_(le(0, i), lt(i, size(st, LH, r))), 'iterator without element'): return []
    return rd(st, LH, 'val', r, keyat(eng, st, r, i))
@model(ST + 'Add')
def m13(eng, st, a):
    if not nn(eng, st, a): return []
    return each(eng, st, a[1], lambda s2, x: put(eng, s2, a[0].ref, key(eng, s2, x)))
@model(ST + 'Remove')
def m14(eng, st, a):
    if not nn(eng, st, a): return []
    return each(eng, st, a[1], lambda s2, x: remove(eng, s2, a[0].ref, key(eng, s2, x)))
@model(ST + 'Contains')
def m15(eng, st, a):
    if not nn(eng, st, a): return []
    if not isc(a[1].l): raise Unsupported('variadic call with a slice of unknown length')
    cs = []
    for j in range(a[1].l):
        k = key(eng, st, st.load(st.elemptr(a[1], j), a[1].et)); wfkey(eng, st, a[0].ref, k)
        cs.append(rd(st, LH, 'dom', a[0].ref, k))
    return and_(*cs)
# ---------------------------------------------------------------- singly linked list
@model(G + 'lists/singlylinkedlist.New')
def l1(eng, st, a):
    r = newobj(st, SL); p = PtrV(G + 'lists/singlylinkedlist.List', r)
    return [(s2, p) for s2, _ in each(eng, st, a[0], lambda s2, x: append(s2, r, x))]
def append(st, r, x):
    n = size(st, SL, r); wr(st, SL, 'e', x, r, add(rd(st, SL, 'lo', r), n)); wr(st, SL, 'n', add(n, 1), r)
    return [st]
@model(LS + 'Append', LS + 'Add')
def l2(eng, st, a):
    if not nn(eng, st, a): return []
    return each(eng, st, a[1], lambda s2, x: append(s2, a[0].ref, x))
@model(LS + 'Size')
def l3(eng, st, a): return size(st, SL, a[0].ref) if nn(eng, st, a) else []
@model(LS + 'Empty')
def l3e(eng, st, a): return eng.w.eq(size(st, SL, a[0].ref), 0, 'int') if nn(eng, st, a) else []
@model(LS + 'Clear')
def l4(eng, st, a):
    if not nn(eng, st, a): return []
    wr(st, SL, 'n', 0, a[0].ref)
@model(LS + 'Get')
def l5(eng, st, a):
    if not nn(eng, st, a): return []
    r, i = a[0].ref, a[1]
    ok = and_(le(0, i), lt(i, size(st, SL, r)))
    return retuple(eng.w.ite(ok, rd(st, SL, 'e', r, add(rd(st, SL, 'lo', r), i)), NILI, 'any'), ok)
@model(LS + 'Remove')
def l6(eng, st, a):
    if not nn(eng, st, a): return []
    r, i = a[0].ref, a[1]
    ok = and_(le(0, i), lt(i, size(st, SL, r)))
    d = st.decide(ok); out = []
    for pick in ((True, False) if d is None else (d,)):
        s2 = st.fork() if d is None else st
        if d is None: s2.fact(ok if pick else not_(ok), True)
        if pick:
            eng.w.cur = s2
            lo, n = rd(s2, SL, 'lo', r), size(s2, SL, r)
            if s2.decide(eng.w.eq(i, 0, 'int')) is True: wr(s2, SL, 'lo', add(lo, 1), r)
            elif s2.decide(eng.w.eq(i, sub(n, 1), 'int')) is True: pass
            else: shifted(eng, s2, (SL, ('e',)), r, add(lo, i), 'any')
            wr(s2, SL, 'n', sub(n, 1), r)
        out.append((s2, None))
    eng.w.cur = st
    return out
@model(LS + 'IndexOf')
def l7(eng, st, a):
    if not nn(eng, st, a): return []
    r, t = a[0].ref, eng.w.ifterm(a[1])
    n, lo = size(st, SL, r), rd(st, SL, 'lo', r)
    e = st.comp((SL, ('e',)), 'any', 2).row(st, r).toz3(eng.w)
    i = fresh('ix', INT); j = z3.Int('j!ix')
    st.fact(z3.And(i >= -1, i < zi(n), z3.Implies(i >= 0, e[zi(lo) + i] == t)))
    st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= zi(lo), j < zi(lo) + z3.If(i >= 0, i, zi(n))), e[j] != t), patterns=[e[j]]))
    return i

# ---------------------------------------------------------------- vocabulary
def s_lksize(p): return size(SP.CTX.st, LH, p.ref)
def s_lkhas(p, k):
    eng, st = SP.CTX.eng, SP.CTX.st
    ki = key(eng, st, k); c = rd(st, LH, 'dom', p.ref, ki)
    if SP.CTX.outer is None: wfkey(eng, st, p.ref, ki)
    else: wfall(eng, st, p.ref, SP.CTX.outer)
    return c
def s_lkval(p, k): return rd(SP.CTX.st, LH, 'val', p.ref, key(SP.CTX.eng, SP.CTX.st, k))
def s_lkkey(p, i):
    """i-th oldest key"""
    eng, st = SP.CTX.eng, SP.CTX.st
    if SP.CTX.outer is not None: wfall(eng, st, p.ref, SP.CTX.outer)
    return eng.unkey(st, zi(keyat(eng, st, p.ref, i)), 'any')
def s_lkpos(p, k):
    st = SP.CTX.st
    return sub(rd(st, LH, 'pos', p.ref, key(SP.CTX.eng, st, k)), rd(st, LH, 'lo', p.ref))
def s_allkeys(f):
    return SP.quant(lambda x: z3.BoolVal(True), lambda x: f(SP.CTX.eng.unkey(SP.CTX.st, x, 'any')))
def slrow(p):
    st, w = SP.CTX.st, SP.CTX.eng.w
    return st.comp((SL, ('e',)), 'any', 2).row(st, p.ref).toz3(w), zi(rd(st, SL, 'lo', p.ref)), zi(rd(st, SL, 'lo', p.ref)) + zi(size(st, SL, p.ref))
def s_sldistinct(p):
    e, lo, hi = slrow(p); a, b = fresh('sa', INT), fresh('sb', INT)
    return z3.ForAll([a, b], z3.Implies(z3.And(lo <= a, a < hi, lo <= b, b < hi, e[a] == e[b]), a == b), **({} if hasite(e) else dict(patterns=[z3.MultiPattern(e[a], e[b])])))
def s_slall(p, f):
    e, lo, hi = slrow(p)
    return SP.quant(lambda x: z3.And(lo <= x, x < hi), lambda x: f(rd(SP.CTX.st, SL, 'e', p.ref, x)))
def s_slin(p, v):
    e, lo, hi = slrow(p); a = fresh('sx', INT)
    return z3.Exists([a], z3.And(lo <= a, a < hi, e[a] == SP.CTX.eng.w.ifterm(v)))
def s_slsize(p): return size(SP.CTX.st, SL, p.ref)
def s_slat(p, i): return rd(SP.CTX.st, SL, 'e', p.ref, add(rd(SP.CTX.st, SL, 'lo', p.ref), i))
SP.BASE_ENV.update(lksize=s_lksize, lkhas=s_lkhas, lkval=s_lkval, lkkey=s_lkkey, lkpos=s_lkpos, allkeys=s_allkeys, slsize=s_slsize, sldistinct=s_sldistinct, slall=s_slall, slin=s_slin, slat=s_slat)
def havocobj(eng, st, root, ref):
    for f, t, dims in OBJS[root]:
        k = (root, (f,)); a = st.comp(k, t, dims)
        if dims == 1:
            import loops
            v = fresh('hv' + f, INT); st.mem[k] = a.write(st, [ref], v)
        else: st.mem[k] = a.write(st, [ref], eng.fresharr(k, t, 1, st.cnt))
        st.wlog = ((k, (ref,)), st.wlog)
def s_lkothers(p, k):
    """the entries of every key but k, and k's presence aside, are as before"""
    eng = SP.CTX.eng; ki = zi(key(eng, SP.CTX.st, k))
    def rows(st): return [st.comp((LH, (f,)), t, 2).row(st, p.ref).toz3(eng.w) for f, t in (('dom', 'bool'), ('val', 'any'))]
    d1, v1 = rows(SP.CTX.st); d0, v0 = SP._old(lambda: rows(SP.CTX.st))
    # under a vacuous quantifier: kept out of quick checks
    return z3.ForAll([z3.Int('x!lo')], z3.And(d1 == z3.Store(d0, ki, d1[ki]), v1 == z3.Store(v0, ki, v1[ki])))
SP.BASE_ENV['lkothers'] = s_lkothers
def s_lksame(p):
    """the container is as before"""
    eng = SP.CTX.eng
    def rows(st): return [st.comp((LH, (f,)), t, 2).row(st, p.ref).toz3(eng.w) for f, t in (('dom', 'bool'), ('val', 'any'))]
    return z3.And(*[x == y for x, y in zip(rows(SP.CTX.st), SP._old(lambda: rows(SP.CTX.st)))])
SP.BASE_ENV['lksame'] = s_lksame
