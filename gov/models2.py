"""Models of container/list, channels, goroutine starts and the observed effects (events)."""
import z3
from core import *
from state import *
from stream import *
import engine as E, lib
from lib import MODELS, model, emit, err, retuple, havocresult
import spec as SP

def chunks_of(eng, st, v):
    """content of a byte slice as a chunk tuple"""
    if isinstance(v, BytesV): c = [('ARR', v.row, v.lo, v.hi)]
    elif isinstance(v, SliceV): c = [('ARR', st.row(v), v.o, add(v.o, v.l))]
    else: c = [('ARR', st.srow(v), 0, st.slen(v))]
    return ChV(flat(c))
def event(eng, st, name, *args):
    emit(st, '$ev', [('EV', name, tuple(args), None)])

# ---------------------------------------------------------------- container/list
# a list is a window [lo, lo+n) of an element row; every element knows its owner and position
L, EL = 'container/list.List', 'container/list.Element'
def lfield(st, l, f): return st.load(PtrV('int', l.ref, L, (f,)), 'int')
def lset(st, l, f, v): st.store(PtrV('int', l.ref, L, (f,)), v, 'int')
def efield(st, e, f): return st.load(PtrV('int', e, EL, (f,)), 'int')
def eset(st, e, f, v): st.store(PtrV('int', e, EL, (f,)), v, 'int')
def llen(eng, st, l):
    n = lfield(st, l, 'n')
    if isz(n): st.fact(z3.And(n >= 0, n <= BIG))
    return n
def erow(st, l): return st.comp((L, ('e',)), 'int', 2).row(st, l.ref)
def lelem(eng, st, l, i, guard=True):
    """element reference at index i (valid when 0 <= i < n)"""
    lo, n = lfield(st, l, 'lo'), llen(eng, st, l)
    e = erow(st, l).read(st, add(lo, i))
    ok = and_(le(0, i), lt(i, n))
    if isz(e):
        st.fact(implies(ok, z3.And(e != 0, zi(efield(st, e, 'pos')) == zi(add(lo, i)), zi(efield(st, e, 'own')) == zi(l.ref))))
    return e
def elemptr(e): return PtrV(EL, e)
def orNil(eng, st, c, e):
    if isz(c):
        d = st.decide(c)
        if d is not None: c = d
    if c is True: return elemptr(e)
    if c is False: return elemptr(0)
    return elemptr(simp(z3.If(c, zi(e), z3.IntVal(0))))
@model('container/list.New')
def m_new(eng, st, a):
    l = PtrV(L, st.newref()); initlist(st, l); return l
def initlist(st, l):
    lset(st, l, 'lo', 0); lset(st, l, 'n', 0)
@model('(*container/list.List).Init')
def m_init(eng, st, a):
    l = a[0]
    if not eng.nilcheck(st, l, 'nil list'): return []
    initlist(st, l)
    return l
@model('(*container/list.List).Len')
def m_len(eng, st, a):
    if not eng.nilcheck(st, a[0], 'nil list'): return []
    return llen(eng, st, a[0])
@model('(*container/list.List).Front')
def m_front(eng, st, a):
    if not eng.nilcheck(st, a[0], 'nil list'): return []
    n = llen(eng, st, a[0])
    return orNil(eng, st, lt(0, n), lelem(eng, st, a[0], 0))
@model('(*container/list.List).Back')
def m_back(eng, st, a):
    if not eng.nilcheck(st, a[0], 'nil list'): return []
    n = llen(eng, st, a[0])
    return orNil(eng, st, lt(0, n), lelem(eng, st, a[0], sub(n, 1)))
def step(eng, st, e, d):
    if not eng.nilcheck(st, e, 'nil list element'): return []
    own, pos = efield(st, e.ref, 'own'), efield(st, e.ref, 'pos')
    l = PtrV(L, own)
    lo, n = lfield(st, l, 'lo'), llen(eng, st, l)
    j = sub(add(pos, d), lo)
    x = lelem(eng, st, l, j)
    return orNil(eng, st, and_(not_(eng.w.eq(own, 0, 'int')), le(0, j), lt(j, n)), x)
@model('(*container/list.Element).Next')
def m_next(eng, st, a): return step(eng, st, a[0], 1)
@model('(*container/list.Element).Prev')
def m_prev(eng, st, a): return step(eng, st, a[0], -1)
def insert(eng, st, l, v, front):
    if not eng.nilcheck(st, l, 'nil list'): return []
    e = st.newref()
    lo, n = lfield(st, l, 'lo'), llen(eng, st, l)
    at = sub(lo, 1) if front else add(lo, n)
    key = (L, ('e',))
    a = st.comp(key, 'int', 2)
    st.mem[key] = a.write(st, [l.ref, at], e); st.wlog = ((key, (l.ref, at)), st.wlog)
    if front: lset(st, l, 'lo', at)
    lset(st, l, 'n', add(n, 1))
    st.store(PtrV('any', e, EL, ('Value',)), v, 'any')
    eset(st, e, 'pos', at); eset(st, e, 'own', l.ref)
    return elemptr(e)
@model('(*container/list.List).PushBack')
def m_pushback(eng, st, a): return insert(eng, st, a[0], a[1], False)
@model('(*container/list.List).PushFront')
def m_pushfront(eng, st, a): return insert(eng, st, a[0], a[1], True)

def detach(eng, st, l, e):
    """remove element e (known to belong to l) from the window of l"""
    lo, n = lfield(st, l, 'lo'), llen(eng, st, l)
    x = e.ref; p = efield(st, x, 'pos')
    wf(eng, st, l, x)
    hi = add(lo, sub(n, 1))
    if st.decide(eng.w.eq(p, hi, 'int')) is True: pass
    elif st.decide(eng.w.eq(p, lo, 'int')) is True: lset(st, l, 'lo', add(lo, 1))
    else:
        import loops
        key = (L, ('e',)); a = st.comp(key, 'int', 2); r0 = a.row(st, l.ref).toz3(eng.w)
        r1 = eng.fresharr(key, 'int', 1, st.cnt); j = z3.Int('j!rm'); b = r1.base[0]
        st.fact(z3.ForAll([j], b[j] == z3.If(j < zi(p), r0[j], r0[j + 1]), patterns=[b[j]]))
        st.mem[key] = a.write(st, [l.ref], r1); st.wlog = ((key, (l.ref,)), st.wlog)
        key = (EL, ('pos',)); a = st.comp(key, 'int', 1); p0 = a.comps(eng.w)[0]
        own = st.comp((EL, ('own',)), 'int', 1).comps(eng.w)[0]
        p1 = eng.fresharr(key, 'int', 1, st.cnt); b = p1.base[0]
        st.fact(z3.ForAll([j], b[j] == z3.If(z3.And(own[j] == zi(l.ref), p0[j] > zi(p)), p0[j] - 1, p0[j]), patterns=[b[j]]))
        st.mem[key] = p1; st.wlog = ((key, None), st.wlog)
    lset(st, l, 'n', sub(n, 1))
    eset(st, x, 'own', 0)
def wf(eng, st, l, x):
    """list model invariant of one element"""
    lo, n = lfield(st, l, 'lo'), llen(eng, st, l)
    p = efield(st, x, 'pos')
    st.fact(implies(eng.w.eq(efield(st, x, 'own'), l.ref, 'int'),
        and_(le(lo, p), lt(p, add(lo, n)), eng.w.eq(erow(st, l).read(st, p), x, 'int'), not_(eng.w.eq(x, 0, 'int')))))
def wfall(eng, st, l, to=None):
    own = st.comp((EL, ('own',)), 'int', 1).comps(eng.w)[0]; pos = st.comp((EL, ('pos',)), 'int', 1).comps(eng.w)[0]
    e = erow(st, l).toz3(eng.w); lo, n = lfield(st, l, 'lo'), llen(eng, st, l)
    x = z3.Int('x!wf')
    import models3
    (to or st).fact(models3.forall1(x, z3.Implies(own[x] == zi(l.ref), z3.And(zi(lo) <= pos[x], pos[x] < zi(lo) + zi(n), e[pos[x]] == x, x != 0)), own[x]))
@model('(*container/list.List).Remove')
def m_remove(eng, st, a):
    l, e = a[0], a[1]
    if not eng.nilcheck(st, l, 'nil list') or not eng.nilcheck(st, e, 'nil list element'): return []
    mine = eng.w.eq(efield(st, e.ref, 'own'), l.ref, 'int')
    d = st.decide(mine)
    out = []
    for pick in ((True, False) if d is None else (d,)):
        s2 = st.fork() if d is None else st
        if d is None: s2.fact(mine if pick else not_(mine), True)
        if pick:
            eng.w.cur = s2; detach(eng, s2, l, e)
        out.append((s2, s2.load(PtrV('any', e.ref, EL, ('Value',)), 'any')))
    eng.w.cur = st
    return out
@model('(*container/list.List).MoveToFront')
def m_movefront(eng, st, a):
    l, e = a[0], a[1]
    if not eng.nilcheck(st, l, 'nil list') or not eng.nilcheck(st, e, 'nil list element'): return []
    mine = eng.w.eq(efield(st, e.ref, 'own'), l.ref, 'int')
    d = st.decide(mine)
    out = []
    for pick in ((True, False) if d is None else (d,)):
        s2 = st.fork() if d is None else st
        if d is None: s2.fact(mine if pick else not_(mine), True)
        if pick:
            eng.w.cur = s2; detach(eng, s2, l, e)
            lo, n = lfield(s2, l, 'lo'), lfield(s2, l, 'n'); at = sub(lo, 1)
            key = (L, ('e',)); r = s2.comp(key, 'int', 2)
            s2.mem[key] = r.write(s2, [l.ref, at], e.ref); s2.wlog = ((key, (l.ref, at)), s2.wlog)
            lset(s2, l, 'lo', at); lset(s2, l, 'n', add(n, 1))
            eset(s2, e.ref, 'pos', at); eset(s2, e.ref, 'own', l.ref)
        out.append((s2, None))
    eng.w.cur = st
    return out

# ---------------------------------------------------------------- channels
def chlen(st, ch): 
    n = st.load(PtrV('int', ch.ref, '$chan', ('n',)), 'int'); c = chcap(st, ch)
    if isz(n): st.fact(and_(le(0, n), le(n, c)))
    return n
def chcap(st, ch):
    c = st.load(PtrV('int', ch.ref, '$chan', ('cap',)), 'int')
    if isz(c): st.fact(z3.And(c >= 0, c <= BIG))
    return c
def chpos(st, ch):
    p = st.load(PtrV('int', ch.ref, '$chan', ('pos',)), 'int')
    if isz(p): st.fact(z3.And(p >= 0, p <= BIG))
    return p
def chval(eng, st, ch, i):
    """the i-th value ever received from the channel"""
    t = eng.p.elem(ch.tn)
    ss = eng.w.nleaves(t)
    ts = [z3.Function('chanval_%s_%d' % (t, j), INT, INT, s_)(zi(ch.ref), zi(i)) for j, s_ in enumerate(ss)]
    v = eng.w.liftdeep(ts, t)[0]
    st.typefacts(v, t)
    return v
def m_recv(eng, st, ch, i):
    if opted(eng, 'nonblocking'): eng.oblige(st, False, 'no-blocking:receive')
    p = chpos(st, ch)
    v = chval(eng, st, ch, p)
    st.store(PtrV('int', ch.ref, '$chan', ('pos',)), add(p, 1), 'int')
    import loops
    n = fresh('chn', INT); st.fact(n >= 0)
    st.store(PtrV('int', ch.ref, '$chan', ('n',)), n, 'int')
    if i.get('commaok') or i.get('ok'): return TupV([v, fresh('ok', BOOL)])
    return v
MODELS['$recv'] = m_recv
def opted(eng, k): return eng.curopts.get(k)
def m_send(eng, st, ch, v, i):
    if opted(eng, 'nonblocking'): eng.oblige(st, False, 'no-blocking:send')
    event(eng, st, 'enqueue', ch, evval(eng, st, v))
    return None
MODELS['$send'] = m_send
def evval(eng, st, v):
    if isinstance(v, SliceV) and v.et == 'uint8': return chunks_of(eng, st, v)
    return v
def m_select(eng, st, i):
    states = i['states']
    if i.get('block') or len(states) != 1 or states[0]['dir'] != 1:
        raise Unsupported('select form')
    s0 = states[0]; ch = eng.val(st, s0['ch']); v = eng.val(st, s0['send'])
    ready = lt(chlen(st, ch), chcap(st, ch))
    d = st.decide(ready)
    out = []
    for pick in ((True, False) if d is None else (d,)):
        s2 = st.fork() if d is None else st
        if d is None: s2.fact(ready if pick else not_(ready), True)
        if pick:
            event(eng, s2, 'enqueue', ch, evval(eng, s2, v))
            s2.store(PtrV('int', ch.ref, '$chan', ('n',)), add(chlen(s2, ch), 1), 'int')
            out.append((s2, TupV([0, False])))
        else: out.append((s2, TupV([-1, False])))
    return out
MODELS['$select'] = m_select
def m_go(eng, st, name, args, fv):
    event(eng, st, 'go ' + (name or '?'), *[evval(eng, st, x) for x in args])
    return None
MODELS['$go'] = m_go

# ---------------------------------------------------------------- observed effects
def o_netwrite(eng, st, name, a):
    event(eng, st, 'datagram', chunks_of(eng, st, a[1]))
    n = fresh('n', INT); st.fact(and_(le(0, n), le(n, a[1].l)))
    return retuple(n, IfV(term=fresh('err', I)))
OBSERVE = {'(*net.conn).Write': o_netwrite}

# ---------------------------------------------------------------- vocabulary
def EV(name, *args):
    vs = []
    for a in args:
        if isinstance(a, SP.Ch): a = ChV(flat(list(a)))
        elif isinstance(a, (BytesV,)) or isinstance(a, SliceV) and a.et == 'uint8': a = chunks_of(SP.CTX.eng, SP.CTX.st, a)
        vs.append(a)
    return SP.Ch([('EV', name.decode(), tuple(vs), None)])
def s_llen(l): return llen(SP.CTX.eng, SP.CTX.st, l)
def s_lat(l, i):
    e = lelem(SP.CTX.eng, SP.CTX.st, l, i)
    return SP.CTX.st.load(PtrV('any', e, EL, ('Value',)), 'any')
def s_lelem(l, i):
    n = llen(SP.CTX.eng, SP.CTX.st, l)
    return orNil(SP.CTX.eng, SP.CTX.st, and_(le(0, i), lt(i, n)), lelem(SP.CTX.eng, SP.CTX.st, l, i))
def s_owned(e, l):
    """element e belongs to list l"""
    eng, st = SP.CTX.eng, SP.CTX.st
    if SP.CTX.outer is None: wf(eng, st, l, e.ref)
    else: wfall(eng, st, l, SP.CTX.outer)
    return eng.w.eq(efield(st, e.ref, 'own'), l.ref, 'int')
def s_forelems(l, f):
    """f(element) for every element of the list"""
    eng = SP.CTX.eng
    wfall(eng, SP.CTX.st, l, SP.CTX.outer)
    own = SP.CTX.st.comp((EL, ('own',)), 'int', 1).comps(eng.w)[0]
    return SP.quant(lambda x: own[x] == zi(l.ref), lambda x: f(elemptr(x)), pat=lambda x: own[x])
def s_anykey(m, f):
    """f(key) for every possible key of the map"""
    eng = SP.CTX.eng; kt, et = eng.mt(m)
    return SP.quant(lambda x: z3.BoolVal(True), lambda x: f(eng.unkey(SP.CTX.st, x, kt)))
def s_eindex(e, l):
    return sub(efield(SP.CTX.st, e.ref, 'pos'), lfield(SP.CTX.st, l, 'lo'))
def s_chlen(c): return chlen(SP.CTX.st, c)
def s_chcap(c): return chcap(SP.CTX.st, c)
def s_chpos(c): return chpos(SP.CTX.st, c)
def s_chval(c, i): return chval(SP.CTX.eng, SP.CTX.st, c, i)
def s_gh(n):
    """ghost variable"""
    import lib
    if n == b'$now': return lib.nowterm(SP.CTX.st)
    r=SP.CTX.st.ghost.get(n.decode())
    k = n.decode()
    if r is None and k in SP.CTX.eng.ghosttypes:      # not set yet: its value at the entry
        e = SP.CTX.eng.__dict__.setdefault('entryghosts', {})
        if k not in e:
            import loops; e[k] = loops.freshval(SP.CTX.eng, SP.CTX.st, SP.CTX.eng.ghosttypes[k], 'entry_' + k.strip('!$'), 0)
        return e[k]
    return z3.Int(n.decode()+'!entry') if r is None and n.startswith((b'$draw', b'!n')) else r
VOCAB = dict(owned=s_owned, forelems=s_forelems, anykey=s_anykey, eindex=s_eindex, EV=EV, llen=s_llen, lat=s_lat, lelem=s_lelem, chlen=s_chlen, chcap=s_chcap, chpos=s_chpos, chval=s_chval, gh=s_gh)
SP.BASE_ENV.update(VOCAB)
