"""Models of the standard library and of foreign packages (the trusted base), stream plumbing."""
import z3, re
from core import *
from state import *
from stream import *
import engine as E

VT = z3.DeclareSort('VTree')
f32bits = z3.Function('f32bits', REAL, INT); f32of = z3.Function('f32of', INT, REAL)
f64bits = z3.Function('f64bits', REAL, INT); f64of = z3.Function('f64of', INT, REAL)
MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

class ChunkRow(SArr):
    """row whose content [0,clen) is a chunk list"""
    __slots__ = ('chunks', 'clen')
    def write(s, st, idxs, v):
        r = SArr(s.et, s.dims, s.base, s.dflt, s.ws, s.birth, s.nm, s.g)
        return r.write(st, idxs, v)
    def baseread(s, st, i):
        # the chunk that holds the index, when that is evident
        o = 0
        for c in s.chunks:
            if c[0] == 'ARR':
                l = sub(c[3], c[2])
                if len(s.chunks) == 1 or (isc(i) and isc(o) and isc(l) and o <= i < o + l): return c[1].read(st, add(c[2], sub(i, o)))
            elif c[0] == 'BE':
                l = c[1]
                if isc(i) and isc(o) and o <= i < o + l: return emod(ediv(c[2], 1 << (8 * (l - 1 - (i - o)))), 256)
            else: break
            o = add(o, l)
            if not isc(o): break
        return SArr.baseread(s, st, i)
    def same(s, o):
        if isinstance(o, ChunkRow) and s.chunks is o.chunks: return True
        return s is o
def chunkrow(chunks, n):
    r = ChunkRow('uint8', 1, [fresh('chrow', z3.ArraySort(INT, INT))])
    r.chunks, r.clen = list(chunks), n
    return r

# ---------------------------------------------------------------- stream identities
def canon(eng, v):
    """identity of an interface value holding a stream"""
    if isinstance(v, IfV):
        if v.isnil: return None
        if v.tn is not None: return canon(eng, v.v)
        return 'w:' + v.term.sexpr()
    if isinstance(v, PtrV):
        r = v.ref
        if isz(r):
            if z3.is_app(r) and r.num_args() == 1 and r.decl().name().startswith('unbox_'): return 'w:' + r.arg(0).sexpr()
            return 'p:' + v.root + ':' + r.sexpr() + ''.join('.' + str(x) for x in v.path)
        if v.root == 'bytes.Buffer': return 'buf:%d' % r
        return 'p:%s:%d' % (v.root, r) + ''.join('.' + str(x) for x in v.path)
    raise Unsupported('stream identity of ' + type(v).__name__)
def fld(eng, st, p, n):
    for f in eng.p.fields(p.et):
        if f['name'] == n: return st.load(PtrV(f['t'], p.ref, p.root, p.path + (n,)), f['t'])
    raise Unsupported('field ' + n)
def sid_writer(eng, st, v):
    if isinstance(v, bytes): return v.decode()
    if isinstance(v, PtrV) and v.et.endswith('.DataOutputX'): v = fld(eng, st, v, 'writer')
    s = canon(eng, v)
    if s is None: raise Unsupported('nil writer')
    return s
def sid_reader(eng, st, v):
    if isinstance(v, bytes): return v.decode()
    if isinstance(v, PtrV) and v.et.endswith('.DataInputX'): v = fld(eng, st, v, 'reader')
    s = canon(eng, v)
    if s is None: raise Unsupported('nil reader')
    return s
def writer_of(eng, st, v):
    if isinstance(v, PtrV) and v.et.endswith('.DataOutputX'): v = fld(eng, st, v, 'writer')
    return v
def reliable(eng, st, v):
    """can a write to this writer fail? *bytes.Buffer cannot"""
    if isinstance(v, bytes): return True
    v = writer_of(eng, st, v)
    if isinstance(v, PtrV): return True if v.et == 'bytes.Buffer' else z3.Const('reliable_' + canon(eng, v), BOOL)
    if v.tn is not None: return True if v.tn == '*bytes.Buffer' else z3.Function('reliable', I, BOOL)(eng.w.ifterm(v))
    r = z3.Function('reliable', I, BOOL)(v.term)
    eng.rels[r.get_id()] = r
    st.fact(z3.Implies(tagof(v.term) == eng.p.tagid('*bytes.Buffer'), r)) if '*bytes.Buffer' in eng.p.types else None
    return r
def outs(st, sid): 
    r = st.outs.get(sid)
    return (U(sid + '0'),) if r is None else r
def ins(st, sid):
    r = st.ins.get(sid)
    return (U(sid + '0'),) if r is None else r
def emit(st, sid, ch):
    st.outs[sid] = outs(st, sid) + tuple(ch)
def newU(sid): 
    import loops
    return U('%s!%d' % (sid.split('!')[0][:40], loops.nextn()))

def err(st, nm='err'):
    t = fresh(nm, I); st.fact(t != nilI)
    return IfV(term=t)
def maybe_err(st, ok):
    """error that is nil when ok (a condition) holds; returns (IfV, condition that it is nil)"""
    if ok is True: return NILI, True
    t = fresh('err', I)
    st.fact(implies(ok, t == nilI))
    return IfV(term=t), t == nilI
def dowrite(eng, st, w, ch):
    """append chunks to writer w; returns the error value"""
    sid = sid_writer(eng, st, w)
    emit(st, sid, ch)
    e, ok = maybe_err(st, reliable(eng, st, w))
    if ok is not True: st.ghost['ok:' + sid] = and_(st.ghost.get('ok:' + sid, True), ok)
    return e

# ---------------------------------------------------------------- reading
def heads(eng, st, ch):
    """successor (state, chunks) pairs whose first chunk is BE, U, a non-empty ARR, or absent"""
    out = []; work = [(st, flat(list(ch)))]
    n = 0
    while work:
        st, ch = work.pop(); n += 1
        if n > 400: raise Unsupported('input does not normalise')
        eng.w.cur = st
        if not ch or ch[0][0] in ('BE', 'U'): out.append((st, ch)); continue
        c = ch[0]
        if c[0] == 'APP':
            u = eng.St.unfold(st, c)
            if u is None: raise Unsupported('opaque input ' + c[1])
            work.append((st, flat(list(u) + ch[1:]))); continue
        if c[0] == 'COND': cond, a, b = c[1], list(c[2]) + ch[1:], list(c[3]) + ch[1:]
        elif c[0] == 'CAT':
            cond = lt(c[1], c[2]); b = ch[1:]
            a = None
        elif c[0] == 'ARR':
            cond = lt(c[2], c[3]); a = 'keep'; b = ch[1:]
        else: raise Unsupported('input chunk ' + c[0])
        d = st.decide(cond)
        for pick in ((True, False) if d is None else (d,)):
            s2 = st.fork() if d is None else st
            if d is None: s2.fact(cond if pick else not_(cond), True)
            if pick:
                if a == 'keep': out.append((s2, ch)); continue
                if a is None:
                    eng.w.cur = s2
                    x = list(c[3](c[1])) + [('CAT', add(c[1], 1), c[2], c[3])] + ch[1:]
                else: x = a
            else: x = b
            work.append((s2, flat(x)))
    return out

def counted(eng, rs, n):
    """contracts with `option count-input` count the bytes received so far in the ghost !nread"""
    if eng.curopts.get('count-input'):
        for st, v in rs:
            if v is not None: st.ghost['!nread'] = simp(zi(add(nread(st), n)))
    return rs
def nread(st): return st.ghost.get('!nread', z3.Int('!nread!entry'))
def take(eng, st, sid, n): return counted(eng, take0(eng, st, sid, n), n)
def takebytes(eng, st, sid, n): return counted(eng, takebytes0(eng, st, sid, n), n)
def take0(eng, st, sid, n):
    """n bytes (constant) as one big-endian number; [(state, value or None)]"""
    res = []; work = [(st, list(ins(st, sid)), [], 0)]
    while work:
        st, ch, got, k = work.pop()
        if k == n:
            st.ins[sid] = tuple(ch)
            u = got[0][1] if got else 0
            for m, x in got[1:]: u = add(mul(u, 1 << (8 * m)), x)
            res.append((st, u)); continue
        for s2, c2 in heads(eng, st, ch):
            eng.w.cur = s2
            if not c2:
                s2.ins[sid] = (); res.append((s2, None)); continue
            h = c2[0]; need = n - k
            if h[0] == 'BE':
                if h[1] <= need: work.append((s2, c2[1:], got + [(h[1], h[2])], k + h[1]))
                else:
                    a, b = splitbe(h, need)
                    work.append((s2, [b] + c2[1:], got + [(need, a[2])], n))
            elif h[0] == 'ARR':
                b = h[1].read(s2, h[2])
                work.append((s2, [('ARR', h[1], add(h[2], 1), h[3])] + c2[1:], got + [(1, b)], k + 1))
            else:
                bad = s2.fork(); bad.ins[sid] = (newU(sid),); res.append((bad, None))
                u = fresh('rd', INT); s2.fact(and_(le(0, u), lt(u, 1 << (8 * need))))
                work.append((s2, [newU(sid)], got + [(need, u)], n))
    return res

def takebytes0(eng, st, sid, n):
    """n bytes as content; [(state, BytesV or None)]"""
    if isc(n) and n == 0: return [(st, BytesV(SArr('uint8', 1, None, dflt=0), 0, 0))]
    if isc(n) and n <= 16:
        hd = heads(eng, st, ins(st, sid))
        if all(c and c[0][0] == 'BE' for _, c in hd):
            out = []
            for s2, c2 in hd:
                s2.ins[sid] = tuple(c2)
                for s3, u in take0(eng, s2, sid, n):
                    if u is None: out.append((s3, None)); continue
                    row = SArr('uint8', 1, None, dflt=0)
                    for i in range(n): row = row.write(s3, [i], emod(ediv(u, 1 << (8 * (n - 1 - i))), 256))
                    out.append((s3, BytesV(row, 0, n)))
            return out
    res = []; work = [(st, list(ins(st, sid)), [], n)]
    while work:
        st, ch, got, need = work.pop()
        eng.w.cur = st
        d = st.decide(le(need, 0))
        if d is None:
            s2 = st.fork(); s2.fact(le(need, 0), True); st.fact(lt(0, need), True)
            work.append((s2, ch, got, 0)); 
        elif d:
            st.ins[sid] = tuple(ch)
            if not got: res.append((st, BytesV(SArr('uint8', 1, None, dflt=0), 0, 0)))
            elif len(got) == 1: res.append((st, got[0]))
            else: res.append((st, joinrows(eng, st, got)))
            continue
        for s2, c2 in heads(eng, st, ch):
            eng.w.cur = s2
            if not c2: s2.ins[sid] = (); res.append((s2, None)); continue
            h = c2[0]
            if h[0] == 'ARR':
                L = sub(h[3], h[2])
                if same(L, need) or s2.valid(simp(zi(L) == zi(need))):
                    work.append((s2, c2[1:], got + [BytesV(h[1], h[2], h[3])], 0)); continue
                d = s2.decide(le(need, L))
                for pick in ((True, False) if d is None else (d,)):
                    s3 = s2.fork() if d is None else s2
                    if d is None: s3.fact(le(need, L) if pick else lt(L, need), True)
                    if pick: work.append((s3, [('ARR', h[1], add(h[2], need), h[3])] + c2[1:], got + [BytesV(h[1], h[2], add(h[2], need))], 0))
                    else: work.append((s3, c2[1:], got + [BytesV(h[1], h[2], h[3])], sub(need, L)))
            elif h[0] == 'BE':
                k = h[1]
                if isc(need): k = min(k, need)
                else: k = 1
                a, b = splitbe(h, k) if k < h[1] else (h, None)
                row = SArr('uint8', 1, None, dflt=0)
                for i in range(k): row = row.write(s2, [i], emod(ediv(a[2], 1 << (8 * (k - 1 - i))), 256))
                work.append((s2, ([b] if b else []) + c2[1:], got + [BytesV(row, 0, k)], sub(need, k)))
                if len(got) > 40: raise Unsupported('unbounded read over numbers')
            else:
                bad = s2.fork(); bad.ins[sid] = (newU(sid),); res.append((bad, None))
                row = SArr('uint8', 1, [fresh('rdrow', z3.ArraySort(INT, INT))])
                work.append((s2, [newU(sid)], got + [BytesV(row, 0, need)], 0))
    return res

def joinrows(eng, st, parts):
    row = SArr('uint8', 1, [fresh('jrow', z3.ArraySort(INT, INT))])
    j = z3.Int('j!join'); o = 0
    for b in parts:
        l = sub(b.hi, b.lo)
        for x, y in zip(row.base, b.row.comps(eng.w)):
            st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= zi(o), j < zi(add(o, l))), x[j] == y[j - zi(o) + zi(b.lo)]), patterns=[x[j]]))
        o = add(o, l)
    return BytesV(row, 0, o)

def copyrow(eng, st, d, b):
    """write content b into the beginning of slice d (lengths agree or b is shorter)"""
    n = sub(b.hi, b.lo)
    if isc(n) and n <= 16:
        vals = [b.row.read(st, add(b.lo, i)) for i in range(n)]
        for i, v in enumerate(vals): st.store(st.elemptr(d, i), v, d.et)
        return
    if isc(d.o) and d.o == 0 and isc(b.lo) and b.lo == 0 and isc(d.b) and d.b < 0 and (same(n, d.l) or st.valid(simp(zi(n) == zi(d.l)))):
        st.setrow(d, b.row); return
    drow = st.row(d)
    a = eng.fresharr(('copy', ()), d.et, 1, st.cnt)
    j = z3.Int('j!copy')
    for x1, y1, z1 in zip(a.base, b.row.comps(eng.w), drow.comps(eng.w)):
        st.fact(z3.ForAll([j], x1[j] == z3.If(z3.And(j >= zi(d.o), j < zi(d.o) + zi(n)), y1[j - zi(d.o) + zi(b.lo)], z1[j]), patterns=[x1[j]]))
    st.setrow(d, a)

def retuple(*vs): return TupV(list(vs))
def needs_nonnil(eng, st, v, what):
    if isinstance(v, IfV):
        if v.isnil: eng.panic_unless(st, False, what); return False
        if v.tn is None: eng.panic_unless(st, v.term != nilI, what)
    return True

SIZES = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8, 'bool': 1, 'float32': 4, 'float64': 8}
def order_of(eng, st, o):
    if isinstance(o, IfV) and o.tn:
        if 'bigEndian' in o.tn: return 'big'
        if 'littleEndian' in o.tn: return 'little'
    raise Unsupported('byte order')
def fbits(st, v, n):
    f, g = (f32bits, f32of) if n == 4 else (f64bits, f64of)
    u = f(zr(v)); st.fact(and_(u >= 0, u < (1 << (8 * n)), g(u) == zr(v)))
    return u
def enc(eng, st, v, t, order):
    b = eng.p.basic(t)
    if b not in SIZES: raise Unsupported('binary encoding of ' + t)
    n = SIZES[b]
    if b == 'bool': u = (1 if v else 0) if isinstance(v, bool) else simp(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
    elif b.startswith('float'): u = fbits(st, v, n)
    else: u = eng.umod(st, v, 8 * n)
    if order == 'big' or n == 1: return [('BE', n, u)]
    return [('BE', 1, emod(ediv(u, 1 << (8 * i)), 256)) for i in range(n)]
@model('encoding/binary.Write')
def m_bwrite(eng, st, a):
    w, o, d = a
    if not needs_nonnil(eng, st, w, 'nil writer'): return []
    if not d.tn: raise Unsupported('binary.Write of unknown type')
    order = order_of(eng, st, o); t = d.tn; v = d.v
    k = eng.w.lkind(t)
    if k == 'ptr': t = eng.p.elem(t); v = eng.gload(st, v, t); k = eng.w.lkind(t)
    if k == 'slice':
        et = eng.p.elem(t)
        if eng.p.basic(et) in ('uint8', 'byte', 'int8') :
            if eng.p.basic(et) == 'int8': raise Unsupported('binary.Write []int8')
            return dowrite(eng, st, w, [('ARR', st.row(v), v.o, add(v.o, v.l))])
        raise Unsupported('binary.Write of slice')
    if k == 'struct':
        ch = []
        for f, x in zip(eng.p.fields(t), v.fs): ch += enc(eng, st, x, f['t'], order)
        return dowrite(eng, st, w, ch)
    return dowrite(eng, st, w, enc(eng, st, v, t, order))
def dec(eng, st, u, t):
    b = eng.p.basic(t)
    if b == 'bool': return simp(zi(u) != 0)
    if b.startswith('float'): 
        f, g = (f32of, f32bits) if b == 'float32' else (f64of, f64bits)
        # bits written from a known value
        uu = zi(u)
        if z3.is_app(uu) and uu.decl().eq(g): return uu.arg(0)
        return f(uu)
    n, sg = eng.p.intinfo(t)
    return eng.signed(st, u, n) if sg else u
@model('encoding/binary.Read')
def m_bread(eng, st, a):
    r, o, d = a
    if not needs_nonnil(eng, st, r, 'nil reader'): return []
    if not d.tn or eng.w.lkind(d.tn) != 'ptr': raise Unsupported('binary.Read target')
    order = order_of(eng, st, o); t = eng.p.elem(d.tn); b = eng.p.basic(t)
    if b not in SIZES: raise Unsupported('binary.Read of ' + t)
    n = SIZES[b]; sid = sid_reader(eng, st, r); out = []
    for s2, u in take(eng, st, sid, n):
        eng.w.cur = s2
        if u is None: out.append((s2, err(s2))); continue
        if order == 'little' and n > 1:
            bs = [emod(ediv(u, 1 << (8 * i)), 256) for i in range(n)]; u = 0
            for x in bs: u = add(mul(u, 256), x)
        v = dec(eng, s2, u, t)
        if isz(v) and eng.w.lkind(t) == 'int': s2.typefacts(v, t)
        s2.store(d.v, v, t)
        out.append((s2, NILI))
    return out
@model('io.ReadFull')
def m_readfull(eng, st, a):
    r, d = a
    if not needs_nonnil(eng, st, r, 'nil reader'): return []
    sid = sid_reader(eng, st, r); out = []
    for s2, b in takebytes(eng, st, sid, d.l):
        eng.w.cur = s2
        if b is None:
            n = fresh('n', INT); s2.fact(and_(le(0, n), lt(n, d.l)))
            s2.setrow(d, eng.fresharr(('part', ()), d.et, 1, s2.cnt))
            out.append((s2, retuple(n, err(s2)))); continue
        copyrow(eng, s2, d, b); out.append((s2, retuple(d.l, NILI)))
    return out
@model('io.CopyN')
def m_copyn(eng, st, a):
    w, r, n = a
    if not needs_nonnil(eng, st, r, 'nil reader') or not needs_nonnil(eng, st, w, 'nil writer'): return []
    if not st.valid(le(0, n)): raise Unsupported('io.CopyN of a negative count')
    out = []
    for s2, b in takebytes(eng, st, sid_reader(eng, st, r), n):
        eng.w.cur = s2
        if b is None:
            m = fresh('n', INT); s2.fact(and_(le(0, m), lt(m, n)))
            row = SArr('uint8', 1, [fresh('part', z3.ArraySort(INT, INT))])
            dowrite(eng, s2, w, [('ARR', row, 0, m)])
            out.append((s2, retuple(m, err(s2)))); continue
        e = dowrite(eng, s2, w, [('ARR', b.row, b.lo, b.hi)])
        if e.isnil: out.append((s2, retuple(n, NILI)))
        else:
            m = fresh('n', INT); s2.fact(and_(le(0, m), le(m, n))); s2.fact(z3.Implies(e.term == nilI, m == zi(n)))
            out.append((s2, retuple(m, e)))
    return out
@model('io.ReadAtLeast')
def m_readatleast(eng, st, a): raise Unsupported('io.ReadAtLeast')
def genread(eng, st, r, d):
    """Read of an arbitrary io.Reader: any number of bytes up to len"""
    sid = sid_reader(eng, st, r); out = []
    z = st.decide(le(d.l, 0))
    if z is not False:
        s2 = st.fork() if z is None else st
        if z is None: s2.fact(le(d.l, 0), True); st.fact(lt(0, d.l), True)
        e, _ = maybe_err(s2, z3.BoolVal(False) if False else fresh('okz', BOOL))
        out.append((s2, retuple(0, e)))
        if z: return out
    bad = st.fork(); out.append((bad, retuple(0, err(bad))))
    n = fresh('n', INT); st.fact(and_(le(1, n), le(n, d.l)), True)
    for s2, b in takebytes(eng, st, sid, n):
        eng.w.cur = s2
        if b is None: continue
        copyrow(eng, s2, d, b)
        out.append((s2, retuple(n, NILI)))
    return out
@model('io.Reader.Read', '(*bufio.Reader).Read', '(*bytes.Buffer).Read', '(*bytes.Reader).Read', '(*os.File).Read', '(*net.conn).Read')
def m_read(eng, st, a):
    r, d = a
    if isinstance(r, IfV) and r.tn and eng.p.methods.get(eng.p.unalias(r.tn), {}).get('Read') in eng.p.fns: return NotImplemented
    return genread(eng, st, r, d)
@model('io.Writer.Write', '(*bytes.Buffer).Write', '(*net.conn).Write', '(*os.File).Write', '(*bufio.Writer).Write', '(*net.UDPConn).Write')
def m_write(eng, st, a):
    w, d = a
    if isinstance(w, IfV) and w.tn and eng.p.methods.get(eng.p.unalias(w.tn), {}).get('Write') in eng.p.fns: return NotImplemented
    e = dowrite(eng, st, w, [('ARR', st.row(d), d.o, add(d.o, d.l))])
    if e.isnil: return retuple(d.l, e)
    n = fresh('n', INT); st.fact(and_(le(0, n), le(n, d.l))); st.fact(z3.Implies(e.term == nilI, n == zi(d.l)))
    return retuple(n, e)
@model('(*bytes.Buffer).WriteString', 'io.WriteString', '(*strings.Builder).WriteString', '(*bufio.Writer).WriteString')
def m_writestring(eng, st, a):
    w, x = a
    e = dowrite(eng, st, w, [('ARR', st.srow(x), 0, st.slen(x))])
    if e.isnil: return retuple(st.slen(x), e)
    n = fresh('n', INT); st.fact(n >= 0)
    return retuple(n, e)
@model('(*bytes.Buffer).WriteByte', '(*strings.Builder).WriteByte')
def m_writebyte(eng, st, a): return dowrite(eng, st, a[0], [('BE', 1, a[1])])
def bufcontent(eng, st, p):
    sid = canon(eng, p); ch = flat(list(outs(st, sid)))
    n = eng.St.blen(st, ch)
    if isz(n): st.fact(z3.And(n >= 0, n <= BIG))
    return ch, n
@model('(*bytes.Buffer).Bytes')
def m_bytes(eng, st, a):
    p = a[0]
    if not eng.nilcheck(st, p, 'nil *bytes.Buffer'): return []
    ch, n = bufcontent(eng, st, p)
    if len(ch) == 1 and ch[0][0] == 'ARR' and isc(ch[0][2]) and ch[0][2] == 0: row = ch[0][1]
    else: row = chunkrow(ch, n)
    return st.newslice('uint8', row, n)
@model('(*bytes.Buffer).Len', '(*strings.Builder).Len')
def m_buflen(eng, st, a): return bufcontent(eng, st, a[0])[1]
@model('(*bytes.Buffer).String', '(*strings.Builder).String')
def m_bufstring(eng, st, a):
    ch, n = bufcontent(eng, st, a[0])
    if not ch: return b''
    if all(c[0] == 'ARR' for c in ch):
        r = b''
        for c in ch:
            x = eng.bytes2str(st, st.newslice('uint8', c[1], c[3])) if isc(c[2]) and c[2] == 0 else None
            if x is None: break
            r = st.sconcat(r, x)
        else: return r
    row = chunkrow(ch, n)
    return eng.bytes2str(st, st.newslice('uint8', row, n))
@model('bytes.NewBuffer', 'bytes.NewReader')
def m_newbuffer(eng, st, a):
    p = PtrV('bytes.Buffer', st.newref())
    v = a[0]; sid = canon(eng, p)
    st.ins[sid] = tuple(flat([('ARR', st.row(v), v.o, add(v.o, v.l))]))
    st.outs[sid] = st.ins[sid]
    return p
@model('bufio.NewReader', 'bufio.NewReaderSize')
def m_bufioreader(eng, st, a):
    p = PtrV('bufio.Reader', st.newref())
    st.ins[canon(eng, p)] = (newU('bufio'),)
    return p
for bits in (16, 32, 64):
    for oname in ('bigEndian', 'littleEndian'):
        def mk(n, big):
            def put(eng, st, a):
                d, v = a[1], a[2]
                eng.panic_unless(st, le(n, d.l), 'index out of range')
                for i in range(n):
                    k = (n - 1 - i) if big else i
                    st.store(st.elemptr(d, i), emod(ediv(v, 1 << (8 * k)), 256), 'uint8')
                return None
            def get(eng, st, a):
                d = a[1]
                eng.panic_unless(st, le(n, d.l), 'index out of range')
                u = 0
                for i in (range(n) if big else reversed(range(n))):
                    b = st.load(st.elemptr(d, i), 'uint8')
                    u = add(mul(u, 256), b)
                return u
            return put, get
        put, get = mk(bits // 8, oname == 'bigEndian')
        MODELS[f'(encoding/binary.{oname}).PutUint{bits}'] = put
        MODELS[f'(encoding/binary.{oname}).Uint{bits}'] = get
@model('math.Float32bits')
def m_f32b(eng, st, a): return fbits(st, a[0], 4)
@model('math.Float64bits')
def m_f64b(eng, st, a): return fbits(st, a[0], 8)
@model('math.Float32frombits')
def m_f32f(eng, st, a): return dec(eng, st, a[0], 'float32')
@model('math.Float64frombits')
def m_f64f(eng, st, a): return dec(eng, st, a[0], 'float64')

# ---------------------------------------------------------------- small things
@model('errors.New', 'fmt.Errorf')
def m_errnew(eng, st, a): return err(st)
NOOP = '''(*log.Logger).Println (*log.Logger).Printf (*log.Logger).Print log.Println log.Printf log.Print fmt.Println fmt.Printf fmt.Print
time.Sleep
runtime.SetBlockProfileRate runtime.Gosched runtime.GC runtime.SetMutexProfileFraction
(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait'''.split()
def noop(eng, st, a):
    t = eng.callt
    if t is None: return None
    return havocresult(eng, st, t)
for n_ in NOOP: MODELS[n_] = noop
def havocresult(eng, st, t, nm='x'):
    import loops
    if t is None: return None
    if eng.p.types.get(t, {}).get('k') == 'tuple':
        ts = eng.p.types[t]['ts'] if 'ts' in eng.p.types[t] else eng.p.types[t]['es']
        return TupV([loops.freshval(eng, st, x, nm, st.cnt) for x in ts]) if ts else None
    return loops.freshval(eng, st, t, nm, st.cnt)
PURE = re.compile(r'^(strings\.(Contains|HasPrefix|HasSuffix|Index|IndexByte|LastIndex|TrimSpace|TrimPrefix|TrimSuffix|ToLower|ToUpper|Count|EqualFold|Repeat|Replace|ReplaceAll|Compare|ContainsRune|ContainsAny|Trim|TrimLeft|TrimRight|IndexRune|IndexAny)'
    r'|strconv\.(Itoa|FormatInt|FormatUint|FormatBool|FormatFloat|Atoi|ParseInt|ParseUint|ParseFloat|ParseBool|Quote)'
    r'|path/filepath\.(Base|Clean|Dir|Ext|IsAbs)|path\.(Base|Clean|Dir|Ext|Split|IsAbs)|path/filepath\.Split|math\.(Ceil|Floor|Pow|Sqrt|Abs|Trunc|Round)|unicode\.\w+)$')
HAVOC = re.compile(r'^(fmt\.(Sprintf|Sprint|Sprintln)|strings\.(Split|SplitN|Fields|Join|Title|Map)|path/filepath\.Join|path\.Join|os\.(Getenv|LookupEnv|Hostname|Getwd|TempDir|Environ|Getpid|Stat|Open|OpenFile|Create|MkdirAll|Remove|IsNotExist)'
    r'|\(\*?os\.[A-Za-z]+\)\.\w+|os\.FileInfo\.\w+|runtime\.(NumGoroutine|NumCgoCall|NumCPU|Caller|Callers|FuncForPC|Stack)|\(\*runtime\.Func\)\.\w+|error\.Error|runtime/debug\.\w+'
    r'|log\.New|io\.MultiWriter|net\.\w+|\(\*?net\.\w+\)\.\w+|net\.Conn\.\w+|net\.Addr\.\w+|context\.\w+|context\.Context\.\w+|\(?net/http\.\w+\)?\.\w+|\(\*net/http\.\w+\)\.\w+|runtime/pprof\.\w+|\(\*runtime/pprof\.\w+\)\.\w+'
    r'|io/ioutil\.\w+|bufio\.NewWriter|\(\*bufio\.Writer\)\.\w+|hash\.Hash32\.\w+|hash/fnv\.\w+|sort\.\w+|unicode/utf8\.\w+|os\.Exit|time\.\w+|\(\*?time\.\w+\)\.\w+|math/rand\.\w+|\(\*math/rand\.\w+\)\.\w+|math\.\w+|strings\.\w+|strconv\.\w+|errors\.\w+|sync/atomic\.\w+)$')
def purecall(eng, st, name, a, t):
    import loops
    ts = []
    for x in a:
        if isinstance(x, bytes): ts.append(zs(x))
        elif isinstance(x, bool): ts.append(zb(x))
        elif isinstance(x, int): ts.append(zi(x))
        elif isz(x): ts.append(x)
        else: return havocresult(eng, st, t, name.split('.')[-1])
    def mk(t, i):
        ss = eng.w.sorts(t)
        fs = [z3.Function('pure_%s_%d_%d' % (name, i, j), *[x.sort() for x in ts], s_) for j, s_ in enumerate(ss)]
        v = eng.w.lift([f(*ts) for f in fs], t)
        st.typefacts(v, t)
        return v
    if eng.p.types.get(t, {}).get('k') == 'tuple':
        tt = eng.p.types[t].get('ts') or eng.p.types[t].get('es')
        return TupV([mk(x, i) for i, x in enumerate(tt)])
    return mk(t, 0)
@model('strings.HasPrefix')
def m_hasprefix(eng, st, a):
    if isinstance(a[0], bytes) and isinstance(a[1], bytes): return a[0].startswith(a[1])
    if isinstance(a[1], bytes) and a[1] == b'': return True
    r = purecall(eng, st, 'strings.HasPrefix', a, 'bool')
    st.fact(z3.Implies(r, zi(st.slen(a[0])) >= zi(st.slen(a[1]))))
    return r
def litpure(name, f):
    def m(eng, st, a):
        if all(isinstance(x, (bytes, int)) for x in a): return f(*a)
        return purecall(eng, st, name, a, eng.callt)
    MODELS[name] = m
litpure('strings.HasSuffix', lambda a, b: a.endswith(b))
litpure('strings.Contains', lambda a, b: b in a)
litpure('strings.Index', lambda a, b: a.find(b))
litpure('strings.TrimSpace', lambda a: a.strip())
litpure('strings.ToLower', lambda a: a.lower())
litpure('strings.ToUpper', lambda a: a.upper())
litpure('strconv.FormatBool', lambda a: b'true' if a else b'false')
litpure('strconv.Itoa', lambda a: str(a).encode())
# ---- strings.Split / strconv: parts and parse results as functions of the text
splitn_f = z3.Function('split_n', S, S, INT)
splitpart_f = z3.Function('split_part', S, S, INT, S)
parseok_f = z3.Function('parseuint_ok', S, INT, INT, BOOL)
parseval_f = z3.Function('parseuint_val', S, INT, INT, INT)
class FnRow(SArr):
    """row given by a function of the index"""
    __slots__ = ('fn',)
    def write(s, st, idxs, v): raise Unsupported('write to a computed row')
    def baseread(s, st, i): return s.fn(i)
    def same(s, o): return s is o
    def toz3(s, w): raise Unsupported('array term of a computed row')
def fnrow(et, fn):
    r = FnRow(et, 1, []); r.fn = fn; return r
def strslice(eng, st, n, fn):
    """a fresh []string of length n whose elements are fn(i)"""
    sl = SliceV('string', st.newref(), 0, n, n)
    st.setrow(sl, fnrow('string', fn))
    return sl
@model('strings.Split')
def m_split(eng, st, a):
    s_, sep = a
    if isinstance(s_, bytes) and isinstance(sep, bytes) and sep:
        ps = s_.split(sep)
        return strslice(eng, st, len(ps), lambda i: ps[i] if isc(i) else None)
    n = splitn_f(zs(s_), zs(sep))
    st.fact(and_(le(1, n), le(n, add(st.slen(s_), 1))))
    return strslice(eng, st, n, lambda i: splitpart_f(zs(s_), zs(sep), zi(i)))
@model('strconv.ParseUint')
def m_parseuint(eng, st, a):
    s_, base, bits = a
    k = parseok_f(zs(s_), zi(base), zi(bits)); v = parseval_f(zs(s_), zi(base), zi(bits))
    st.typefacts(v, 'uint64')
    if isc(bits) and 0 < bits < 64: st.fact(z3.Implies(k, v < (1 << bits)))
    e = err(st)
    s2 = st.fork(); s2.fact(z3.Not(k), True)
    st.fact(k, True)
    return [(st, TupV([v, NILI])), (s2, TupV([fresh_u64(s2), e]))]
def fresh_u64(st):
    v = fresh('pv', INT); st.typefacts(v, 'uint64'); return v
@model('hash/crc32.ChecksumIEEE')
def m_crc32(eng, st, a):
    import spec as SP
    sv = (SP.CTX.eng, SP.CTX.st); SP.CTX.eng = eng; SP.CTX.st = st
    try: return eng.wrap(st, sub(-1, SP.crc32(a[0])), 'uint32')
    finally: SP.CTX.eng, SP.CTX.st = sv
def callback(eng, st, fv, args):
    """enter function value fv on st"""
    if fv.name is None: raise Unsupported('callback of unknown function')
    r = eng.callfn(st, fv.name, list(args), None, False, bind=fv.bind)
    return [st] if r is None else r
@model('(*sync.Once).Do')
def m_once(eng, st, a):
    p, fv = a
    k = 'once:%s' % canon(eng, p)
    done = st.ghost.get(k)
    if done is True: return None
    out = []
    if done is None:
        d0 = z3.Bool(k + '!entry')
        s2 = st.fork(); s2.fact(d0, True); s2.ghost[k] = True; out.append((s2, None))
        st.fact(z3.Not(d0), True)
    st.ghost[k] = True
    for s3 in callback(eng, st, fv, []): out.append((s3, E.PANIC))
    return out
# ---- time: an instant is its UnixNano value
def nowterm(st):
    """the time of the last clock reading (unknown at entry)"""
    if '$now' not in st.ghost: x = z3.Int('now!entry'); st.fact(and_(le(0, x), lt(x, 1 << 62))); st.ghost['$now'] = x
    return st.ghost['$now']
@model('time.Now')
def m_now(eng, st, a):
    x = fresh('now', INT)
    st.fact(and_(le(nowterm(st), x), lt(x, 1 << 62)))
    st.ghost['$now'] = x
    st.ghost.setdefault('$first', x)      # first reading of the function
    return ExtV('time.Time', x)
@model('(time.Time).UnixNano')
def m_unixnano(eng, st, a): return eng.wrap(st, a[0].x, 'int64')
@model('(time.Time).Unix')
def m_unix(eng, st, a): return eng.wrap(st, ediv(a[0].x, 10 ** 9), 'int64')
@model('(time.Time).UnixMilli')
def m_unixmilli(eng, st, a): return eng.wrap(st, ediv(a[0].x, 10 ** 6), 'int64')
@model('(time.Time).Sub')
def m_tsub(eng, st, a): return eng.wrap(st, sub(a[0].x, a[1].x), 'int64')
@model('time.Since')
def m_since(eng, st, a): return eng.wrap(st, sub(m_now(eng, st, []).x, a[0].x), 'int64')
@model('(time.Time).Add')
def m_tadd(eng, st, a): return ExtV('time.Time', add(a[0].x, a[1]))
@model('(time.Time).After')
def m_tafter(eng, st, a): return lt(a[1].x, a[0].x)
@model('(time.Time).Before')
def m_tbefore(eng, st, a): return lt(a[0].x, a[1].x)
def tdiv(eng, st, x, k):
    if isc(x): return x // k if x >= 0 else -((-x) // k)
    if st.valid(x >= 0, 800): return ediv(x, k)
    return simp(z3.If(x >= 0, x / k, -((-x) / k)))
@model('(time.Duration).Milliseconds')
def m_dms(eng, st, a): return tdiv(eng, st, a[0], 10 ** 6)
@model('(time.Duration).Nanoseconds')
def m_dns(eng, st, a): return a[0]
@model('math/rand.Intn', 'math/rand.Int63n', 'math/rand.Int31n')
def m_intn(eng, st, a):
    if not eng.panic_unless(st, lt(0, a[0]), 'rand.Intn of a non-positive bound'): return [(st, E.PANIC)]
    r = fresh('rnd', INT); st.fact(and_(le(0, r), lt(r, a[0])))
    st.ghost['$draw'] = r       # the number drawn last
    st.ghost['$drawmax'] = a[0]
    return r

# ---------------------------------------------------------------- installation
def install(eng):
    import models2
    eng.modelfns = dict(MODELS); eng.observe = dict(models2.OBSERVE); eng.curopts = {}
    def ext(st, name, args, eng=eng):
        eng.used_models.add(name)
        t = eng.callt
        if PURE.match(name): return purecall(eng, st, name, args, t)
        if HAVOC.match(name): return havocresult(eng, st, t, name.split('.')[-1])
        raise Unsupported('no model for external function ' + name)
    eng.extern = ext
    eng.callt = None

def alloc_ext(eng, st, p, t):
    """a new object of a foreign struct type"""
    if t in ('bytes.Buffer', 'strings.Builder') and not p.path:
        st.outs[canon(eng, PtrV(t, p.ref))] = ()
        return
    if t in ('bytes.Buffer', 'strings.Builder'):
        st.outs[canon(eng, p)] = (); return
    st.store_ext = True
    st.mem[('$ext ' + p.root, p.path)] = st.comp(('$ext ' + p.root, p.path), 'int', 1).write(st, [p.ref], 0) if False else st.comp(('$ext ' + p.root, p.path), 'int', 1)

def setup(eng, st, con, case): pass
def ghost_havoc(eng, st, k):
    if k.startswith('ok:'): return fresh('ok', BOOL)
    if k.startswith('once:'): return None
    if k == '$now':
        x = fresh('now', INT); st.fact(and_(le(nowterm(st), x), lt(x, 1 << 62))); return x
    if k == '$fs' or k.startswith(('$draw', '!n')) or k.startswith('$rt.'): return fresh('gh', INT)
    if k in eng.ghosttypes:
        import loops; return loops.freshval(eng, st, eng.ghosttypes[k], 'gh_' + k, st.cnt)
    v = st.ghost.get(k)
    if isinstance(v, bool) or (isz(v) and v.sort() == BOOL): return fresh('gh', BOOL)
    if isinstance(v, int) or (isz(v) and v.sort() == INT): return fresh('gh', INT)
    return v
def eveq(eng, st, a, b):
    import spec as SP
    if len(a[2]) != len(b[2]): return False
    cs = []
    sv = (SP.CTX.eng, SP.CTX.st); SP.CTX.eng = eng; SP.CTX.st = st
    try:
        for x, y in zip(a[2], b[2]):
            if x is None or y is None: continue
            if isinstance(x, ChV) and isinstance(y, ChV):
                e = Eq(eng.St)
                if not e.run(st.fork(), list(x.ch), list(y.ch)):
                    eng.cache['evwhy'] = e.why
                    return False
                continue
            cs.append(SP._eq(x, y))
    finally: SP.CTX.eng, SP.CTX.st = sv
    return and_(*cs)
