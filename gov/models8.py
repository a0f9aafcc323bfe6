"""Files (os.Open, ReadAt, Read, Remove) and net connection control.
An opened file has an arbitrary content that does not change while it is open. Opening, creating and removing are events
(with the path). Ghosts: !nfrom, !nto - the part of the content the last read delivered; !rerr - the error it returned."""
import z3
from core import *
from state import *
import engine as E, lib
from lib import model, MODELS, canon, retuple, copyrow, newU
import models2
import spec as SP

@model('(*net.conn).SetReadDeadline', '(*net.conn).SetDeadline', '(*net.conn).SetWriteDeadline')
def m_connctl(eng, st, a): return IfV(term=fresh('err', I))

@model('(*net.conn).Close')
def m_connclose(eng, st, a):
    """nothing can be written to the connection after this: part of what the connection carries"""
    sid = lib.sid_writer(eng, st, a[0])
    if sid.endswith('.conn'): sid = sid[:-5]          # embedded in *net.TCPConn
    lib.emit(st, sid, [('EV', 'closed', (), None)])
    return IfV(term=fresh('err', I))

EOFV = z3.Const('io.EOF!', I)
def eof(st): st.fact(EOFV != nilI); return IfV(term=EOFV)
def m_global(eng, st, p, t):
    return eof(st) if p.root == '@io.EOF' and not p.path else None
MODELS['$global'] = m_global
def failed(st):
    e = fresh('err', I); st.fact(z3.And(e != nilI, e != EOFV, EOFV != nilI)); return IfV(term=e)

def content(st):
    c = st.ghost.get('$fc')
    if c is None: raise Unsupported('content of a file not opened here')
    return c
def opened(eng, st, path, what):
    models2.event(eng, st, what, path)
    s2 = st.fork()
    p = PtrV('os.File', st.newref())
    row = eng.fresharr(('file', ()), 'uint8', 1, st.cnt); n = fresh('filesize', INT)
    st.fact(and_(le(0, n), lt(n, 1 << 60)))
    st.ghost['$fc'] = (canon(eng, p), row, n); st.ghost['!nfp'] = 0; st.ghost['!nto'] = 0; st.ghost['!nfrom'] = 0; st.ghost['!nfopen'] = 1
    s2.ghost['!nfopen'] = 0
    return [(st, TupV([p, NILI])), (s2, TupV([PtrV('os.File', 0), failed(s2)]))]
@model('os.Open')
def m_open(eng, st, a): return opened(eng, st, a[0], 'open')
@model('os.Create')
def m_create(eng, st, a):
    models2.event(eng, st, 'create', a[0])
    s2 = st.fork()
    return [(st, TupV([PtrV('os.File', st.newref()), NILI])), (s2, TupV([PtrV('os.File', 0), failed(s2)]))]
@model('os.RemoveAll')
def m_removeall(eng, st, a): return m_remove(eng, st, a, 'removeall')
@model('os.Remove')
def m_remove(eng, st, a, what='remove'):
    models2.event(eng, st, what, a[0])
    e = fresh('err', I); st.ghost['!rmerr'] = IfV(term=e)
    return IfV(term=e)
def deliver(eng, st, d, row, pos, n, e):
    """n bytes of the content from pos on arrive in d"""
    eng.w.cur = st
    if not (isc(n) and n == 0): copyrow(eng, st, d, BytesV(row, pos, add(pos, n)))
    st.ghost['!nfrom'] = pos; st.ghost['!nto'] = add(pos, n); st.ghost['!rerr'] = e
    return (st, retuple(n, e))
@model('(*os.File).ReadAt')
def m_readat(eng, st, a):
    f, d, off = a
    if not eng.nilcheck(st, f, 'nil *os.File'): return []
    c, row, size = content(st)
    if canon(eng, f) != c: raise Unsupported('several open files')
    out = []
    neg = st.fork(); neg.fact(lt(off, 0), True)
    if neg.sat() is not False: out.append(deliver(eng, neg, d, row, off, 0, failed(neg)))
    st.fact(le(0, off), True)
    bad = st.fork(); n = fresh('n', INT); bad.fact(and_(le(0, n), le(n, d.l), or_(same(n, 0), n == 0, le(add(off, n), size))))
    out.append(deliver(eng, bad, d, row, off, n, failed(bad)))
    end = st.fork(); end.fact(lt(size, add(off, d.l)), True)
    e2 = end.fork(); e2.fact(lt(size, off), True)          # beyond the end
    if e2.sat() is not False: out.append(deliver(eng, e2, d, row, off, 0, eof(e2)))
    end.fact(le(off, size), True)
    out.append(deliver(eng, end, d, row, off, sub(size, off), eof(end)))
    st.fact(le(add(off, d.l), size), True)
    out.append(deliver(eng, st, d, row, off, d.l, NILI))
    return out
def seqread(eng, st, r, d):
    c, row, size = content(st); pos = st.ghost['!nfp']
    st.fact(and_(le(0, pos), le(pos, size)))
    out = []
    bad = st.fork(); out.append(deliver(eng, bad, d, row, pos, 0, failed(bad)))
    end = st.fork(); end.fact(z3.And(zi(pos) == zi(size), zi(d.l) > 0), True)
    if end.sat() is not False: out.append(deliver(eng, end, d, row, pos, 0, eof(end)))
    n = fresh('n', INT); st.fact(and_(le(0, n), le(n, d.l), le(add(pos, n), size))); st.fact(z3.Or(zi(d.l) == 0, n > 0), True)
    if st.sat() is not False:
        st.ghost['!nfp'] = add(pos, n); out.append(deliver(eng, st, d, row, pos, n, NILI))
    return out
old_newreader = MODELS['bufio.NewReader']
@model('bufio.NewReader', 'bufio.NewReaderSize')
def m_bufioreader(eng, st, a):
    p = old_newreader(eng, st, a)
    c = st.ghost.get('$fc')
    if c is not None and not a[0].isnil and canon(eng, a[0]) == c[0]: st.ghost['$fr ' + canon(eng, p)] = True
    return p
old_read = MODELS['(*bufio.Reader).Read']
@model('(*bufio.Reader).Read', '(*os.File).Read')
def m_seqread(eng, st, a):
    r, d = a
    c = st.ghost.get('$fc'); q = canon(eng, r)
    if c is not None and (q == c[0] or st.ghost.get('$fr ' + q)): return seqread(eng, st, r, d)
    return old_read(eng, st, a)

# filepath.Base(x) == x exactly for ".", "/" and the non-empty names without a separator (from its documentation)
import models5
@model('path/filepath.Base', 'path.Base')
def m_base(eng, st, a):
    x = a[0]
    r = lib.purecall(eng, st, 'path/filepath.Base', [x], 'string')
    if not isinstance(x, bytes):
        sep = models5.idx(eng, st, x, 47, 0) != -1
        same_ = r == zs(x)
        st.fact(same_ == z3.Or(x == zs(b'.'), x == zs(b'/'), z3.And(zi(st.slen(x)) > 0, z3.Not(sep))))
        for q in (b'.', b'/', b'..', b''): eng.w.eq(x, q, 'string')
        st.fact(z3.Implies(x == zs(b'/'), sep)); st.fact(z3.Implies(z3.Or(x == zs(b'.'), x == zs(b'..')), z3.Not(sep)))
    return r
def s_filepart(a, b):
    c = content(SP.CTX.st)
    return SP.Ch([('ARR', c[1], a, b)])
SP.BASE_ENV.update(filepart=lambda a, b: BytesV(content(SP.CTX.st)[1], a, b), filesize=lambda: content(SP.CTX.st)[2], eof=lambda: eof(SP.CTX.st),
    plainname=lambda n: and_(models2_ne(n, b''), models2_ne(n, b'.'), models2_ne(n, b'..'), models5.idx(SP.CTX.eng, SP.CTX.st, n, 47, 0) == -1),
    endswith=lambda n, m: models5.m_suffix(SP.CTX.eng, SP.CTX.st, [n, m]))
def models2_ne(n, q): return not_(SP.CTX.eng.w.eq(n, q, 'string'))

# filepath.Walk: the callback for one arbitrary entry, from a state the callbacks of other entries cannot have changed: the callback
# may only emit events (obligation), so the events after the call are `walk root` and those of one arbitrary entry.
# Ghosts: !nwalk - 1 if an entry was visited (on the other path the walk is empty); !nwinfo - 0 if its information is nil (an error);
# !nwdir, !wname, !nwsize, !nwtime - what the information says
@model('path/filepath.Walk')
def m_walk(eng, st, a):
    root, fv = a
    models2.event(eng, st, 'walk', root)
    name = fresh('wname', S); size = fresh('wsize', INT); dr = fresh('wdir', INT); mt = fresh('wmod', INT)
    st.ghost['!wname'] = name
    for q, v in (('!nwalk', 0), ('!nwinfo', 0), ('!nwdir', dr), ('!nwsize', size), ('!nwtime', mt)): st.ghost[q] = v
    s2 = st.fork()
    s2.fact(z3.And(dr >= 0, dr <= 1)); s2.typefacts(size, 'int64'); s2.fact(z3.And(mt >= -(1 << 62), mt < (1 << 62)))
    s2.ghost['!nwalk'] = 1
    out = [(st, NILI)]
    for known in (1, 0):
        s3 = s2.fork(); s3.ghost['!nwinfo'] = known
        t = fresh('info', I)
        if known: s3.fact(t != nilI); info = IfV(term=t); s3.ghost['$wi ' + str(t)] = True; e = NILI
        else: info = NILI; e = failed(s3)
        p = fresh('wpath', S); s3.slen(p)
        lists = [q for q in set(s3.mem) | set(eng.bases) if q[0] == 'netdata.ListValue']       # lists: whatever the additions for other entries made of them
        for q in lists: x = s3.peek(q); s3.mem[q] = eng.fresharr(q, x.et, x.dims, s3.cnt)
        s3.rcache = {}
        mark = -s3.cnt; w0 = s3._wlog; k = len(s3.frames)
        eng.w.cur = s3
        if fv.name is None: raise Unsupported('walk with an unknown function')
        x = eng.callfn(s3, fv.name, [p, info, e], None, False, bind=fv.bind)
        if x is not None: raise Unsupported('walk with a function under contract')
        sv = getattr(eng, 'extra', None)
        rets, panics = eng.explore(s3, k + 1)
        eng.extra = sv
        for s4, v in panics:
            if s4.sat() is not False: eng.record(s4, False, 'no-panic:walk', f'the walk function panics: {v}')
        for s4, vs in rets:
            if s4.sat() is False: continue
            eng.w.cur = s4
            x = s4._wlog
            while x and x is not w0:
                key, idxs = x[0]; x = x[1]
                if not (isinstance(idxs[0], int) and idxs[0] < mark): raise Unsupported(f'a walk function that changes {key[0]}')
            if set(s4.outs) - set(s3.outs) - {'$ev'} or any(s4.outs[q] is not s2.outs.get(q, s4.outs[q]) for q in s4.outs if q != '$ev'): raise Unsupported('a walk function that writes')
            for q in lists:
                if q in s2.mem: s4.mem[q] = s2.mem[q]
                else: s4.mem.pop(q, None)
            s4.rcache = {}
            eng.oblige(s4, eng.w.ifeq(vs[0], NILI), 'walk:continues', 'the walk goes on after every entry')
            out.append((s4, NILI))
    for x, _ in out: x.ghost['$wl'] = tuple((q, x.mem.get(q)) for q in set(x.mem) | set(eng.bases) if q[0] == 'netdata.ListValue')
    eng.w.cur = st
    return out
def s_listskept():
    st = SP.CTX.st
    return '$wl' in st.ghost and all(st.mem.get(q) is a for q, a in st.ghost['$wl'])
SP.BASE_ENV['listskept'] = s_listskept
def walked(k, f):
    """file information from a walk; otherwise the earlier model"""
    for n in ('os.FileInfo.' + k, 'io/fs.FileInfo.' + k):
        old = MODELS.get(n)
        def m(eng, st, a, old=old, n=n):
            if a[0].term is not None and '$wi ' + str(a[0].term) in st.ghost: return f(st)
            if old is None: raise Unsupported('file information not from a walk')
            return old(eng, st, a)
        MODELS[n] = m
def wname(st): st.slen(st.ghost['!wname']); return st.ghost['!wname']
walked('Name', wname)
walked('Size', lambda st: st.ghost['!nwsize'])
walked('IsDir', lambda st: simp(st.ghost['!nwdir'] == 1))
walked('ModTime', lambda st: ExtV('time.Time', st.ghost['!nwtime']))
