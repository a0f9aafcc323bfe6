"""Models of the process environment, the file system as seen by one call, and github.com/magiconair/properties (trusted).
A Properties object is a reference to an immutable content; contents are built by pset (Set), pmerge (Merge, the argument takes
precedence) and pfilter (FilterFunc keeping the entries with a non-empty value); phas/pval tell what a content binds a key to."""
import z3
from core import *
from state import *
import engine as E, lib
from lib import MODELS, model, retuple, err, strslice
import spec as SP
PP = '(*github.com/magiconair/properties.Properties).'
PN = 'github.com/magiconair/properties.'
F = z3.Function
phas_f = F('phas', INT, S, BOOL); pval_f = F('pval', INT, S, S)
pset_f = F('pset', INT, S, S, INT); pmerge_f = F('pmerge', INT, INT, INT); pfilter_f = F('pnonempty', INT, INT)
penv_f = F('penv', INT, INT); envn = z3.Int('environ!n'); env_f = F('environ', INT, S)
truthy_f = F('truthy', S, BOOL)
isint_f = F('isint64', S, BOOL); toint_f = F('toint64', S, INT)
getenv_f = F('getenv', S, S)
ROOT = ('$props', ('c',))
def content(st, p): return st.load(PtrV('int', p.ref, *ROOT), 'int')
def setcontent(st, p, c): st.store(PtrV('int', p.ref, *ROOT), c, 'int')
def newprops(st, c):
    p = PtrV(PN + 'Properties', st.newref()); setcontent(st, p, c); return p
@model(PN + 'NewProperties')
def p_new(eng, st, a): return newprops(st, 0)
@model(PP + 'Set')
def p_set(eng, st, a):
    if not eng.nilcheck(st, a[0], 'nil properties'): return []
    setcontent(st, a[0], pset_f(zi(content(st, a[0])), zs(a[1]), zs(a[2])))
    return retuple(fresh('prev', S), fresh('ok', BOOL), IfV(term=fresh('err', I)))
@model(PP + 'Merge')
def p_merge(eng, st, a):
    if not eng.nilcheck(st, a[0], 'nil properties') or not eng.nilcheck(st, a[1], 'nil properties'): return []
    setcontent(st, a[0], pmerge_f(zi(content(st, a[0])), zi(content(st, a[1]))))
@model(PP + 'FilterFunc')
def p_filter(eng, st, a):
    if not eng.nilcheck(st, a[0], 'nil properties'): return []
    c = content(st, a[0]); fs = a[1]
    if isc(fs.l) and fs.l == 1:
        import vc
        fv = st.load(st.elemptr(fs, 0), fs.et)
        if vc.meets(eng, st, fv, 'props.nonempty') is True: return newprops(st, pfilter_f(zi(c)))
    return newprops(st, fresh('filtered', INT))
def getstr(st, c, k, d): return simp(z3.If(phas_f(zi(c), zs(k)), pval_f(zi(c), zs(k)), zs(d)))
def getint(st, c, k, d):
    v = pval_f(zi(c), zs(k)); st.typefacts(toint_f(v), 'int')
    return simp(z3.If(z3.And(phas_f(zi(c), zs(k)), isint_f(v)), toint_f(v), zi(d)))
def getbool(st, c, k, d): return simp(z3.If(phas_f(zi(c), zs(k)), truthy_f(pval_f(zi(c), zs(k))), zb(d)))
for n_, f_ in (('GetString', getstr), ('GetInt', getint), ('GetBool', getbool)):
    def mk(f_):
        def m(eng, st, a):
            if not eng.nilcheck(st, a[0], 'nil properties'): return []
            return f_(st, content(st, a[0]), a[1], a[2])
        return m
    MODELS[PP + n_] = mk(f_)
# ---- environment variables: fixed during a call
@model('os.Getenv')
def m_getenv(eng, st, a): return getenv_f(zs(a[0]))
@model('os.Environ')
def m_environ(eng, st, a):
    st.fact(and_(le(0, envn), lt(envn, 1 << 31)))
    return strslice(eng, st, envn, lambda i: env_f(zi(i)))
splitn2_f = F('splitn_n', S, S, INT, INT); splitn2p_f = F('splitn_part', S, S, INT, INT, S)
@model('strings.SplitN')
def m_splitn(eng, st, a):
    s_, sep, n = a
    if not (isc(n) and n > 0): raise Unsupported('SplitN without a positive constant limit')
    k = splitn2_f(zs(s_), zs(sep), zi(n))
    st.fact(and_(le(1, k), le(k, n)))
    return strslice(eng, st, k, lambda i: splitn2p_f(zs(s_), zs(sep), zi(n), zi(i)))
# ---- file system: what a path yields does not change during a call unless the call writes
def gen(st):
    if st.ghost.get('$fs') is None: st.ghost['$fs'] = z3.Int('fs!entry')
    return zi(st.ghost['$fs'])
def bump(st): gen(st); st.ghost['$fs'] = fresh('fs', INT)
staterr_f = F('staterr', INT, S, I); statinfo_f = F('statinfo', INT, S, I)
loaderr_f = F('loaderr', INT, S, I); loadc_f = F('loadc', INT, S, INT)
def errfacts(st, e, path):
    """an error of a path operation"""
@model('os.Stat')
def m_stat(eng, st, a):
    g = gen(st); e = staterr_f(g, zs(a[0])); i = statinfo_f(g, zs(a[0]))
    st.fact((e == nilI) == (i != nilI))
    return retuple(IfV(term=i), IfV(term=e))
@model(PN + 'LoadFile')
def m_loadfile(eng, st, a):
    g = gen(st); e = loaderr_f(g, zs(a[0]))
    s2 = st.fork(); s2.fact(e != nilI, True)
    st.fact(e == nilI, True)
    p = newprops(st, loadc_f(g, zs(a[0])))
    return [(st, TupV([p, NILI])), (s2, TupV([PtrV(PN + 'Properties', 0), IfV(term=e)]))]
modtime_f = F('modtime', I, INT)
@model('io/fs.FileInfo.ModTime', 'os.FileInfo.ModTime')
def m_modtime(eng, st, a):
    t = modtime_f(eng.w.ifterm(a[0])); st.fact(and_(le(0, t), lt(t, 1 << 62)))
    return ExtV('time.Time', t)
@model('os.MkdirAll')
def m_mkdirall(eng, st, a): bump(st); return IfV(term=fresh('err', I))
pjoin_f = F('pathjoin', S, S, S)
@model('path/filepath.Join')
def m_join(eng, st, a):
    sl = a[0]
    if not isc(sl.l) or sl.l == 0: return lib.havocresult(eng, st, eng.callt, 'join')
    t = zs(st.load(st.elemptr(sl, 0), 'string'))
    for j in range(1, sl.l): t = pjoin_f(t, zs(st.load(st.elemptr(sl, j), 'string')))
    return t
hosterr_f = z3.Const('hosterr!entry', I); hostname_c = z3.Const('hostname!entry', S)
@model('os.Hostname')
def m_hostname(eng, st, a): return retuple(hostname_c, IfV(term=hosterr_f))

# ---------------------------------------------------------------- vocabulary
st_ = lambda: SP.CTX.st
def s_penv(i):
    """content after setting the first i environment entries"""
    st = st_(); t = penv_f(zi(i))
    if SP.CTX.outer is None:
        st.fact(z3.Implies(zi(i) <= 0, t == 0))
        j = zi(sub(i, 1)); e = env_f(j); eq = zs(b'=')
        st.fact(z3.Implies(zi(i) > 0, t == z3.If(splitn2_f(e, eq, zi(2)) == 2, pset_f(penv_f(j), splitn2p_f(e, eq, zi(2), zi(0)), splitn2p_f(e, eq, zi(2), zi(1))), penv_f(j))))
    return t
SP.BASE_ENV.update(pcontent=lambda p: content(st_(), p), pstr=lambda c, k, d: getstr(st_(), c, k, d), pint=lambda c, k, d: getint(st_(), c, k, d), pbool=lambda c, k, d: getbool(st_(), c, k, d),
    penv=s_penv, environn=lambda: envn, pmerge=lambda a, b: pmerge_f(zi(a), zi(b)), pnonempty=lambda a: pfilter_f(zi(a)), getenv=lambda k: getenv_f(zs(k)),
    staterr=lambda p: IfV(term=staterr_f(gen(st_()), zs(p))), statinfo=lambda p: IfV(term=statinfo_f(gen(st_()), zs(p))),
    loaderr=lambda p: IfV(term=loaderr_f(gen(st_()), zs(p))), loadc=lambda p: loadc_f(gen(st_()), zs(p)),
    modtime=lambda i: modtime_f(SP.CTX.eng.w.ifterm(i)), pathjoin=lambda a, b: pjoin_f(zs(a), zs(b)),
    hostname=lambda: hostname_c, hosterr=lambda: IfV(term=hosterr_f))
def s_fmt(name):
    def f(v):
        if isinstance(v, bool): return b'true' if v else b'false'
        if isinstance(v, int): return str(v).encode()
        return lib.purecall(SP.CTX.eng, st_(), name, [v], 'string')
    return f
SP.BASE_ENV.update(fmtbool=s_fmt('strconv.FormatBool'), itoa=s_fmt('strconv.Itoa'))
cwd_c, cwderr_c, tmp_c = z3.Const('cwd!entry', S), z3.Const('cwderr!entry', I), z3.Const('tempdir!entry', S)
@model('os.Getwd')
def m_getwd(eng, st, a): return retuple(cwd_c, IfV(term=cwderr_c))
@model('os.TempDir')
def m_tempdir(eng, st, a): return tmp_c
SP.BASE_ENV.update(cwd=lambda: cwd_c, cwderr=lambda: IfV(term=cwderr_c), tempdir=lambda: tmp_c)
SP.BASE_ENV['nanos'] = lambda t: t.x

# ---- figures of the runtime, as last read (ghosts $rt.*)
@model('runtime.NumGoroutine')
def m_numgo(eng, st, a):
    x = fresh('goroutines', INT); st.typefacts(x, 'int'); st.fact(x >= 0); st.ghost['$rt.goroutines'] = x; return x
@model('runtime.NumCgoCall')
def m_numcgo(eng, st, a):
    x = fresh('cgocalls', INT); st.typefacts(x, 'int64'); st.fact(x >= 0); st.ghost['$rt.cgocalls'] = x; return x
@model('runtime.ReadMemStats')
def m_memstats(eng, st, a):
    p = a[0]
    if not eng.nilcheck(st, p, 'nil MemStats'): return []
    for f in eng.p.fields('runtime.MemStats'):
        if eng.w.lkind(f['t']) != 'int': continue
        x = fresh('mem' + f['name'], INT); st.typefacts(x, f['t']); st.ghost['$rt.' + f['name']] = x
        st.store(PtrV(f['t'], p.ref, p.root, p.path + (f['name'],)), x, f['t'])
@model('(*math/rand.Rand).Int63')
def m_int63(eng, st, a):
    if not eng.nilcheck(st, a[0], 'nil random source'): return []
    x = fresh('rnd', INT); st.fact(z3.And(x >= 0, x < 1 << 63)); return x
