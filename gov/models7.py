"""strconv.FormatInt/FormatUint (text of a number in a base), net/http.Header (values by header map and constant canonical key)."""
import z3, re
from core import *
from state import *
import engine as E, lib
from lib import MODELS, model
import spec as SP

DIG = '0123456789abcdefghijklmnopqrstuvwxyz'
def lit(n, b):
    if n < 0: return '-' + lit(-n, b)
    return DIG[n] if n < b else lit(n // b, b) + DIG[n % b]
fmt_f = z3.Function('formatint', INT, INT, S)
def text(eng, st, n, b):
    """the text of the 64-bit number n in base b"""
    if isinstance(n, int) and isinstance(b, int): return lit(n, b).encode()
    if b == 10: return lib.purecall(eng, st, 'strconv.Itoa', [n], 'string')
    t = fmt_f(zi(n), zi(b)); st.fact(z3.And(zi(st.slen(t)) >= 1, zi(st.slen(t)) <= 65))
    return t
@model('strconv.FormatInt')
def m_formatint(eng, st, a): return text(eng, st, a[0], a[1])
@model('strconv.FormatUint')
def m_formatuint(eng, st, a):
    if isinstance(a[0], int) or st.valid(zi(a[0]) <= 2**63 - 1): return text(eng, st, a[0], a[1])
    return lib.purecall(eng, st, 'strconv.FormatUint', a, 'string')

# ---- headers
def canon(k):
    if k is None or not isinstance(k, bytes): raise Unsupported('header key that is not a constant')
    return '-'.join(p[:1].upper() + p[1:].lower() for p in k.decode().split('-'))
def hptr(h, k): return PtrV('string', h.ref, '$hdr', (canon(k),))
def hcnt(h, k): return PtrV('int', h.ref, '$hdrn', (canon(k),))
@model('(net/http.Header).Set')
def m_hset(eng, st, a):
    """exactly one value"""
    if not eng.panic_unless(st, simp(zi(a[0].ref) != 0), 'assignment to nil map'): return [st] if st.panicking is not None else []
    st.store(hptr(a[0], a[1]), a[2], 'string'); st.store(hcnt(a[0], a[1]), 1, 'int')
    return None
@model('(net/http.Header).Add')
def m_hadd(eng, st, a):
    """one value more; the first one (the one Get returns) changes only if there was none"""
    if not eng.panic_unless(st, simp(zi(a[0].ref) != 0), 'assignment to nil map'): return [st] if st.panicking is not None else []
    n = st.load(hcnt(a[0], a[1]), 'int')
    if not isinstance(n, int): st.fact(le(0, n))
    d = st.decide(simp(zi(n) == 0)) if not isinstance(n, int) else n == 0
    out = []
    for none in ((True, False) if d is None else (d,)):
        s2 = st.fork() if d is None else st
        if d is None: s2.fact(simp(zi(n) == 0) if none else not_(simp(zi(n) == 0)), True)
        if none: s2.store(hptr(a[0], a[1]), a[2], 'string')
        s2.store(hcnt(a[0], a[1]), add(n, 1), 'int')
        out.append((s2, None))
    return out
def s_header(h, k): return SP.CTX.st.load(hptr(h, k), 'string')
def s_headers(h, k): return SP.CTX.st.load(hcnt(h, k), 'int')
SP.BASE_ENV.update(header=s_header, headercount=s_headers, textof=lambda n, b: text(SP.CTX.eng, SP.CTX.st, n, b))
# ---- the text of an error: a function of the error value
errtext_f = z3.Function('errtext', I, S)
@model('error.Error')
def m_error(eng, st, a):
    t = errtext_f(eng.w.ifterm(a[0])); st.strfacts(t) if hasattr(st, 'strfacts') else None
    return t
SP.BASE_ENV.update(errtext=lambda e: errtext_f(SP.CTX.eng.w.ifterm(e)))
