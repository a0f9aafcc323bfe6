"""Text matching: what strings.HasPrefix, HasSuffix, Contains, Index and IndexByte say about the text (trusted, from their documentation).
at(t, i, m): m stands in t at position i; occ(t, lo, hi, m): m stands somewhere in t[lo:hi];
idx(t, c, lo): the first position >= lo of the byte c in t, or -1."""
import z3
from core import *
from state import *
import engine as E, lib
from lib import MODELS, model
import spec as SP
at_f = z3.Function('at', S, INT, S, BOOL)
occ_f = z3.Function('occ', S, INT, INT, S, BOOL)
idx_f = z3.Function('idx', S, INT, INT, INT)
fst_f = z3.Function('first', S, INT, INT, S, INT)
SUB = z3.Function('substr', S, INT, INT, S)
def parts(eng, st, x):
    """(text, lo, hi): x is text[lo:hi]"""
    lo = 0; hi = st.slen(x)
    while isz(x) and x.decl().eq(SUB):
        base, a = x.arg(0), x.arg(1)
        a = a.as_long() if z3.is_int_value(a) else a
        lo, hi = add(a, lo), add(a, hi)
        x = st.unlit(base)
    return x, lo, hi
def ground(i): return isc(i) or not SP.hasvar(i) and not any(n.startswith(('q!', 'x!', 'j!')) for n in SP.consts(i)) if isz(i) else True
def once(st, t):
    k = ('txt', t.get_id())
    if k in st.tf: return False
    st.tf.add(k); st.eng.keep.append(t); return True
def at(eng, st, t, i, m):
    """m stands in t at position i"""
    x, lo, hi = parts(eng, st, t)
    n = st.slen(m)
    r = at0(eng, st, x, add(lo, i), m)
    if isc(lo) and lo == 0 and same(hi, st.slen(x)): return r
    return z3.And(zb(r), zb(le(add(i, n), sub(hi, lo))), zb(le(0, i)))
def at0(eng, st, x, i, m):
    if isinstance(x, bytes) and isinstance(m, bytes) and isc(i): return x[i:i + len(m)] == m and 0 <= i <= len(x) - len(m)
    t = at_f(zs(x), zi(i), zs(m))
    if ground(i) and once(st, t):
        n = st.slen(m); j = simp(zi(add(i, n)))
        b = SUB(zs(x), zi(i), zi(j))
        whole = z3.And(zi(i) == 0, zi(n) == zi(st.slen(x)))
        st.fact(t == z3.And(zi(i) >= 0, zi(j) <= zi(st.slen(x)), z3.If(whole, zs(x) == zs(m), b == zs(m))))
    if not ground(i): return z3.And(t, zi(i) >= 0, zi(add(i, st.slen(m))) <= zi(st.slen(x)))
    return t
def occ(eng, st, t, lo, hi, m):
    x, a, b = parts(eng, st, t)
    return occ0(eng, st, x, add(a, lo), add(a, hi), m)
def occ0(eng, st, x, lo, hi, m):
    t = occ_f(zs(x), zi(lo), zi(hi), zs(m))
    if ground(lo) and ground(hi) and once(st, t):
        j = z3.Int('j!occ'); n = zi(st.slen(m))
        w = z3.Function('occat', S, INT, INT, S, INT)(zs(x), zi(lo), zi(hi), zs(m))
        st.fact(z3.Implies(t, z3.And(zi(lo) <= w, w + n <= zi(hi), at_f(zs(x), w, zs(m)))))
        st.fact(z3.Implies(t, zi(lo) + n <= zi(hi)))
        A = at_f(zs(x), j, zs(m))
        st.fact(z3.ForAll([j], z3.Implies(z3.And(zi(lo) <= j, j + n <= zi(hi), A), t), patterns=[A]))
    return t
def idx(eng, st, t, c, lo):
    x, a, b = parts(eng, st, t)
    r = idx_f(zs(x), zi(c), zi(add(a, lo)))
    if isc(a) and a == 0 and same(b, st.slen(x)): lo2 = lo
    else: lo2 = add(a, lo)
    if once(st, r):
        n = zi(st.slen(x)); j = z3.Int('j!idx')
        ch = st.schar(x, r)
        st.fact(z3.Or(r == -1, z3.And(r >= zi(lo2), r < n, zi(ch) == zi(c))))
        sr = sbytes_f(zs(x)) if not isinstance(x, bytes) else None
        if sr is not None:
            R = sr[j]
            st.fact(z3.ForAll([j], z3.Implies(z3.And(zi(lo2) <= j, j < n, R == zi(c)), z3.And(r != -1, r <= j)), patterns=[R]))
    if isc(a) and a == 0 and same(b, st.slen(x)): return r
    return z3.If(z3.Or(r == -1, r >= zi(b)), -1, r - zi(a))
def lits(a): return all(isinstance(x, (bytes, int)) for x in a)
@model('strings.HasPrefix')
def m_prefix(eng, st, a):
    if lits(a): return a[0].startswith(a[1])
    if isinstance(a[1], bytes) and a[1] == b'': return True
    r = at(eng, st, a[0], 0, a[1])
    if isz(r): st.fact(z3.Implies(r, zi(st.slen(a[0])) >= zi(st.slen(a[1]))))
    return r
@model('strings.HasSuffix')
def m_suffix(eng, st, a):
    if lits(a): return a[0].endswith(a[1])
    r = at(eng, st, a[0], sub(st.slen(a[0]), st.slen(a[1])), a[1])
    if isz(r): st.fact(z3.Implies(r, zi(st.slen(a[0])) >= zi(st.slen(a[1]))))
    return r
@model('strings.Contains')
def m_contains(eng, st, a):
    if lits(a): return a[1] in a[0]
    if isinstance(a[1], bytes) and len(a[1]) == 1:
        return idx(eng, st, a[0], a[1][0], 0) != -1
    return occ(eng, st, a[0], 0, st.slen(a[0]), a[1])
@model('strings.Index')
def m_index(eng, st, a):
    if lits(a): return a[0].find(a[1])
    if isinstance(a[1], bytes) and len(a[1]) == 1: return idx(eng, st, a[0], a[1][0], 0)
    x, lo, hi = parts(eng, st, a[0]); m = a[1]; n = zi(st.slen(m))
    r = fst_f(zs(x), zi(lo), zi(hi), zs(m))
    if once(st, r):
        o = occ0(eng, st, x, lo, hi, m)
        st.fact(z3.If(o, z3.And(r >= zi(lo), r + n <= zi(hi), at_f(zs(x), r, zs(m))), r == zi(lo) - 1))
        j = z3.Int('j!idx'); A = at_f(zs(x), j, zs(m))
        st.fact(z3.ForAll([j], z3.Implies(z3.And(zi(lo) <= j, j + n <= zi(hi), A), r <= j), patterns=[A]))
    return simp(r - zi(lo))
@model('strings.IndexByte')
def m_indexbyte(eng, st, a):
    if lits(a): return a[0].find(bytes([a[1]]))
    return idx(eng, st, a[0], a[1], 0)
def V(f): return lambda *a: f(SP.CTX.eng, SP.CTX.st, *a)
SP.BASE_ENV['at'] = V(at); SP.BASE_ENV['occ'] = V(occ); SP.BASE_ENV['idx'] = V(idx)
SP.BASE_ENV['sub'] = V(lambda eng, st, s, lo, hi: eng.substr(st, s, lo, hi))
