"""context.Context: a context maps keys to values. Only keys of package-private struct types are used as keys, so a key is named by its type.
ctxval(ctx, "pkg.keytype"): the value of the key in the context (nil when absent)."""
import z3
from core import *
from state import *
import engine as E, lib
from lib import MODELS, model
import spec as SP
def cv(eng, st, c, kt):
    f = z3.Function('ctxval ' + kt, I, I)
    return f(eng.w.ifterm(c))
@model('context.Context.Value')
def m_value(eng, st, a):
    if a[1].tn is None: raise Unsupported('context key of unknown type')
    return IfV(None, None, cv(eng, st, a[0], a[1].tn))
@model('context.WithValue')
def m_withvalue(eng, st, a):
    if a[1].tn is None: raise Unsupported('context key of unknown type')
    t = fresh('ctx', I); st.fact(t != nilI)
    r = IfV(None, None, t)
    st.fact(cv(eng, st, r, a[1].tn) == eng.w.ifterm(a[2]))
    return r
@model('context.Background', 'context.TODO')
def m_background(eng, st, a):
    t = z3.Const('ctx!background', I); st.fact(t != nilI)
    r = IfV(None, None, t)
    st.fact(z3.And(cv(eng, st, r, 'tctxmanager.ctxKey') == nilI, tagof(nilI) == 0))
    return r
def s_ctxval(c, kt):
    return IfV(None, None, cv(SP.CTX.eng, SP.CTX.st, c, kt.decode()))
SP.BASE_ENV.update(dict(ctxval=s_ctxval))
