"""Contract language: parsing, evaluation, application at call sites and verification of bodies."""
import ast, z3, re, time, os
from core import *
from state import *
from stream import *
import engine as E

class Ch(list):
    """a chunk list as a spec value"""

class Ctx: pass
CTX = Ctx(); CTX.st = None; CTX.eng = None; CTX.old = None; CTX.okmap = None; CTX.outer = None; CTX.lastfk = None

class Tr(ast.NodeTransformer):
    def call(s, n, *a): return ast.Call(func=ast.Name(id=n, ctx=ast.Load()), args=list(a), keywords=[])
    def lam(s, e): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
    def visit_BoolOp(s, n):
        s.generic_visit(n)
        return s.call('_and' if isinstance(n.op, ast.And) else '_or', *[s.lam(v) for v in n.values])
    def visit_UnaryOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Not): return s.call('_not', n.operand)
        return n
    def visit_Compare(s, n):
        s.generic_visit(n)
        parts = []; l = n.left
        for o, r in zip(n.ops, n.comparators):
            if isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)): return n
            nm = {ast.Eq: '_eq', ast.NotEq: '_ne', ast.Lt: '_lt', ast.LtE: '_le', ast.Gt: '_gt', ast.GtE: '_ge'}[type(o)]
            parts.append(s.call(nm, l, r)); l = r
        return parts[0] if len(parts) == 1 else s.call('_and', *[s.lam(p) for p in parts])
    def visit_BinOp(s, n):
        s.generic_visit(n)
        nm = {ast.Add: '_add', ast.Sub: '_sub', ast.Mult: '_mul', ast.FloorDiv: '_fdiv', ast.Mod: '_mod', ast.Div: '_rdiv'}.get(type(n.op))
        return s.call(nm, n.left, n.right) if nm else n
    def visit_IfExp(s, n):
        s.generic_visit(n)
        return s.call('_ite', n.test, s.lam(n.body), s.lam(n.orelse))
    def visit_Attribute(s, n):
        s.generic_visit(n)
        return s.call('_attr', n.value, ast.Constant(n.attr))
    def visit_Subscript(s, n):
        s.generic_visit(n)
        if isinstance(n.slice, ast.Slice): return s.call('_slc', n.value, n.slice.lower or ast.Constant(0), n.slice.upper or ast.Constant(None))
        return s.call('_idx', n.value, n.slice)
    def visit_Constant(s, n):
        if isinstance(n.value, str): return ast.Constant(n.value.encode())
        return n
    def visit_Call(s, n):
        s.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('old', 'implies', 'pre'):
            if n.func.id in ('old', 'pre'): return s.call('_old', s.lam(n.args[0]))
            return s.call('_implies', n.args[0], s.lam(n.args[1]))
        if isinstance(n.func, ast.Name) and n.func.id in ('ite', 'cond'):
            return s.call('_' + n.func.id, n.args[0], s.lam(n.args[1]), s.lam(n.args[2]))
        return n

def cexpr(src):
    t = ast.parse(src.strip(), mode='eval')
    t = ast.fix_missing_locations(ast.Expression(Tr().visit(t.body)))
    return compile(t, '<spec: %s>' % src.strip()[:60], 'eval')

# ---------------------------------------------------------------- evaluation helpers
def st_(): return CTX.st
def lift_bytes(x): return x
def _and(*fs):
    r = []
    for f in fs:
        v = f()
        if v is False: return False
        r.append(v)
    return and_(*r)
def _or(*fs):
    r = []
    for f in fs:
        v = f()
        if v is True: return True
        r.append(v)
    return or_(*r)
def _not(a): return not_(a)
def _implies(a, f):
    if a is False: return True
    return implies(a, f())
def _ite(c, a, b):
    if isinstance(c, bool): return a() if c else b()
    x, y = a(), b()
    if isinstance(x, Ch): return Ch([('COND', c, list(x), list(y))])
    if isinstance(x, (int, bool)) or isz(x):
        if isinstance(x, bool) or (isz(x) and x.sort() == BOOL): return simp(z3.If(c, zb(x), zb(y)))
        if isz(x) and x.sort() == S or isz(y) and y.sort() == S: return pick(c, x, y)
        if isz(x) and x.sort() == REAL or isz(y) and y.sort() == REAL: return z3.If(c, zr(x), zr(y))
        return simp(z3.If(c, zi(x), zi(y)))
    if isinstance(x, bytes): return pick(c, x, y)
    if isinstance(x, IfV): return CTX.eng.w.ite(c, x, y, 'error')
    if isinstance(x, PtrV): return PtrV(x.et, simp(z3.If(c, zi(x.ref), zi(y.ref))))
    if isinstance(x, BytesV) or isinstance(y, BytesV):
        return Cond2(c, x, y)
    raise Unsupported('ite of ' + type(x).__name__)
def pick(c, x, y):
    if CTX.outer is None and isz(c):
        d = CTX.st.decide(c)
        if d is not None: return x if d else y
    return z3.If(c, zs(x), zs(y))
def _cond(c, a, b): return _ite(c, a, b)
def _old(f):
    sv = CTX.st
    CTX.st = CTX.old.fork()
    CTX.st.node = sv.node       # facts learned later hold as well
    try:
        CTX.eng.w.cur = CTX.st
        return f()
    finally:
        sv.node = CTX.st.node if CTX.st.node.d >= sv.node.d else sv.node
        CTX.st = sv; CTX.eng.w.cur = sv
def isnil_val(v):
    if isinstance(v, PtrV): return CTX.eng.w.eq(v.ref, 0, 'int')
    if isinstance(v, SliceV): return CTX.eng.w.eq(v.b, 0, 'int')
    if isinstance(v, IfV): return CTX.eng.w.ifeq(v, NILI)
    if isinstance(v, (MapV, ChanV)): return CTX.eng.w.eq(v.ref, 0, 'int')
    if isinstance(v, FuncV): return False if v.name else CTX.eng.w.eq(v.ref, 0, 'int')
    raise Unsupported('nil comparison of ' + type(v).__name__)
class Nil: pass
nil = Nil()
def _eq(a, b):
    w = CTX.eng.w
    if b is nil: return isnil_val(a)
    if a is nil: return isnil_val(b)
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and a.sort() == BOOL):
        return simp(zb(a) == zb(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
    if isinstance(a, bytes) or isinstance(b, bytes) or (isz(a) and a.sort() == S): return w.eq(a, b, 'string')
    if (isz(a) and a.sort() == REAL) or (isz(b) and b.sort() == REAL): return simp(zr(a) == zr(b))
    if isinstance(a, PtrV): return w.eq(a, b, '*' + a.et) if ('*' + a.et) in w.p.types else ptreq(a, b)
    if isinstance(a, IfV) or isinstance(b, IfV):
        return w.ifeq(a, b)
    if isinstance(a, SliceV) and isinstance(b, SliceV): return and_(*[w.eq(x, y, 'int') for x, y in ((a.b, b.b), (a.o, b.o), (a.l, b.l))])
    if isinstance(a, (MapV, ChanV)): return w.eq(a.ref, b.ref, 'int')
    if isinstance(a, StructV): return w.eq(a, b, a.tn)
    if isinstance(a, ExtV): return w.eq(a.x, b.x, 'int')
    if isz(a) and isz(b) and a.sort() not in (INT,): return a == b
    if isinstance(a, FuncV): return w.eq(a, b, a.tn or b.tn)
    return w.eq(a, b, 'int')
def ptreq(a, b):
    if a.root != b.root or len(a.path) != len(b.path): return False
    cs = [CTX.eng.w.eq(a.ref, b.ref, 'int')]
    for x, y in zip(a.path, b.path):
        if isinstance(x, str) or isinstance(y, str):
            if x != y: return False
        else: cs.append(CTX.eng.w.eq(x[1], y[1], 'int'))
    return and_(*cs)
def _ne(a, b): return not_(_eq(a, b))
def _num(a, b): return (isz(a) and a.sort() == REAL) or (isz(b) and b.sort() == REAL)
def _lt(a, b): return simp(zr(a) < zr(b)) if _num(a, b) else lt(a, b)
def _le(a, b): return simp(zr(a) <= zr(b)) if _num(a, b) else le(a, b)
def _gt(a, b): return _lt(b, a)
def _ge(a, b): return _le(b, a)
def _add(a, b):
    if isinstance(a, Ch) or isinstance(b, Ch): return Ch(list(a) + list(b))
    if isinstance(a, bytes) or isinstance(b, bytes) or (isz(a) and a.sort() == S): return CTX.st.sconcat(a, b)
    if _num(a, b): return z3.simplify(zr(a) + zr(b))
    return add(a, b)
def _sub(a, b): return z3.simplify(zr(a) - zr(b)) if _num(a, b) else sub(a, b)
def _mul(a, b): return z3.simplify(zr(a) * zr(b)) if _num(a, b) else mul(a, b)
def _rdiv(a, b): return z3.simplify(zr(real(a)) / zr(real(b)))
def real(a):
    if isinstance(a, (int, float)): return z3.RealVal(a)
    return z3.ToReal(a) if a.sort() == INT else a
def _fdiv(a, b): return ediv(a, b)
def _mod(a, b): return emod(a, b)
def _attr(o, n):
    w = CTX.eng.w
    if isinstance(o, IfV):
        if o.tn is None: raise Unsupported('attribute of symbolic interface; use as_()')
        o = o.v
    if isinstance(o, PtrV):
        fd = fieldnamed(o.et, n)
        return CTX.st.load(PtrV(fd['t'], o.ref, o.root, o.path + (fd['name'],)), fd['t'])
    if isinstance(o, StructV):
        for f, x in zip(w.p.fields(o.tn), o.fs):
            if f['name'] == n: return x
    if isinstance(o, SliceV) and n in ('b', 'o', 'l', 'c'): return getattr(o, n)
    raise Unsupported(f'spec: attribute {n} of {type(o).__name__}')
def fieldnamed(t, n):
    for f in CTX.eng.w.p.fields(t):
        if f['name'] == n: return f
    raise KeyError(f'type {t} has no field {n}')
def lval(o, n):
    if isinstance(o, IfV): o = o.v
    fd = fieldnamed(o.et, n)
    return PtrV(fd['t'], o.ref, o.root, o.path + (fd['name'],))
def _idx(o, i):
    if isinstance(o, SliceV): return CTX.st.load(CTX.st.elemptr(o, i), o.et)
    if isinstance(o, MapV):
        kt, et = CTX.eng.mt(o)
        return CTX.eng.mapval(CTX.st, o, CTX.eng.mkey(CTX.st, i, kt), et)
    if isinstance(o, ArrV): return o.row.read(CTX.st, i)
    if isinstance(o, bytes) or (isz(o) and o.sort() == S): return CTX.st.schar(o, i)
    if isinstance(o, BytesV): return o.row.read(CTX.st, add(o.lo, i))
    if isinstance(o, (list, tuple)): return o[i]
    if isz(o): return o[zi(i)]
    raise Unsupported('spec index of ' + type(o).__name__)
def _slc(o, a, b):
    if isinstance(o, BytesV): return BytesV(o.row, add(o.lo, a), o.hi if b is None else add(o.lo, b))
    if isinstance(o, SliceV):
        b = o.l if b is None else b
        return SliceV(o.et, o.b, add(o.o, a), sub(b, a), sub(o.c, a))
    raise Unsupported('spec slice')
# ---------------------------------------------------------------- vocabulary
def BE(n, v):
    if isinstance(v, bool): v = 1 if v else 0
    return Ch([('BE', n, CTX.eng.umod(CTX.st, v, 8 * n))])
def RAW(b):
    b = content(b)
    if isinstance(b, Cond2): return Ch([('COND', b.c, list(RAW(b.a)), list(RAW(b.b)))])
    return Ch([('ARR', b.row, b.lo, b.hi)])
def bytesof(ch):
    """the bytes of a chunk list, as byte content"""
    import lib
    n = CTX.eng.St.blen(CTX.st, ch)
    if isz(n): CTX.st.fact(z3.And(n >= 0, n <= BIG))
    return BytesV(lib.chunkrow(list(ch), n), 0, n)
def content(x):
    """immutable content of a byte slice or string"""
    if isinstance(x, (BytesV, Cond2)): return x
    if isinstance(x, SliceV): return BytesV(CTX.st.row(x), x.o, add(x.o, x.l))
    return BytesV(CTX.st.srow(x), 0, CTX.st.slen(x))
def blength(x):
    if isinstance(x, BytesV): return sub(x.hi, x.lo)
    if isinstance(x, Cond2): return _ite(x.c, lambda: blength(x.a), lambda: blength(x.b))
    return length(x)
def length(x):
    if isinstance(x, SliceV): return x.l
    if isinstance(x, MapV): return CTX.eng.maplen(CTX.st, x)
    if isinstance(x, (BytesV, Cond2)): return blength(x)
    if isinstance(x, Ch): return CTX.eng.St.blen(CTX.st, x)
    return CTX.st.slen(x)
def CAT(lo, hi, f):
    fr, eng = Snap(CTX.st.mem, CTX.st.gens), CTX.eng
    return Ch([('CAT', lo, hi, lambda i: under(fr, lambda: list(f(i)), eng))])
def under(mem, f, eng):
    """evaluate f with the memory snapshot mem"""
    sv = (CTX.st, CTX.eng); st = eng.w.cur
    CTX.st, CTX.eng = st, eng
    svm, svg = st.mem, st.gens
    st.mem = dict(mem); st.gens = getattr(mem, 'gens', svg)
    try: return f()
    finally:
        st.mem, st.gens = svm, svg
        CTX.st, CTX.eng = sv
def forall(lo, hi, f):
    i = fresh('q', INT)
    sv = CTX.st; ov = CTX.outer
    CTX.st = sv.fork(); CTX.eng.w.cur = CTX.st
    if ov is None: CTX.outer = sv
    CTX.st.fact(and_(le(lo, i), lt(i, hi)))
    top = CTX.st.node
    try: b = f(i); inner = CTX.st.node
    finally: CTX.st = sv; CTX.eng.w.cur = sv; CTX.outer = ov
    # facts about the memory read in the body: hypotheses when the formula is to be proved
    import core
    fs = []; mark = int(i.decl().name().split('!')[1])
    while inner is not top and inner is not None:
        if inner.c is not None and not anyfresh(inner.c, mark, i): fs.append(inner.c)
        inner = inner.up
    if b is True: return True
    b = zb(b); rng = z3.And(zi(lo) <= i, i < zi(hi))
    boxground(sv, b, i)
    t = shiftof(b, i)
    if t is not None:       # quantify over the index of the backing array, so that reads of it match the body
        sub_ = lambda x: z3.simplify(z3.substitute(x, (i, i - t)))
        b = sub_(b); rng = sub_(rng); fs = [sub_(x) for x in fs]
    if fs: CTX.eng.qfacts[i.decl().name()] = (i, z3.And(*fs))
    return z3.ForAll([i], z3.Implies(rng, b))
def boxground(sv, b, i):
    """facts about boxed values that occur in a quantified body (they hold everywhere)"""
    bf = CTX.eng.w.boxfacts
    if not bf: return
    for x in subterms(b):
        if x.get_id() in bf and bf[x.get_id()][0].eq(x) and not hasvar(x) and not occurs(i, x):
            for f in bf[x.get_id()][1]: sv.fact(f)
def shiftof(b, i):
    """the offset t such that the body reads arrays at t + i only"""
    found = {}; seen = set(); work = [b]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if not z3.is_app(x): continue
        if x.decl().kind() == z3.Z3_OP_SELECT:
            ix = x.arg(1)
            if ix.sort() == INT:
                if ix.eq(i): return None
                if z3.is_add(ix) and any(c.eq(i) for c in ix.children()):
                    r = simp(ix - i)
                    if isz(r) and not occurs(i, r) and not hasvar(r): found.setdefault(r.get_id(), [0, r])[0] += 1
        work += x.children()
    if not found: return None
    return max(found.values(), key=lambda z: z[0])[1]
def hasvar(t):
    if z3.is_var(t): return True
    return any(hasvar(x) for x in t.children())
def quant(guard, f, pat=None):
    """forall i. guard(i) -> f(i)"""
    i = fresh('q', INT)
    sv = CTX.st; ov = CTX.outer
    CTX.st = sv.fork(); CTX.eng.w.cur = CTX.st
    if ov is None: CTX.outer = sv
    g = guard(i)
    CTX.st.fact(g)
    top = CTX.st.node
    try: b = f(i); inner = CTX.st.node
    finally: CTX.st = sv; CTX.eng.w.cur = sv; CTX.outer = ov
    fs = []; mark = int(i.decl().name().split('!')[1])
    while inner is not top and inner is not None:
        if inner.c is not None and not anyfresh(inner.c, mark, i): fs.append(inner.c)
        inner = inner.up
    if fs: CTX.eng.qfacts[i.decl().name()] = (i, z3.And(*fs))
    if b is True: return True
    return z3.ForAll([i], z3.Implies(g, zb(b)), **(dict(patterns=[pat(i)]) if pat else {}))
def exists(lo, hi, f):
    i = fresh('x', INT)
    sv = CTX.st; ov = CTX.outer
    CTX.st = sv.fork(); CTX.eng.w.cur = CTX.st
    if ov is None: CTX.outer = sv
    try: b = f(i)
    finally: CTX.st = sv; CTX.eng.w.cur = sv; CTX.outer = ov
    return z3.Exists([i], z3.And(zi(lo) <= i, i < zi(hi), zb(b)))
def anyfresh(c, mark, i):
    for n, x in consts(c).items():
        if x.eq(i): continue
        m = re.search(r'!(\d+)$', n)
        if m and int(m.group(1)) > mark: return True
    return False
def is_(x, t):
    t = t.decode()
    if x.isnil: return False
    t = CTX.eng.p.unalias(t)
    if x.tn: return CTX.eng.p.unalias(x.tn) == t
    return simp(tagof(x.term) == CTX.eng.tagid(CTX.st, t))
def as_(x, t):
    t = CTX.eng.p.unalias(t.decode())
    if x.isnil or x.tn and CTX.eng.p.unalias(x.tn) != t:
        # a value of another type: an arbitrary object of type t (guarded by is_ at the use)
        return CTX.eng.w.lift([fresh('as', y) for y in CTX.eng.w.sorts(t)], t)
    return CTX.eng.w.unbox(CTX.st, x, t)
def box(t, v): return IfV(tn=CTX.eng.p.unalias(t.decode()), v=v)
def wrap(t, v): return CTX.eng.wrap(CTX.st, v, t.decode())
def deref(p, t=None): return CTX.st.load(p, p.et)
def nonnil(x): return not_(isnil_val(x))
def has(m, k):
    kt, et = CTX.eng.mt(m)
    return CTX.eng.mapdom(CTX.st, m, CTX.eng.mkey(CTX.st, k, kt))
def glob(n):
    n = n.decode(); e = CTX.eng.p.globals[n]
    p = PtrV(e, 0, root='@' + n)
    return CTX.eng.gload(CTX.st, p, e)
def nth(t, i): return t.vs[i]
def uf(name, *args):
    """uninterpreted integer function"""
    name = name.decode()
    ts = []
    for a in args:
        if isinstance(a, IfV): ts.append(CTX.eng.w.ifterm(a))
        elif isinstance(a, bytes): ts.append(zs(a))
        elif isinstance(a, PtrV): ts.append(zi(a.ref))
        else: ts.append(zi(a) if isc(a) else a)
    return z3.Function(name, *[t.sort() for t in ts], INT)(*ts)

def splitn(x, sep):
    """number of parts strings.Split yields"""
    import lib
    n = lib.splitn_f(zs(x), zs(sep)); CTX.st.fact(n >= 1); return n
def splitpart(x, sep, i):
    import lib
    return lib.splitpart_f(zs(x), zs(sep), zi(i))
def uintok(x, base, bits):
    """the text is a number of the given base that fits in bits (strconv.ParseUint)"""
    import lib
    return lib.parseok_f(zs(x), zi(base), zi(bits))
def uintval(x, base, bits):
    import lib
    return lib.parseval_f(zs(x), zi(base), zi(bits))
def crc32(b, n=None):
    """IEEE CRC-32 register (signed 32-bit view, no final complement) after the first n bytes of b"""
    import bv
    b = content(b); st = CTX.st
    if isinstance(b, Cond2): return _ite(b.c, lambda: crc32(b.a, n), lambda: crc32(b.b, n))
    if n is None: n = sub(b.hi, b.lo)
    arr = b.row.toz3(CTX.eng.w)
    f = lambda m: bv.crcfoldf(arr, zi(b.lo), zi(m))
    t, u = f(n), f(sub(n, 1))
    st.fact(z3.Implies(zi(n) <= 0, t == -1))
    el = b.row.read(st, simp(zi(b.lo) + zi(n) - 1))
    st.fact(z3.Implies(zi(n) > 0, t == bv.crcstepf(u, zi(el))))
    st.fact(z3.And(t >= -2**31, t < 2**31)); st.fact(z3.And(u >= -2**31, u < 2**31))
    if isc(n): return -1 if n <= 0 else bv.crcstepf(u, zi(el))
    if st.valid(zi(n) > 0): return bv.crcstepf(u, zi(el))
    return t
BASE_ENV = {k: v for k, v in globals().items() if k in ('_and _or _not _implies _ite _cond _old _eq _ne _lt _le _gt _ge _add _sub _mul _fdiv _mod _rdiv _attr _idx _slc '
            'splitn splitpart uintok uintval crc32 BE RAW content blength length CAT forall exists is_ as_ box wrap deref nonnil has glob nil uf real nth').split()}
def reliable(x):
    import lib
    return lib.reliable(CTX.eng, CTX.st, x)
def ok(x):
    """no write of this call to the stream x failed"""
    import lib
    sid = lib.sid_writer(CTX.eng, CTX.st, x)
    if CTX.okmap is not None: return CTX.okmap.get(sid, True)
    return CTX.st.ghost.get('ok:' + sid, True)
def f32bits(x):
    import lib
    return lib.fbits(CTX.st, x, 4)
def f64bits(x):
    import lib
    return lib.fbits(CTX.st, x, 8)
def size(ch):
    """length of a stream, spec functions unfolded"""
    out = []
    work = list(ch)
    while work:
        c = work.pop(0)
        if c[0] == 'APP':
            u = CTX.eng.St.unfold(CTX.st, c)
            work = list(u) + work; continue
        if c[0] == 'COND': out.append(('COND', c[1], *[[('LEN', size(Ch(x)))] for x in (c[2], c[3])])); continue
        out.append(c)
    n = 0
    for c in out:
        if c[0] == 'COND': n = add(n, _ite(c[1], lambda c=c: c[2][0][1], lambda c=c: c[3][0][1]))
        else: n = add(n, CTX.eng.St.clen(CTX.st, c))
    return n
def implements(v, t):
    e = CTX.eng; t = t.decode()
    if v.isnil: return False
    if v.tn: return e.p.implements(e.p.unalias(v.tn), t)
    return e.implcond(CTX.st, v, t)
def stream(w):
    import lib
    return Ch(list(lib.outs(CTX.st, lib.sid_writer(CTX.eng, CTX.st, w))))
def instream(r):
    import lib
    return Ch(list(lib.ins(CTX.st, lib.sid_reader(CTX.eng, CTX.st, r))))
def streameq(a, b):
    e = Eq(CTX.eng.St)
    s2 = CTX.st.fork()
    r = e.decide(s2, list(a), list(b))
    if not r and getattr(CTX, 'assuming', False): return fresh('streameq', BOOL)      # as an assumption: says nothing
    if not r: CTX.eng.cache['streamwhy'] = f'{e.why}: {show(a)[:300]} vs {show(b)[:300]}'
    return r
def sameinput(r, b): return streameq(instream(r), RAW(b))
def enumarrs(m):
    """(enumeration, inverse) of the keys: the order a running iteration uses, else a canonical one"""
    e, st = CTX.eng, CTX.st
    g = st.ghost.get('enum ' + str(m.ref))
    if g is not None: return g[0], g[2], g[3], g[1]
    d = st.comp(('map ' + m.tn, ('dom',)), 'bool', 2).row(st, m.ref).toz3(e.w)
    AB = z3.ArraySort(INT, BOOL); AI = z3.ArraySort(INT, INT)
    return z3.Function('enumof', AB, AI)(d), z3.Function('enumix', AB, AI)(d), d, e.maplen(st, m)
def enumall(m):
    """the quantified form of the enumeration facts, needed under a quantifier"""
    e, st = CTX.eng, CTX.outer
    E, IX, d, n = enumarrs(m); j = z3.Int('j!en')
    st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), z3.And(d[E[j]], IX[E[j]] == j)), patterns=[E[j]]))
    st.fact(z3.ForAll([j], z3.Implies(d[j], z3.And(IX[j] >= 0, IX[j] < zi(n), E[IX[j]] == j)), patterns=[d[j]]))
def enumkey(m, i):
    """i-th key of a map"""
    e, st = CTX.eng, CTX.st
    kt, et = e.mt(m)
    E, IX, d, n = enumarrs(m)
    j = zi(i)
    if CTX.outer is not None: enumall(m)
    st.fact(z3.Implies(z3.And(j >= 0, j < zi(n)), z3.And(d[E[j]], IX[E[j]] == j)))
    k = e.unkey(st, E[j], kt)
    if CTX.outer is None:
        for f, mem in st.ghost.get('fk ' + str(m.ref), ()):
            t = (str(j), f)
            if ('fk', id(f), E[j].get_id()) in st.tf: continue
            st.tf.add(('fk', id(f), E[j].get_id())); e.keep.append((f, E[j]))
            b = under(mem, lambda: f(k), e)
            st.fact(z3.Implies(z3.And(j >= 0, j < zi(n)), zb(b)))
    return k
def enumpos(m, k):
    """position of key k in the enumeration"""
    e, st = CTX.eng, CTX.st
    kt, et = e.mt(m)
    E, IX, d, n = enumarrs(m)
    if CTX.outer is not None: enumall(m)
    j = zi(e.mkey(st, k, kt))
    st.fact(z3.Implies(d[j], z3.And(IX[j] >= 0, IX[j] < zi(n), E[IX[j]] == j)))
    return IX[j]
def forkeys(m, f):
    """f(key) for every key of the map"""
    e, st = CTX.eng, CTX.st
    kt, et = e.mt(m)
    i = fresh('mk', INT)
    sv = CTX.st; ov = CTX.outer
    CTX.st = sv.fork(); e.w.cur = CTX.st
    if ov is None: CTX.outer = sv
    try:
        d = CTX.st.comp(('map ' + m.tn, ('dom',)), 'bool', 2).row(CTX.st, m.ref).read(CTX.st, i)
        CTX.st.fact(d)
        top = CTX.st.node
        k = e.unkey(CTX.st, i, kt)
        b = f(k); inner = CTX.st.node
    finally: CTX.st = sv; e.w.cur = sv; CTX.outer = ov
    if b is True or d is False: return True
    fs = []; mark = int(i.decl().name().split('!')[1])
    while inner is not top and inner is not None:
        if inner.c is not None and not anyfresh(inner.c, mark, i): fs.append(inner.c)
        inner = inner.up
    if fs: e.qfacts[i.decl().name()] = (i, z3.And(*fs))
    r = z3.ForAll([i], z3.Implies(zb(d), zb(b)))
    CTX.lastfk = (r, m, f, CTX.st.mem, CTX.st.cnt)
    return r
def eqv(a, b):
    t = [CTX.eng.w.ifterm(x if isinstance(x, IfV) else NILI) for x in (a, b)]
    return z3.Function('eqv', I, I, BOOL)(*t)
def closed(v, t):
    """closed world: a non-nil value of this interface has one of the program's types and is not a typed nil pointer"""
    e, st = CTX.eng, CTX.st
    if v.term is None: return True
    cs = []
    for x in e.impls(t.decode()):
        mk, sel, tag = e.w.box(x)
        c = tagof(v.term) == tag
        cs.append(c)
        if e.w.lkind(x) == 'ptr': st.fact(z3.Implies(c, z3.And(v.term != nilI, sel[0](v.term) != 0)))
    st.fact(z3.Or(v.term == nilI, *cs))
    return True
def total(n, f):
    """sum of f(0) .. f(n-1)"""
    e, st = CTX.eng, CTX.st
    d = e.St.dummy()
    sv = CTX.st; CTX.st = sv.fork(); e.w.cur = CTX.st
    try: per = f(d)
    finally: CTX.st = sv; e.w.cur = sv
    re_ = isz(per) and per.sort() == REAL
    per = zr(per) if re_ else zi(per)
    if re_:
        k = per.sexpr(); R_ = e.cache.setdefault('rsums', {})
        if k not in R_: R_[k] = z3.Function('rsum!%d' % len(R_), INT, INT, REAL)
        F = R_[k]; e.St.sumpers[str(F.name())] = per
    else: F = e.St.sumf(per)
    z = z3.IntVal(0); n = zi(n); t = F(z, n)
    st.fact(z3.Implies(n <= 0, t == 0))
    st.fact(z3.Implies(n > 0, t == F(z, zi(simp(n - 1))) + z3.substitute(per, (d, n - 1))))
    return t
def fresh_(x):
    """the object was allocated by this call (references made later are smaller)"""
    return lt(x.b if isinstance(x, SliceV) else x.ref, -CTX.old.cnt)
BASE_ENV['fresh'] = fresh_
BASE_ENV['addr'] = lambda o, n: lval(o, n.decode())
def done(name):
    """the package's sync.Once has run"""
    import lib
    name = name.decode(); k = 'once:%s' % lib.canon(CTX.eng, PtrV(CTX.eng.p.globals[name], 0, root='@' + name))
    return True if CTX.st.ghost.get(k) is True else z3.Bool(k + '!entry')
def meets(fv, name):
    """the function value satisfies the named function specification"""
    e, st = CTX.eng, CTX.st; name = name.decode()
    if fv.name is None:
        return z3.And(z3.Function('meets_' + name, INT, BOOL)(zi(fv.ref)), zi(fv.ref) != 0)
    import vc
    return vc.meets(e, st, fv, name)
for _f in (total, meets, done, bytesof, enumkey, enumpos, forkeys, eqv, closed, ok, implements, stream, instream, streameq, sameinput, size, reliable, f32bits, f64bits): BASE_ENV[_f.__name__] = _f
BASE_ENV['true'] = True; BASE_ENV['false'] = False
BASE_ENV['EMPTY'] = Ch()

class SpecFn:
    def __init__(s, name, code, params, inline): s.name, s.code, s.params, s.inline = name, code, params, inline

class Case:
    def __init__(s, name):
        s.name = name; s.requires = []; s.ensures = []; s.returns = None; s.sets = []; s.emits = []; s.input = None
        s.ghosts = []; s.modifies = []; s.when = []; s.inv = []; s.opts = {}; s.lets = []; s.events = None; s.tags = None; s.assumes = []; s.defines = []; s.evinv = []; s.eventsas = None; s.strinv = []; s.suminv = []; s.eachinv = []; s.measure = None; s.iters = []

class Contract:
    def __init__(s, name, params):
        s.name, s.params, s.cases, s.tags, s.spec = name, params, [], [], None
        s.fname = name.split('@')[0]      # NAME@view is a second contract of NAME, for callers verified with `option view`
        s.opts = {}
    def usable(s, eng, st, name):
        if eng.noinline_self == name and len(st.frames) == 0: return False
        if s.opts.get('inline'): return False
        return True

class Specs:
    """all contracts and spec functions"""
    def __init__(s):
        import models2, models3, models4, models5, models6, models7, models8
        s.fns = {}; s.contracts = {}; s.env = dict(BASE_ENV); s.files = []; s.lib = {}; s.guards = []; s.funcspecs = {}; s.mentions = {}; s.readset = {}
    def reads(s, name, eng, args):
        """(may read maps, may read lists): a spec function reads a map only through a field of map type, a parameter or an assertion to a map type, and a list only through the list vocabulary"""
        if name not in s.readset:
            seen = set(); work = [name]; names = set(); attrs = set(); strs = set()
            while work:
                x = work.pop()
                if x in seen or x not in s.mentions: continue
                seen.add(x); n, a, c = s.mentions[x]
                names |= n; attrs |= a; strs |= c; work += list(n)
            mf = eng.p.__dict__.get('mapfields')
            if mf is None:
                mf = eng.p.mapfields = {f['name'] for t in eng.p.types for f in (eng.p.fields(t) if eng.w.lkind(t) == 'struct' else ()) if eng.w.lkind(f['t']) == 'map'}
            s.readset[name] = (bool(attrs & mf) or any(c.startswith(b'map[' if isinstance(c, bytes) else 'map[') for c in strs) or 'mapof' in names,
                               bool(names & {'llen', 'lat', 'lelem', 'forelems', 'eindex', 'slat', 'slsize', 'slall', 'slin', 'sldistinct', 'owned', 'lkval', 'lkkey', 'lkhas', 'allkeys', 'linked', 'slist'}))
        m, l = s.readset[name]
        return m or any(isinstance(a, MapV) for a in args), l
    def load(s, path):
        s.files.append(path)
        lines = open(path).read().split('\n')
        i = 0; cur = None; case = None
        while i < len(lines):
            ln = lines[i]
            if not ln.strip() or ln.lstrip().startswith('#'): i += 1; continue
            if re.match(r'(inline |prop |opaque )?def ', ln):
                j = i + 1
                while j < len(lines) and (lines[j].startswith((' ', '\t')) or not lines[j].strip()): j += 1
                s.specdef('\n'.join(lines[i:j])); i = j; cur = None; continue
            # join continuation lines
            j = i + 1
            while ln.rstrip().endswith('\\') or ln.count('(') + ln.count('[') > ln.count(')') + ln.count(']'):
                ln = ln.rstrip().rstrip('\\') + ' ' + lines[j].split('#')[0].strip(); j += 1
            i = j
            t = ln.strip(); word, _, rest = t.partition(' '); rest = rest.strip()
            if word in ('func', 'funcspec'):
                m = re.match(r'(.*)\(([^()]*)\)$', rest)
                cur = Contract(m.group(1).strip(), [x.strip() for x in m.group(2).split(',') if x.strip()])
                cur.file = path; cur.spec = s
                if word == 'funcspec': cur.opts['trusted'] = True; cur.opts['funcspec'] = True; s.funcspecs[cur.name] = cur
                s.contracts.setdefault(cur.name, cur) if cur.name not in s.contracts else None
                if s.contracts[cur.name] is not cur: raise Exception('duplicate contract ' + cur.name)
                case = None
                continue
            if word == 'guard':
                l, _, r = rest.partition(':'); s.guards.append((l.strip(), r.split())); cur = None; continue
            if cur is None: raise Exception(f'{path}: stray line {ln}')
            if word == 'for':
                if case: case.tags = rest.split()
                else: cur.tags = rest.split()
                continue
            if word == 'option':
                k, _, v = rest.partition(' ')
                (case.opts if case else cur.opts)[k] = v or True; continue
            if word == 'case':
                common = getattr(cur, 'common', None)
                if common is None and cur.cases:        # clauses before the first case belong to every case
                    common = cur.cases.pop(); cur.common = common
                elif common is None: common = cur.common = Case('common')
                case = Case(rest.rstrip(':')); cur.cases.append(case)
                for a in 'requires ensures sets emits ghosts modifies when inv lets assumes defines evinv strinv suminv eachinv iters'.split(): setattr(case, a, list(getattr(common, a)))
                for a in 'returns events eventsas input measure'.split(): setattr(case, a, getattr(common, a))
                case.opts = dict(common.opts)
                continue
            if case is None: case = Case('main'); cur.cases.append(case)
            s.clause(case, word, rest)
        for c in s.contracts.values():
            if not c.cases: c.cases.append(Case('main'))       # a contract that only says: it returns
    def clause(s, case, word, rest):
        lab = None
        m = re.match(r'([a-z][\w-]*):\s+(.*)$', rest)
        if m and word in ('requires', 'ensures', 'invariant', 'assumes'): lab, rest = m.group(1), m.group(2)
        if word in ('requires', 'ensures', 'when', 'assumes'):
            getattr(case, word).append((lab or '%s%d' % (word, len(getattr(case, word))), cexpr(rest), rest))
        elif word == 'measure': case.measure = (cexpr(rest), rest)
        elif word == 'defines':
            l, _, r = rest.partition(' := ')
            case.defines.append((cexpr(l), cexpr(r), rest))
        elif word == 'returns': case.returns = [None if x.strip() == '_' else (cexpr(x), x.strip()) for x in splitargs(rest)]
        elif word == 'sets':
            l, _, r = rest.partition(':=')
            case.sets.append((s.lvalue(l.strip()), cexpr(r), l.strip()))
        elif word == 'modifies':
            for x in splitargs(rest): case.modifies.append((s.lvalue(x.strip()), x.strip()))
        elif word == 'emits':
            l, _, r = rest.partition(':')
            case.emits.append((cexpr(l), cexpr(r), rest))
        elif word == 'input':
            l, _, r = rest.partition(':')
            case.input = (cexpr(l), cexpr(r), ast.parse(r.strip(), mode='eval').body, rest)
        elif word == 'ghost':
            n, _, t = rest.partition(':'); case.ghosts.append((n.strip(), t.strip()))
        elif word == 'let':
            n, _, e = rest.partition('='); case.lets.append((n.strip(), cexpr(e)))
        elif word == 'invariant': case.inv.append(Inv(lab or 'inv%d' % len(case.inv), rest))
        elif word == 'loop': 
            m = re.match(r'([a-z][\w-]*):\s+(.*)$', rest); case.inv.append(Inv(m.group(1), m.group(2), True))        # has to hold in every loop that receives input
        elif word in ('entry', 'iteration', 'leave', 'finish'):
            m = re.match(r'([a-z][\w-]*):\s+(.*)$', rest); case.iters.append((word, m.group(1), cexpr(m.group(2)), m.group(2)))
        elif word == 'invariant-each':
            ty, e_ = rest.strip().split(None, 1); case.eachinv.append((ty, Inv('each', e_.strip())))
        elif word == 'invariant-sum': case.suminv.append(Inv('sum', rest.strip()))
        elif word == 'invariant-events': case.evinv.append(Inv('events', rest.strip()))
        elif word == 'invariant-stream':
            l, _, r = rest.partition(':'); case.strinv.append((l.strip(), Inv('stream', r.strip())))
        elif word == 'events-as': case.eventsas = (cexpr(rest), rest)
        elif word == 'events': case.events = (cexpr(rest), rest)
        else: raise Exception('unknown clause ' + word)
    def lvalue(s, src):
        t = ast.parse(src, mode='eval').body
        if isinstance(t, ast.Attribute):
            b = ast.fix_missing_locations(ast.Expression(Tr().visit(t.value)))
            return ('field', compile(b, '<lval>', 'eval'), t.attr)
        if isinstance(t, ast.Call): 
            args = [compile(ast.fix_missing_locations(ast.Expression(Tr().visit(a))), '<lval>', 'eval') for a in t.args]
            return ('call', t.func.id, args)
        if isinstance(t, ast.Name): return ('name', t.id)
        raise Exception('lvalue ' + src)
    def specdef(s, src):
        inline = src.startswith('inline '); prop = src.startswith('prop '); opaque = src.startswith('opaque ')
        if inline or opaque: src = src[7:]
        if prop: src = src[5:]
        t = ast.parse(src)
        t = ast.fix_missing_locations(Tr().visit(t))
        d = t.body[0]; name = d.name
        ns = s.env
        if name in s.env: raise Exception(f'{name} is defined twice')
        if not inline and {n.id for n in ast.walk(d) if isinstance(n, ast.Name)} & {'glob', 'gh', 'known', 'fresh', 'chval', 'lksize'}: raise Exception(f'{name}: a spec function may only read wire data')
        s.mentions[name] = ({n.id for n in ast.walk(d) if isinstance(n, ast.Name)}, {n.attr for n in ast.walk(d) if isinstance(n, ast.Attribute)}, {n.value for n in ast.walk(d) if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes))})
        d.name = name + '__body' if not inline else name
        exec(compile(t, '<specdef %s>' % name, 'exec'), ns)
        if inline: return
        if opaque:
            # a predicate or number standing for its definition, which is stated for every ground use
            body = ns[name + '__body']
            def app(*args, _n=name):
                ts = [zs(a) if isinstance(a, bytes) or isz(a) and a.sort() == S else zb(a) if isinstance(a, bool) else zi(a) for a in args]
                p = z3.Function('opaque_' + _n, *[x.sort() for x in ts], BOOL)(*ts)
                if not any(n.startswith(('q!', 'x!', 'mk!', 'j!')) for x in ts for n in consts(x)) and not any(hasvar(x) for x in ts):
                    k = ('opq', p.get_id())
                    if k not in CTX.st.tf:
                        CTX.st.tf.add(k); CTX.eng.keep.append(p)
                        CTX.st.fact(p == zb(body(*args)))
                return p
            ns[name] = app; return
        params = [a.arg for a in d.args.args]
        s.fns[name] = SpecFn(name, ns[name + '__body'], params, False)
        def app(*args, _n=name):
            args = tuple(freeze(a) for a in args)
            for a in args:
                if isinstance(a, PtrV) and not foot(a.root): raise Unsupported(f'spec function {_n} applied to a {a.root}')
            return Ch([('APP', _n, args, snap(CTX.st, s.reads(_n, CTX.eng, args)) if any(deep(a) for a in args) else None)])
        ns[name] = app

IOKEYS = {('netdata.DataOutputX', ('written',)), ('netdata.DataInputX', ('offset',))}
class Snap(dict):
    """memory snapshot: the components touched so far, and the calls that changed the others"""
    def __init__(s, mem, gens): dict.__init__(s, mem); s.gens = gens
def snap(st, reads=(True, True)):
    """memory visible to spec functions (stream bookkeeping left out)"""
    return Snap({k: v for k, v in st.mem.items() if k not in IOKEYS and not k[0].startswith('$') and foot(k[0]) and (reads[0] or not k[0].startswith('map ')) and (reads[1] or not k[0].startswith('container/list.'))}, st.gens)
def foot(root):
    """can a spec function read this component? (they read wire data only: checked when the specifications are loaded)"""
    return root.startswith(('[]', 'map ', 'netdata.', 'container/list.')) or '.' not in root and not root.startswith('@')
def freeze(a):
    if isinstance(a, SliceV) and a.et == 'uint8': return content(a)
    return a
def deep(a): return isinstance(a, (PtrV, IfV, SliceV, MapV, StructV))

class Inv:
    must = False
    def __init__(s, name, src, must=False):
        s.name, s.src, s.code, s.must = name, src, cexpr(src), must
    def candidate(s, eng, st, fn, h, phis, init, phit, each=None):
        env = eng.env0
        # names usable in invariants: parameters of the verified function, ghosts, k, and phi variables by source name
        names = {}
        for i in phis:
            if i.get('c'): names[i['c']] = i['r']
        code = s.code
        need = set(code.co_names)
        locs = eng.invnames(st, fn, h)
        src_names = {n.id for n in ast.walk(ast.parse(s.src, mode='eval')) if isinstance(n, ast.Name)}
        known = set(env) | set(names) | {'k', 'phi', 'local'} | ({'x'} if each else set()) | set(BASE_ENV) | set(eng.specs.env) | set(locs)
        lam = {a.arg for n in ast.walk(ast.parse(s.src, mode='eval')) if isinstance(n, ast.Lambda) for a in n.args.args}
        if not (src_names - lam - {'old', 'implies', 'ite', 'cond', 'pre'}) <= known: return None
        def f(e, st2, get, kk):
            env2 = dict(env)
            for n in locs: env2[n] = locs[n]
            for n, r in names.items(): env2[n] = get(r)
            env2['k'] = kk
            if each: env2['x'] = get(each)
            def local(t):
                """the value of the given type computed first in the function (other than a parameter)"""
                t = t.decode(); fr = st.frames[-1]
                for q in phis:
                    if q.get('t') == t: return get(q['r'])
                for b in fn.blocks:
                    for i in b['ins']:
                        if i.get('t') == t and i.get('r') is not None:
                            if i['r'] in fr.regs: return fr.regs[i['r']]
                raise KeyError(t)
            env2['local'] = local
            env2['phi'] = lambda t, n=0: [get(i['r']) for i in phis if i['t'] == t.decode()][n]
            return ev(e, st2, code, env2)
        f.name = s.name; f.required = s.must; f.stated = True
        return f

def splitargs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{': d += 1
        if c in ')]}': d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    return out

def ev(eng, st, code, env, old=None):
    sv = (CTX.st, CTX.eng, CTX.old)
    CTX.st, CTX.eng = st, eng
    if old is not None: CTX.old = old
    elif CTX.old is None: CTX.old = eng.oldst
    wc = eng.w.cur; eng.w.cur = st
    try:
        g = dict(eng.specs.env); g.update(env)
        return eval(code, g)
    finally:
        CTX.st, CTX.eng, CTX.old = sv; eng.w.cur = wc

def unfold(eng, st, c):
    f = eng.specs.fns.get(c[1])
    if f is None: return None
    sv = (CTX.st, CTX.eng)
    CTX.st, CTX.eng = st, eng
    wc = eng.w.cur; eng.w.cur = st
    mem = c[3] if len(c) > 3 else None
    svm, svg = st.mem, st.gens
    if mem is not None: st.mem = dict(mem); st.gens = getattr(mem, 'gens', svg)
    try: return list(f.code(*c[2]))
    finally:
        st.mem, st.gens = svm, svg
        CTX.st, CTX.eng = sv; eng.w.cur = wc

def argseq(eng, st, a, b):
    """equality of the arguments of two APP chunks (None: cannot tell, unfold)"""
    if len(a[2]) != len(b[2]): return None
    if a[2] is b[2] and (len(a) < 4 or a[3] is b[3]): return True
    cs = []
    for x, y in zip(a[2], b[2]):
        c = vareq(eng, st, x, y, a[3] if len(a) > 3 else None, b[3] if len(b) > 3 else None)
        if c is None or c is False: return None
        cs.append(c)
    return and_(*cs)
def vareq(eng, st, x, y, m1, m2):
    w = eng.w
    if isinstance(x, BytesV) and isinstance(y, BytesV):
        if x.row.same(y.row): return and_(w.eq(x.lo, y.lo, 'int'), w.eq(x.hi, y.hi, 'int'))
        e = Eq(eng.St)
        return True if e.run(st.fork(), [('ARR', x.row, x.lo, x.hi)], [('ARR', y.row, y.lo, y.hi)]) else None
    if isinstance(x, Cond2) or isinstance(y, Cond2): return None
    if type(x) != type(y) and not (isc(x) or isz(x)) : return None
    if isinstance(x, (bytes,)) or (isz(x) and x.sort() == S): return w.eq(x, y, 'string')
    if isinstance(x, bool) or (isz(x) and x.sort() == BOOL): return simp(zb(x) == zb(y))
    if isz(x) and x.sort() == REAL: return simp(x == zr(y))
    if isc(x) or isz(x):
        if isz(x) and isz(y) and x.sort() != y.sort(): return None
        if isz(x) and x.sort() != INT: return x == y
        return w.eq(x, y, 'int')
    if deep(x):
        if m1 is m2 or memsame(eng, m1, m2) or m1 is not None and m2 is not None and memclean(eng, m1) and memclean(eng, m2) and oldargs(eng, st, [x, y]):
            sv = CTX.eng; CTX.eng = eng
            try: return _eq(x, y)
            finally: CTX.eng = sv
        return None
    return None
def memsame(eng, a, b):
    if a is None or b is None: return False
    if getattr(a, 'gens', ()) != getattr(b, 'gens', ()): return False
    bases = eng.bases
    for k in set(a) | set(b):
        if k[0] in ('$iter',): continue
        x, y = a.get(k), b.get(k)
        if x is y: continue
        if x is None: x = genbase(eng, a, k)
        if y is None: y = genbase(eng, b, k)
        if x is not y: return False
    return True
def genbase(eng, mem, k):
    for gid, birth, keep in reversed(getattr(mem, 'gens', ())):
        if not keeps(keep, k): return eng.genbases.get((gid, k))
    return eng.bases.get(k)
def memclean(eng, mem):
    """is the memory seen by objects that exist since function entry the memory at entry (all writes were to objects allocated since)?"""
    if getattr(mem, 'gens', ()): return False
    for k, a in mem.items():
        if k[0] in ('$iter',): continue
        b = eng.bases.get(k)
        if a is b: continue
        if a.birth: return False
        if b is not None and a.base is not b.base: return False
        x = a.ws
        while x:
            if not (isinstance(x[0], int) and x[0] < 0): return False
            x = x[2]
    return True
def memkey(eng, mem):
    """identity of a memory snapshot (up to what was read)"""
    if any(k[0] != '$iter' and genbase(eng, mem, k) is None for k in mem): return id(mem)
    r = tuple(sorted((str(k), id(a)) for k, a in mem.items() if k[0] != '$iter' and a is not genbase(eng, mem, k))) + (getattr(mem, 'gens', ()),)
    eng.cache.setdefault('memkeys', {})[r] = mem      # keeps the arrays alive
    return r
def negnum(t):
    seen = set(); work = [t]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_int_value(x) and x.as_long() < 0: return True
        work += x.children()
    return False
def oldargs(eng, st, args):
    """do the arguments refer only to objects that exist since function entry?"""
    def ref(r):
        if isinstance(r, int): return r >= 0
        return not negnum(r) and st.valid(r >= 0)
    for v in args:
        if isinstance(v, PtrV):
            if not ref(v.ref): return False
        elif isinstance(v, SliceV):
            if not ref(v.b): return False
        elif isinstance(v, MapV):
            if not ref(v.ref): return False
        elif isinstance(v, IfV):
            if v.isnil: continue
            if v.tn:
                if not oldargs(eng, st, [v.v]): return False
            elif not entryterm(eng, v.term): return False
        elif deep(v): return False
    return True
def entryterm(eng, t):
    """a term over the parameters and the memory at entry only (and indices)"""
    if t.get_id() in eng.cache.setdefault('entryterm', {}): return eng.cache['entryterm'][t.get_id()][0]
    r = True; seen = set(); work = [t]
    while work and r:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if x.num_args() == 0:
                r = x.get_id() in eng.old or n in eng.entrynames or n.startswith('H0.') or re.match(r'(ci|ri|q)!\d+$', n) is not None or n == 'dummy!i' or n.startswith('k')
            else: r = not n.startswith('H.')
        work += x.children()
    eng.cache['entryterm'][t.get_id()] = (r, t)
    return r
