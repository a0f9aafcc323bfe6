"""Terms, values, memory and symbolic state."""
import z3
from prog import Program, Unsupported, INTS

S = z3.DeclareSort('Str')
I = z3.DeclareSort('Iface')
INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
BIG = 1 << 40          # no object has more elements than this (Go cannot allocate them)

def isc(x): return isinstance(x, (int, bool))
def isz(x): return isinstance(x, z3.ExprRef)
def zi(x):
    if isinstance(x, bool): raise Unsupported('bool as int')
    return z3.IntVal(x) if isinstance(x, int) else x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zr(x):
    if isinstance(x, float): 
        from fractions import Fraction
        f = Fraction(x); return z3.RealVal(f'{f.numerator}/{f.denominator}')
    if isinstance(x, int): return z3.RealVal(x)
    return x
def simp(e):
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def same(a, b):
    if isz(a): return isz(b) and a.eq(b)
    return (not isz(b)) and type(a) == type(b) and a == b
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return simp(zi(a) + zi(b))
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    return simp(zi(a) - zi(b))
def mul(a, b):
    if isc(a) and isc(b): return a * b
    if (isc(a) and a == 0) or (isc(b) and b == 0): return 0
    if isc(a) and a == 1: return b
    if isc(b) and b == 1: return a
    return simp(zi(a) * zi(b))
def ediv(a, b):
    """floor division, b > 0"""
    if isc(a) and isc(b): return a // b
    if isc(b) and b == 1: return a
    return simp(zi(a) / zi(b))
def emod(a, b):
    if isc(a) and isc(b): return a % b
    if isc(b) and b == 1: return 0
    return simp(zi(a) % zi(b))
def le(a, b):
    if isc(a) and isc(b): return a <= b
    if same(a, b): return True
    return simp(zi(a) <= zi(b))
def lt(a, b):
    if isc(a) and isc(b): return a < b
    if same(a, b): return False
    return simp(zi(a) < zi(b))
def not_(a): return (not a) if isinstance(a, bool) else simp(z3.Not(a))
def and_(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: ys.append(x)
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)
def or_(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: ys.append(x)
    return False if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)
def implies(a, b):
    if isinstance(a, bool): return b if a else True
    if isinstance(b, bool) and b: return True
    return or_(not_(a), b)
_n = [0]
def fresh(name, sort):
    _n[0] += 1
    return z3.Const(f'{name}!{_n[0]}', sort)
def reset_fresh(): _n[0] = 0

# ---- strings: python bytes (literal) or a z3 term of sort Str
slen_f = z3.Function('slen', S, INT)
sbytes_f = z3.Function('sbytes', S, z3.ArraySort(INT, INT))
sconcat_f = z3.Function('sconcat', S, S, S)
smk_f = z3.Function('smk', z3.ArraySort(INT, INT), INT, INT, S)
_lits = {}
def strlit(b):
    if b not in _lits: _lits[b] = z3.Const('str!%d_%s' % (len(_lits), ''.join(c if c.isalnum() else '_' for c in b.decode('latin1'))[:24]), S)
    _litix.setdefault(_lits[b].get_id(), len(_litix))
    return _lits[b]
_litix = {}
def litfact(t):
    """literals are pairwise different"""
    i = _litix.get(t.get_id())
    return None if i is None else z3.Function('litid', S, INT)(t) == i
def zs(x): return strlit(x) if isinstance(x, bytes) else x

# ---- rich values
class PtrV:
    __slots__ = ('root', 'ref', 'path', 'et')
    def __init__(s, et, ref, root=None, path=()):
        s.et, s.ref, s.root, s.path = et, ref, (root or et), path
    def __repr__(s): return f'Ptr({s.root},{s.ref},{s.path})'
class SliceV:
    __slots__ = ('et', 'b', 'o', 'l', 'c')
    def __init__(s, et, b, o, l, c): s.et, s.b, s.o, s.l, s.c = et, b, o, l, c
    def __repr__(s): return f'Slice[{s.et}]({s.b},{s.o},{s.l})'
class MapV:
    __slots__ = ('tn', 'ref')
    def __init__(s, tn, ref): s.tn, s.ref = tn, ref
    def __repr__(s): return f'Map({s.ref})'
class ChanV:
    __slots__ = ('tn', 'ref')
    def __init__(s, tn, ref): s.tn, s.ref = tn, ref
    def __repr__(s): return f'Chan({s.ref})'
class FuncV:
    """known function (with closure bindings) or a symbolic function reference"""
    __slots__ = ('name', 'bind', 'ref', 'tn')
    def __init__(s, name=None, bind=(), ref=None, tn=None): s.name, s.bind, s.ref, s.tn = name, bind, ref, tn
    def __repr__(s): return f'Func({s.name or s.ref})'
class IfV:
    """interface value: known dynamic type (tn, v), nil (tn None, term None), or symbolic term"""
    __slots__ = ('tn', 'v', 'term')
    def __init__(s, tn=None, v=None, term=None): s.tn, s.v, s.term = tn, v, term
    @property
    def isnil(s): return s.tn is None and s.term is None
    def __repr__(s): return 'nil' if s.isnil else f'If({s.tn},{s.v})' if s.tn else f'If({s.term})'
NILI = IfV()
class StructV:
    __slots__ = ('tn', 'fs')
    def __init__(s, tn, fs): s.tn, s.fs = tn, fs
    def __repr__(s): return f'{s.tn}{s.fs}'
class ArrV:
    __slots__ = ('tn', 'row')
    def __init__(s, tn, row): s.tn, s.row = tn, row
class TupV:
    __slots__ = ('vs',)
    def __init__(s, vs): s.vs = vs
    def __repr__(s): return f'Tup{s.vs}'
class ExtV:
    """value of a foreign struct type, opaque"""
    __slots__ = ('tn', 'x')
    def __init__(s, tn, x): s.tn, s.x = tn, x
    def __repr__(s): return f'Ext({s.tn},{s.x})'
class IterV:
    """map iteration"""
    __slots__ = ('m', 'mem', 'enum', 'pos', 'n', 'inv', 'd')
    def __init__(s, **k):
        for a, b in k.items(): setattr(s, a, b)

class BytesV:
    """immutable byte content row[lo..hi)"""
    __slots__ = ('row', 'lo', 'hi')
    def __init__(s, row, lo, hi): s.row, s.lo, s.hi = row, lo, hi
    def __repr__(s): return f'Bytes({s.lo}..{s.hi})'
class ChV:
    """byte content given as a chunk list (event arguments)"""
    __slots__ = ('ch',)
    def __init__(s, ch): s.ch = ch
    def __repr__(s):
        import stream
        return stream.show(s.ch)
class Cond2:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b

tagof = z3.Function('tagof', I, INT)
nilI = z3.Const('nil!I', I)

class World:
    """program-wide type machinery"""
    def __init__(w, prog):
        w.p = prog
        w.repopkgs = {f.pkg for f in prog.fns.values() if f.pkg}
        w.interned = {}; w.boxes = {}; w._leaf = {}; w._ext = {}
        w.nfun = 0
    def isext(w, tn):
        if tn in w._ext: return w._ext[tn]
        r = False
        if w.p.t(tn)['k'] == 'named':
            base = tn.split('[')[0]
            pk = base.rsplit('.', 1)[0] if '.' in base else ''
            r = pk not in w.repopkgs and w.p.kind(tn) == 'struct'
        w._ext[tn] = r
        return r
    def lkind(w, t):
        """leaf kind or 'struct' / 'array' / 'tuple'"""
        r = w._leaf.get(t)
        if r: return r
        t0 = w.p.unalias(t)
        if w.isext(t0): r = 'ext'
        else:
            u, j = w.p.under(t0); k = j['k']
            if k == 'basic':
                n = j['name']
                r = 'int' if n in INTS else 'bool' if 'bool' in n else 'str' if 'string' in n else \
                    'float' if 'float' in n else 'ref' if n in ('unsafe.Pointer', 'Pointer') else 'nil' if n == 'untyped nil' else 'bad'
            else: r = {'ptr': 'ptr', 'map': 'map', 'chan': 'chan', 'func': 'func', 'iface': 'iface', 'slice': 'slice',
                       'struct': 'struct', 'array': 'array', 'tuple': 'tuple', 'named': 'bad', 'typeparam': 'bad', 'opaque': 'bad'}[k]
        w._leaf[t] = r
        return r
    def sorts(w, t):
        k = w.lkind(t)
        return {'int': [INT], 'bool': [BOOL], 'str': [S], 'float': [REAL], 'ptr': [INT], 'map': [INT], 'chan': [INT], 'ref': [INT],
                'func': [INT], 'iface': [I], 'slice': [INT, INT, INT, INT], 'ext': [INT]}[k]
    # -- rich value <-> z3 components
    def lower(w, v, t):
        k = w.lkind(t)
        if k == 'int': return [zi(v)]
        if k == 'bool': return [zb(v)]
        if k == 'str': return [zs(v)]
        if k == 'float': return [zr(v)]
        if k == 'slice': return [zi(v.b), zi(v.o), zi(v.l), zi(v.c)]
        if k == 'iface': return [w.ifterm(v)]
        if k == 'ext': return [zi(v.x)]
        if k == 'ptr':
            if v.path or v.root != w.p.elem(t):
                return [zi(w.intern(v))]
            return [zi(v.ref)]
        if k in ('map', 'chan'): return [zi(v.ref)]
        if k == 'func': return [zi(w.intern(v)) if v.name else zi(v.ref)]
        if k == 'struct':
            r = []
            for f, x in zip(w.p.fields(t), v.fs): r += w.lower(x, f['t'])
            return r
        if k == 'array': return [v.row.toz3(w)]
        raise Unsupported(f'lower {k} {t}')
    def nleaves(w, t):
        k = w.lkind(t)
        if k == 'struct':
            r = []
            for f in w.p.fields(t): r += w.nleaves(f['t'])
            return r
        if k == 'array': return [z3.ArraySort(INT, x) for x in w.nleaves(w.p.elem(t))]
        return w.sorts(t)
    def intern(w, v):
        key = (v.root, str(v.ref), str(v.path)) if isinstance(v, PtrV) else (v.name, tuple(repr(b) for b in v.bind))
        if key not in w.interned: w.interned[key] = (-(1 << 50) - len(w.interned), v)
        return w.interned[key][0]
    def uninterned(w, i):
        for n, v in w.interned.values():
            if n == i: return v
    def lift(w, ts, t):
        """z3 components -> rich value"""
        k = w.lkind(t)
        x = ts[0]
        if z3.is_int_value(x): x = x.as_long()
        elif z3.is_true(x): x = True
        elif z3.is_false(x): x = False
        if isinstance(x, int) and not isinstance(x, bool) and x <= -(1 << 50) and k in ('ptr', 'func'): return w.uninterned(x)
        if k in ('int', 'bool', 'str', 'float'): return x
        if k == 'slice':
            f = lambda y: y.as_long() if z3.is_int_value(y) else y
            return SliceV(w.p.elem(t), x, f(ts[1]), f(ts[2]), f(ts[3]))
        if k == 'iface': return NILI if x.eq(nilI) else IfV(term=x)
        if k == 'ext': return ExtV(t, x)
        if k == 'ptr': return PtrV(w.p.elem(t), x)
        if k == 'map': return MapV(t, x)
        if k == 'chan': return ChanV(t, x)
        if k == 'func': return FuncV(ref=x, tn=t)
        if k == 'ref': return x
        raise Unsupported(f'lift {k} {t}')
    # -- interfaces
    def box(w, t):
        """constructor / selectors of interface values of dynamic type t"""
        t = w.p.unalias(t)
        if t not in w.boxes:
            ss = w.nleaves(t); n = len(w.boxes)
            nm = 'box_%d_%s' % (n, ''.join(c if c.isalnum() else '_' for c in t)[:30])
            w.boxes[t] = (z3.Function(nm, *ss, I) if ss else (lambda c=z3.Const(nm, I): c), [z3.Function(f'un{nm}_{i}', I, s) for i, s in enumerate(ss)], w.p.tagid(t))
        return w.boxes[t]
    def ifterm(w, v):
        if v.term is not None:
            if v.tn is not None and w.cur is not None and v.term.get_id() in w.boxfacts:
                for f in w.boxfacts[v.term.get_id()][1]: w.cur.fact(f)
            return v.term
        if v.tn is None: return nilI
        mk, sel, tag = w.box(v.tn)
        comps = w.lower(v.v, v.tn)
        t = mk(*comps)
        st = w.cur
        fs = [tagof(t) == tag, t != nilI] + [s_(t) == c for s_, c in zip(sel, comps)]
        fs += [x for x in (litfact(c) for c in comps if c.sort() == S) if x is not None]
        w.boxfacts[t.get_id()] = (t, fs)
        if st is not None:
            for f in fs: st.fact(f)
        v.term = t
        return t
    cur = None
    boxfacts = {}
    def unbox(w, st, v, t):
        t = w.p.unalias(t)
        if v.tn is not None: return v.v
        _, sel, tag = w.box(t)
        ts = [f(v.term) for f in sel]
        r = w.liftdeep(ts, t)[0]
        st.typefacts(r, t, st.eng.ifbirth.get(v.term.get_id(), (0, st.cnt))[1])
        if ts: st.fact(z3.Implies(tagof(v.term) == tag, w.boxes[t][0](*ts) == v.term))
        return r
    def liftdeep(w, ts, t):
        k = w.lkind(t)
        if k == 'struct':
            fs = []
            for f in w.p.fields(t):
                v, ts = w.liftdeep(ts, f['t']); fs.append(v)
            return StructV(t, fs), ts
        if k == 'array':
            return ArrV(t, SArr(w.p.elem(t), 1, [ts[0]])), ts[1:]
        n = len(w.sorts(t))
        return w.lift(ts[:n], t), ts[n:]
    def zero(w, t):
        k = w.lkind(t)
        if k == 'int': return 0
        if k == 'bool': return False
        if k == 'str': return b''
        if k == 'float': return z3.RealVal(0)
        if k == 'slice': return SliceV(w.p.elem(t), 0, 0, 0, 0)
        if k == 'iface': return NILI
        if k == 'ext': return ExtV(t, 0)
        if k == 'ptr': return PtrV(w.p.elem(t), 0)
        if k == 'map': return MapV(t, 0)
        if k == 'chan': return ChanV(t, 0)
        if k == 'func': return FuncV(ref=0, tn=t)
        if k == 'struct': return StructV(t, [w.zero(f['t']) for f in w.p.fields(t)])
        if k == 'array':
            return ArrV(t, w.zerorow(w.p.elem(t)))
        if k == 'ref': return 0
        raise Unsupported('zero ' + t)
    def zerorow(w, et):
        k = w.lkind(et)
        if k in ('struct', 'array'): raise Unsupported('array of composite ' + et)
        return SArr(et, 1, None, dflt=w.zero(et))
    def ite(w, c, a, b, t):
        if c is True: return a
        if c is False: return b
        k = w.lkind(t)
        if k == 'struct': return StructV(t, [w.ite(c, x, y, f['t']) for f, x, y in zip(w.p.fields(t), a.fs, b.fs)])
        if k == 'array': raise Unsupported('ite of arrays')
        if k == 'iface' and a.tn and b.tn and a.tn == b.tn: return IfV(tn=a.tn, v=w.ite(c, a.v, b.v, a.tn))
        la, lb = w.lower(a, t), w.lower(b, t)
        return w.lift([x if x.eq(y) else z3.simplify(z3.If(c, x, y)) for x, y in zip(la, lb)], t)
    def eq(w, a, b, t):
        """condition that two rich values of type t are equal (Go ==)"""
        k = w.lkind(t)
        if k == 'iface': return w.ifeq(a, b)
        if k in ('int', 'bool', 'ref'):
            if isc(a) and isc(b): return a == b
            if k == 'bool': return simp(zb(a) == zb(b))
            if same(a, b): return True
            return simp(zi(a) == zi(b))
        if k == 'str':
            if isinstance(a, bytes) and isinstance(b, bytes): return a == b
            lit, x = (a, b) if isinstance(a, bytes) else (b, a)
            a, b = zs(a), zs(b)
            if isinstance(lit, bytes) and w.cur is not None:
                st = w.cur; l_ = zs(lit); k = ('litid', l_.get_id())
                if k not in st.tf: st.tf.add(k); st.fact(litfact(l_))
            if isinstance(lit, bytes) and 0 < len(lit) <= 2 and w.cur is not None:      # short literals: equal exactly when length and bytes agree
                st = w.cur; k = ('lit', a.get_id(), b.get_id())
                if k not in st.tf:
                    st.tf.add(k); st.eng.keep.append((a, b))
                    st.fact((a == b) == z3.And(slen_f(x) == len(lit), *[sbytes_f(x)[i] == c for i, c in enumerate(lit)]))
            return True if a.eq(b) else a == b
        if k == 'float': return simp(zr(a) == zr(b))
        if k == 'ptr':
            if a.root != b.root or a.path or b.path:
                if isc(a.ref) and a.ref == 0: return w.eq(b.ref, 0, 'int')
                if isc(b.ref) and b.ref == 0: return w.eq(a.ref, 0, 'int')
                if a.root != b.root: return False
                if len(a.path) != len(b.path): return False
                cs = [w.eq(a.ref, b.ref, 'int')]
                for x, y in zip(a.path, b.path):
                    if isinstance(x, str) or isinstance(y, str):
                        if x != y: return False
                    else: cs.append(w.eq(x[1], y[1], 'int'))
                return and_(*cs)
            return w.eq(a.ref, b.ref, 'int')
        if k in ('map', 'chan'): return w.eq(a.ref, b.ref, 'int')
        if k == 'func':
            if a.name and b.name: return a.name == b.name
            ra = w.intern(a) if a.name else a.ref; rb = w.intern(b) if b.name else b.ref
            return w.eq(ra, rb, 'int')
        if k == 'slice': return w.eq(a.b, b.b, 'int')      # only == nil is legal Go
        if k == 'ext': return w.eq(a.x, b.x, 'int')
        if k == 'struct': return and_(*[w.eq(x, y, f['t']) for f, x, y in zip(w.p.fields(t), a.fs, b.fs)])
        if k == 'array':
            n = w.p.under(t)[1]['n']
            return and_(*[w.eq(a.row.read(w.cur, i), b.row.read(w.cur, i), w.p.elem(t)) for i in range(n)])
        raise Unsupported('eq ' + t)
    def ifeq(w, a, b):
        if a.isnil and b.isnil: return True
        if a.isnil or b.isnil:
            x = b if a.isnil else a
            if x.tn: return False
            return x.term == nilI
        if a.tn and b.tn:
            if w.p.unalias(a.tn) != w.p.unalias(b.tn): return False
            return w.eq(a.v, b.v, a.tn)
        return simp(w.ifterm(a) == w.ifterm(b))

class SArr:
    """array-valued memory component: writes over a symbolic or constant base. dims>1: rows of rows."""
    __slots__ = ('et', 'dims', 'base', 'dflt', 'ws', 'birth', '_z', 'nm', 'g')
    def __init__(s, et, dims, base, dflt=None, ws=(), birth=0, nm=None, g=None):
        # g: condition under which the owner of a row is as old as the array (its references then are, too)
        s.et, s.dims, s.base, s.dflt, s.ws, s.birth, s._z, s.nm, s.g = et, dims, base, dflt, ws, birth, None, nm, g
    def write(s, st, idxs, v):
        i = idxs[0]
        if len(idxs) > 1: v = s.row(st, i).write(st, idxs[1:], v)
        ws = s.ws
        # drop an earlier write at the syntactically same index when it is the newest
        n, ws2 = 0, ws
        while ws2 and n < 64:
            c = st.cmpidx(ws2[0], i)
            if c is True:
                # rebuild without it, if everything newer is known different
                keep = []; x = ws
                while x is not ws2: keep.append((x[0], x[1])); x = x[2]
                ws = ws2[2]
                for a, b in reversed(keep): ws = (a, b, ws)
                break
            if c is None: break
            ws2 = ws2[2]; n += 1
        return SArr(s.et, s.dims, s.base, s.dflt, (i, v, ws), s.birth, s.nm, s.g)
    def row(s, st, i):
        r = s._read(st, i)
        return r
    def read(s, st, *idxs):
        r = s._read(st, idxs[0])
        return r.read(st, *idxs[1:]) if len(idxs) > 1 else r
    def _read(s, st, i):
        amb = []
        ws = s.ws
        while ws:
            c = st.cmpidx(ws[0], i)
            if c is True: res = ws[1]; break
            if c is None: amb.append((ws[0], ws[1]))
            ws = ws[2]
        else: res = s.baseread(st, i)
        if amb:
            # ask the solver before building conditionals
            for n in range(len(amb)):
                r = st.solvecmp(amb[n][0], i)
                if r is True: return s._fold(st, i, amb[:n], amb[n][1])
                if r is False: amb[n] = None
            res = s._fold(st, i, amb, res)
        return res
    def _fold(s, st, i, amb, res):
        for a in reversed([a for a in amb if a]):
            c = simp(zi(a[0]) == zi(i))
            if s.dims > 1: res = iterow(st, c, a[1], res)
            else: res = st.w.ite(c, a[1], res, s.et)
        return res
    def baseread(s, st, i):
        if s.base is None:
            return s.dflt
        g = s.g
        if g is None: g = i >= -s.birth if isc(i) else True if i.get_id() in st.eng.old else simp(i >= -s.birth)
        i = zi(i)
        if s.dims > 1: return SArr(s.et, s.dims - 1, [z3.simplify(z3.Select(b, i)) for b in s.base], birth=s.birth, g=g)
        ts = [z3.simplify(z3.Select(b, i)) for b in s.base]
        r = st.w.lift(ts, s.et)
        st.typefacts(r, s.et, s.birth, g)
        return r
    def toz3(s, w):
        """single-component arrays as a z3 array term"""
        if s._z is None: s._z = s.comps(w)[0]
        return s._z
    def comps(s, w):
        def srt(dims, x):
            return x if dims == 0 else z3.ArraySort(INT, srt(dims - 1, x))
        if s.base is None:
            if s.dims > 1: cs = [z3.K(INT, c) for c in s.dflt.comps(w)]
            else: cs = [z3.K(INT, c) for c in w.lower(s.dflt, s.et)]
        else: cs = list(s.base)
        ws = []; x = s.ws
        while x: ws.append((x[0], x[1])); x = x[2]
        for i, v in reversed(ws):
            vs = v.comps(w) if s.dims > 1 else w.lower(v, s.et)
            cs = [z3.Store(c, zi(i), y) for c, y in zip(cs, vs)]
        return cs
    def same(s, o):
        if s is o: return True
        if s.ws is not o.ws or s.dims != o.dims: 
            if not (s.ws == () and o.ws == ()): return False
        if s.base is None or o.base is None:
            return s.base is None and o.base is None and s.dflt is o.dflt
        return all(a.eq(b) for a, b in zip(s.base, o.base))

def iterow(st, c, a, b):
    if c is True: return a
    if c is False: return b
    return SArr(a.et, a.dims, [z3.If(c, x, y) for x, y in zip(a.comps(st.w), b.comps(st.w))], birth=st.cnt, g=True)

def subterms(t):
    seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x
        todo += x.children()
