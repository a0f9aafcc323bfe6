"""Path state, incremental solver and byte streams."""
import z3, time, subprocess, tempfile, os
from core import *
import bv

class Node:
    __slots__ = ('c', 'up', 'd', 'branch')
    def __init__(s, c, up, branch=False): s.c, s.up, s.d, s.branch = c, up, (up.d + 1 if up else 0), branch

_q = {}
def hasq(c):
    k = c.get_id()
    r = _q.get(k)
    if r is None:
        seen = set(); todo = [c]; v = False
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): v = True; break
            todo += x.children()
        r = _q[k] = (v, c)
    return r[0]

SCALE = 1
class Inc:
    """incremental z3 solver following the path-condition tree"""
    def __init__(s, stats):
        s.stats = stats; s.memo = {}; s.reset()
    def reset(s):
        s.s = z3.Solver(); s.s.set('timeout', 4000); s.lv = []; s.n = 0   # lv: list of (topnode)
    def sync(s, node):
        path = []
        n = node
        lvset = {id(x): k for k, x in enumerate(s.lv)}
        while n is not None and id(n) not in lvset: path.append(n); n = n.up
        keep = lvset[id(n)] + 1 if n is not None else 0
        while len(s.lv) > keep: s.s.pop(); s.lv.pop()
        if path:
            s.s.push()
            for x in reversed(path):
                if x.c is not None and not hasq(x.c): s.s.add(x.c)
            s.lv.append(node)
    def check(s, node, cond, timeout=4000, full=False):
        """is pc(node) /\\ cond satisfiable: True / False / None.
        Quantified facts take part only in full mode (leaving them out is sound: they only remove models)."""
        key = (id(node), cond.get_id(), full)
        r = s.memo.get(key)
        if r is not None: return r[0]
        t0 = time.time()
        s.n += 1
        if s.n > 3000: s.reset()
        r = None
        if full:
            r0 = s.memo.get((id(node), cond.get_id(), False))
            if r0 is not None and r0[0] is False: return False
            qs = []; n = node
            while n is not None:
                if n.c is not None and hasq(n.c): qs.append(n.c)
                n = n.up
        s.sync(node)
        s.s.push(); s.s.add(cond); s.s.set('timeout', timeout * SCALE)
        if not full or r0 is None or not qs:
            r = s.s.check()
        if full and qs and r != z3.unsat:
            s.s.add(*reversed(qs))
            r = s.s.check()
        s.s.pop()
        r = True if r == z3.sat else False if r == z3.unsat else None
        s.memo[key] = (r, node, cond)
        s.stats['queries'] += 1; s.stats['time'] += time.time() - t0
        return r

class Eng:
    """per-verification context shared by all states"""
    pass

def keeps(keep, key):
    for k in keep:
        if k == '@' and key[0].startswith('@'): return True
        if key[0] == k: return True
        t, _, f = k.rpartition('.')
        if key[0] == t and key[1] and key[1][0] == f and not k.startswith(('map ', '[]')): return True
    return False
class State:
    def __init__(s, eng):
        s.eng, s.w = eng, eng.w
        s.frames = []; s.node = Node(None, None); s.mem = {}; s.outs = {}; s.ins = {}; s.evs = ()
        s.cnt = 0; s.tf = set(); s._wlog = (); s.ghost = {}; s.rcache = {}; s.panicking = None; s.gens = (); s.stk = frozenset()
    def fork(s):
        n = State.__new__(State)
        n.eng, n.w = s.eng, s.w
        n.frames = [f.copy() for f in s.frames]; n.node = s.node; n.mem = dict(s.mem); n.outs = dict(s.outs); n.ins = dict(s.ins)
        n.evs = s.evs; n.cnt = s.cnt; n.tf = set(s.tf); n._wlog = s._wlog; n.ghost = dict(s.ghost); n.rcache = dict(s.rcache)
        n.panicking = s.panicking; n.gens = s.gens; n.stk = s.stk
        return n
    @property
    def wlog(s): return s._wlog
    @wlog.setter
    def wlog(s, v):
        s._wlog = v
        e = s.eng
        if v and e.guards and not e.lockquiet: e.onwrite(e, s, *v[0])
    # -- facts
    def fact(s, c, branch=False):
        if isinstance(c, bool):
            if not c: s.node = Node(z3.BoolVal(False), s.node, branch)
            elif branch: s.node = Node(None, s.node, None)
            return
        k = c.get_id()
        if k in s.tf and not branch: return
        s.tf.add(k); s.eng.keep.append(c)
        if z3.is_and(c) and not branch and hasq(c):      # keep the quantifier-free part usable in quick checks
            for x in c.children(): s.fact(x)
            return
        s.node = Node(s.eng.hypform(c), s.node, branch)
    def hasq(s):
        n = s.node
        while n is not None:
            if n.c is not None and hasq(n.c): return True
            n = n.up
        return False
    def sat(s, c=None, timeout=4000, full=False):
        if c is None: c = z3.BoolVal(True)
        if c is False: return False
        if c is True: c = z3.BoolVal(True)
        return s.eng.inc.check(s.node, c, timeout, full or s.eng.fullmode)
    def valid(s, c, timeout=3000, full=False):
        """True if pc entails c"""
        if isinstance(c, bool):
            return c or s.sat(full=full) is False
        c2 = simp(c)
        if c2 is True: return True
        if c2 is False: return s.sat(full=full) is False
        if bv.wanted(c):
            r = bv.prove(s.eng, s, c)
            if r is not None: return r
        return s.eng.inc.check(s.node, z3.Not(s.eng.goalform(c)), timeout, full or s.eng.fullmode) is False
    def decide(s, c, timeout=2000):
        """True/False if decided by the path condition, else None"""
        if isinstance(c, bool): return c
        c2 = simp(c)
        if isinstance(c2, bool): return c2
        a = s.eng.inc.check(s.node, c, timeout)
        if a is False: return False
        b = s.eng.inc.check(s.node, z3.Not(c), timeout)
        if b is False: return True
        return None
    def isold(s, t): s.eng.old[t.get_id()] = t
    def cmpidx(s, a, b):
        if isc(a) and isc(b): return a == b
        if isz(a) and isz(b):
            if a.eq(b): return True
            d = z3.simplify(a - b)
            if z3.is_int_value(d): return d.as_long() == 0
            return None
        x, y = (a, b) if isc(a) else (b, a)
        if x < 0 and y.get_id() in s.eng.old: return False
        return None
    def solvecmp(s, a, b):
        c = simp(zi(a) == zi(b))
        if isinstance(c, bool): return c
        if s.eng.inc.check(s.node, c, 1000) is False: return False
        if s.eng.inc.check(s.node, z3.Not(c), 1000) is False: return True
        return None
    def typefacts(s, v, t, birth=0, g=True):
        k = s.w.lkind(t)
        if k == 'int':
            if isz(v):
                n, sg = s.w.p.intinfo(t)
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
                if v.get_id() not in s.tf:
                    s.tf.add(v.get_id()); s.fact(z3.And(v >= lo, v <= hi))
        elif k in ('ptr', 'map', 'chan', 'func', 'ref'):
            x = v if k == 'ref' else v.ref
            if isz(x) and x.get_id() not in s.tf:
                s.tf.add(x.get_id())
                if g is True:
                    s.fact(x >= -birth)
                    if birth == 0: s.isold(x)
                else: s.fact(implies(g, x >= -birth)); s.fact(x >= -s.cnt)
        elif k == 'slice':
            if isz(v.l) and v.l.get_id() not in s.tf:
                s.tf.add(v.l.get_id())
                s.fact(z3.And(zi(v.o) >= 0, zi(v.l) >= 0, zi(v.l) <= zi(v.c), zi(v.c) <= BIG, zi(v.o) <= BIG))
                if g is True: s.fact(zi(v.b) >= -birth)
                else: s.fact(implies(g, zi(v.b) >= -birth)); s.fact(zi(v.b) >= -s.cnt)
                s.fact(z3.Implies(zi(v.b) == 0, z3.And(zi(v.l) == 0, zi(v.c) == 0)))
                if birth == 0 and g is True and isz(v.b): s.isold(v.b)
        elif k == 'str':
            if isz(v): s.strfacts(v)
        elif k == 'struct':
            for x, f in zip(v.fs, s.w.p.fields(t)): s.typefacts(x, f['t'], birth, g)
        elif k == 'iface':
            if isz(v.term): s.eng.ifbirth.setdefault(v.term.get_id(), (v.term, birth if g is True else s.cnt))
        elif k == 'ext':
            pass
    # -- strings
    def strfacts(s, v):
        k = v.get_id()
        if k in s.tf: return
        s.tf.add(k)
        s.fact(z3.And(slen_f(v) >= 0, slen_f(v) <= BIG))
        e = s.eng.emptystr
        s.fact((v == e) == (slen_f(v) == 0))
    def slen(s, v):
        if isinstance(v, bytes): return len(v)
        if v.decl().eq(sconcat_f): 
            return add(s.slen(s.unlit(v.arg(0))), s.slen(s.unlit(v.arg(1))))
        s.strfacts(v)
        c = s.eng.cache.get(('srow', v.get_id()))
        if c is not None and getattr(c[0], 'chunks', None) is not None: return c[0].clen
        return slen_f(v)
    def unlit(s, t):
        for b, c in _lits_items():
            if c.eq(t): return b
        return t
    def schar(s, v, i):
        if isinstance(v, bytes) and isc(i): return v[i]
        if isinstance(v, bytes): return s.srow(v).read(s, i)
        r = sbytes_f(v)[zi(i)]
        s.typefacts(r, 'uint8')
        return r
    def srow(s, v):
        if isinstance(v, bytes):
            ws = ()
            for i, c in enumerate(v): ws = (i, c, ws)
            return SArr('uint8', 1, None, dflt=0, ws=ws)
        k = ('srow', v.get_id())
        c = s.eng.cache
        if k not in c: c[k] = (SArr('uint8', 1, [sbytes_f(v)]), v)
        return c[k][0]
    def sconcat(s, a, b):
        if isinstance(a, bytes) and isinstance(b, bytes): return a + b
        if a == b'' if isinstance(a, bytes) else False: return b
        if b == b'' if isinstance(b, bytes) else False: return a
        # right-nested normal form, literals merged
        xs = s.sparts(a) + s.sparts(b)
        ys = []
        for x in xs:
            if ys and isinstance(x, bytes) and isinstance(ys[-1], bytes): ys[-1] += x
            else: ys.append(x)
        r = zs(ys[-1])
        for y in reversed(ys[:-1]): r = sconcat_f(zs(y), r)
        l = 0
        for y in ys: l = add(l, s.slen(y))
        s.fact(slen_f(r) == zi(l)); s.strfacts(r)
        return r
    def sparts(s, v):
        if isinstance(v, bytes): return [v]
        if v.decl().eq(sconcat_f): return s.sparts(s.unlit(v.arg(0))) + s.sparts(s.unlit(v.arg(1)))
        return [s.unlit(v)]
    # -- memory
    def comp(s, key, et, dims):
        a = s.mem.get(key)
        if a is None:
            a = s.eng.base(key, et, dims)
            for gid, birth, keep in reversed(s.gens):       # a call that may change everything but what it keeps
                if not keeps(keep, key):
                    k = (gid, key)
                    if k not in s.eng.genbases: s.eng.genbases[k] = s.eng.fresharr(key, et, dims, birth)
                    a = s.eng.genbases[k]; break
            s.mem[key] = a
        return a
    def peek(s, key):
        a = s.mem.get(key)
        if a is None: b = s.eng.bases[key]; a = s.comp(key, b.et, b.dims)
        return a
    def _addr(s, p, t):
        """(key prefix, indices) for a pointer"""
        path = []; idxs = [p.ref]
        for x in p.path:
            if isinstance(x, str): path.append(x)
            else: path.append('[]'); idxs.append(x[1])
        return p.root, tuple(path), idxs
    def load(s, p, t):
        k = s.w.lkind(t)
        if k == 'struct':
            return StructV(t, [s.load(PtrV(f['t'], p.ref, p.root, p.path + (f['name'],)), f['t']) for f in s.w.p.fields(t)])
        root, path, idxs = s._addr(p, t)
        if k == 'array':
            et = s.w.p.elem(t)
            if s.w.lkind(et) in ('struct', 'array'): raise Unsupported('load of array of composites')
            a = s.comp((root, path + ('[]',)), et, len(idxs) + 1)
            r = a
            for i in idxs: r = r.row(s, i)
            return ArrV(t, r)
        a = s.comp((root, path), t, len(idxs))
        return a.read(s, *idxs)
    def store(s, p, v, t):
        k = s.w.lkind(t)
        if k == 'struct':
            for f, x in zip(s.w.p.fields(t), v.fs): s.store(PtrV(f['t'], p.ref, p.root, p.path + (f['name'],)), x, f['t'])
            return
        root, path, idxs = s._addr(p, t)
        if k == 'array':
            et = s.w.p.elem(t); key = (root, path + ('[]',))
            a = s.comp(key, et, len(idxs) + 1)
            s.mem[key] = a.write(s, idxs, v.row)
            s.wlog = ((key, tuple(idxs)), s.wlog)
            return
        key = (root, path)
        a = s.comp(key, t, len(idxs))
        s.mem[key] = a.write(s, idxs, v)
        s.wlog = ((key, tuple(idxs)), s.wlog)
    def newref(s):
        s.cnt += 1
        return -s.cnt
    def alloc(s, t):
        r = s.newref()
        if s.w.lkind(t) == 'array':        # arrays live in element memory so that slices of them alias
            p = PtrV(t, r, root='[]' + s.w.p.elem(t))
            s.zeroinit(p, t)
            return p
        p = PtrV(t, r)
        s.zeroinit(p, t)
        return p
    def zeroinit(s, p, t):
        k = s.w.lkind(t)
        if k == 'ext': 
            s.eng.lib_alloc(s, p, t); return
        if k == 'struct':
            for f in s.w.p.fields(t): s.zeroinit(PtrV(f['t'], p.ref, p.root, p.path + (f['name'],)), f['t'])
            return
        if k == 'array' and s.w.lkind(s.w.p.elem(t)) == 'struct':
            n = s.w.p.under(t)[1]['n']; et = s.w.p.elem(t)
            if n > 64: raise Unsupported('big array of structs')
            for i in range(n): s.zeroinit(PtrV(et, p.ref, p.root, p.path + (('i', i),)), et)
            return
        if k == 'array' and s.w.lkind(s.w.p.elem(t)) == 'array': raise Unsupported('nested arrays')
        s.store(p, s.w.zero(t), t)
    def elemptr(s, sl, i):
        return PtrV(sl.et, sl.b, '[]' + sl.et, (('i', add(sl.o, i)),))
    def row(s, sl, leaf=()):
        """content row of a slice of scalars (absolute indices)"""
        a = s.comp(('[]' + sl.et, ('[]',) + leaf), sl.et, 2)
        return a.row(s, sl.b)
    def setrow(s, sl, row, leaf=(), et=None):
        key = ('[]' + sl.et, ('[]',) + leaf)
        a = s.comp(key, et or sl.et, 2)
        s.mem[key] = a.write(s, [sl.b], row)
        s.wlog = ((key, (sl.b,)), s.wlog)
    def leafpaths(s, t):
        k = s.w.lkind(t)
        if k == 'struct':
            r = []
            for f in s.w.p.fields(t): r += [((f['name'],) + p, x) for p, x in s.leafpaths(f['t'])]
            return r
        if k == 'array': raise Unsupported('slice of arrays')
        return [((), t)]
    def zeroslice(s, et, l, c=None):
        sl = s.newslice(et, None, l, c)
        for p, t in s.leafpaths(et):
            s.setrow(sl, SArr(t, 1, None, dflt=s.w.zero(t)), p, t)
        return sl
    def newslice(s, et, row, l, c=None):
        r = s.newref()
        sl = SliceV(et, r, 0, l, l if c is None else c)
        if row is not None: s.setrow(sl, row)
        return sl

def _lits_items():
    import core
    return list(core._lits.items())
