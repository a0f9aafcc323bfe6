"""Goals with bit operations: integer terms of bounded range are translated to 64-bit vectors (exact: the translation
fails when an intermediate value could leave the range) and decided by z3's bit-vector solver."""
import z3, os
from core import *
class No(Exception): pass
W = 64; LIM = 1 << 62
POLY = 0xEDB88320
crcstepf = z3.Function('crcstep', INT, INT, INT)     # signed 32-bit view of one byte step of IEEE CRC-32
crcfoldf = z3.Function('crcfold', z3.ArraySort(INT, INT), INT, INT, INT)   # content, offset, length
def crcconst(c, b):
    c = (c ^ b) & 0xffffffff
    for _ in range(8): c = (c >> 1) ^ (POLY if c & 1 else 0)
    return c - (1 << 32) if c >> 31 else c

OPS = {}
def opf(o, n, sg):
    """bit operation on n-bit values, as an uninterpreted function for the integer solver"""
    nm = 'bit%s%d%s' % ({'&': 'and', '|': 'or', '^': 'xor', '&^': 'andnot'}[o], n, 's' if sg else 'u')
    OPS[nm] = (o, n, sg)
    return z3.Function(nm, INT, INT, INT)
def wanted(t):
    if not z3.is_ast(t): return False
    for x in subterms(t):
        if z3.is_app(x) and x.num_args() == 2 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in OPS or x.decl().eq(crcstepf)): return True
    return False

class BV:
    def __init__(s, eng, st): s.eng, s.st, s.memo, s.leaves, s.side, s.bm = eng, st, {}, [], [], {}
    def leaf(s, t):
        for lo, hi in ((0, 255), (-2**31, 2**31 - 1), (0, 2**32 - 1), (-LIM, LIM)):
            if s.st.valid(z3.And(t >= lo, t <= hi), 800): break
        else: raise No('range of %s' % t)
        for u, r in s.leaves:
            if s.st.valid(u == t, 800): return r
        v = z3.BitVec('bvl!%d' % len(s.leaves), W)
        s.side.append(z3.And(v >= lo, v <= hi))
        s.leaves.append((t, (v, lo, hi)))
        return v, lo, hi
    def tr(s, t):
        k = t.get_id()
        if k not in s.memo:
            r = s.tr0(t)
            if r[1] < -LIM or r[2] > LIM: raise No('range')
            s.memo[k] = (t, r)
        return s.memo[k][1]
    def tr0(s, t):
        if z3.is_int_value(t):
            v = t.as_long(); return z3.BitVecVal(v, W), v, v
        if not z3.is_app(t): raise No('term')
        o = t.decl().kind(); a = t.children()
        if o == z3.Z3_OP_ADD:
            r = s.tr(a[0])
            for x in a[1:]:
                y = s.tr(x); r = (r[0] + y[0], r[1] + y[1], r[2] + y[2])
                if r[1] < -LIM or r[2] > LIM: raise No('range')
            return r
        if o == z3.Z3_OP_SUB and len(a) == 2:
            x, y = s.tr(a[0]), s.tr(a[1]); return x[0] - y[0], x[1] - y[2], x[2] - y[1]
        if o == z3.Z3_OP_UMINUS:
            x = s.tr(a[0]); return -x[0], -x[2], -x[1]
        if o == z3.Z3_OP_MUL and len(a) == 2:
            x, y = s.tr(a[0]), s.tr(a[1])
            c = [p * q for p in x[1:] for q in y[1:]]
            return x[0] * y[0], min(c), max(c)
        if o == z3.Z3_OP_MOD and z3.is_int_value(a[1]):
            m = a[1].as_long(); x = s.tr(a[0])
            if m > 0 and m & (m - 1) == 0:
                if x[1] >= 0 and x[2] < m: return x
                return x[0] & (m - 1), 0, m - 1
        if o == z3.Z3_OP_IDIV and z3.is_int_value(a[1]):
            m = a[1].as_long(); x = s.tr(a[0])
            if m > 0 and m & (m - 1) == 0: return x[0] >> (m.bit_length() - 1), x[1] // m, x[2] // m
        if o == z3.Z3_OP_ITE:
            c, x, y = s.trb(a[0]), s.tr(a[1]), s.tr(a[2])
            return z3.If(c, x[0], y[0]), min(x[1], y[1]), max(x[2], y[2])
        if o == z3.Z3_OP_BV2INT:
            e = s.trv(a[0]); n = e.size()
            if n > 62: raise No('width')
            return z3.ZeroExt(W - n, e), 0, (1 << n) - 1
        if o == z3.Z3_OP_SELECT:
            r = s.lookup(a[0], a[1])
            if r is not None: return r
        if o == z3.Z3_OP_UNINTERPRETED and t.decl().name() in OPS:
            op, n, sg = OPS[t.decl().name()]
            x, y = s.tr(a[0])[0], s.tr(a[1])[0]
            if n < W: x, y = z3.Extract(n - 1, 0, x), z3.Extract(n - 1, 0, y)
            r = {'&': x & y, '|': x | y, '^': x ^ y, '&^': x & ~y}[op]
            if n == W: raise No('64-bit operation')
            return (z3.SignExt if sg else z3.ZeroExt)(W - n, r), -(1 << (n - 1)) if sg else 0, (1 << (n - 1 if sg else n)) - 1
        if t.decl().eq(crcstepf):
            c = z3.Extract(31, 0, s.tr(a[0])[0]) ^ z3.Extract(31, 0, s.tr(a[1])[0])
            for _ in range(8): c = z3.LShR(c, 1) ^ z3.If(z3.Extract(0, 0, c) == 1, z3.BitVecVal(POLY, 32), z3.BitVecVal(0, 32))
            return z3.SignExt(W - 32, c), -2**31, 2**31 - 1
        return s.leaf(t)
    def lookup(s, arr, idx):
        """element of a constant table"""
        if not (z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_SELECT and z3.is_int_value(arr.arg(1))): return None
        row = s.eng.constrows.get((arr.arg(0).get_id(), arr.arg(1).as_long()))
        if row is None: return None
        i = s.tr(idx)
        if i[1] < 0 or i[2] >= len(row): raise No('table index')
        n = max(1, (len(row) - 1).bit_length())
        ix = z3.Extract(n - 1, 0, i[0])
        def tree(lo, bits):
            if lo >= len(row): return z3.BitVecVal(0, W)
            if bits == 0: return z3.BitVecVal(row[lo], W)
            return z3.If(z3.Extract(bits - 1, bits - 1, ix) == 1, tree(lo + (1 << (bits - 1)), bits - 1), tree(lo, bits - 1))
        return tree(0, n), min(row), max(row)
    def trb(s, t):
        if z3.is_true(t) or z3.is_false(t): return t
        o = t.decl().kind() if z3.is_app(t) else None; a = t.children()
        if o == z3.Z3_OP_NOT: return z3.Not(s.trb(a[0]))
        if o in (z3.Z3_OP_AND, z3.Z3_OP_OR): return (z3.And if o == z3.Z3_OP_AND else z3.Or)(*[s.trb(x) for x in a])
        if o == z3.Z3_OP_IMPLIES: return z3.Implies(s.trb(a[0]), s.trb(a[1]))
        if o in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(a[0]):
            x, y = s.tr(a[0])[0], s.tr(a[1])[0]
            return {z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y, z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y}[o]
        if o == z3.Z3_OP_EQ and z3.is_int(a[0]): return s.tr(a[0])[0] == s.tr(a[1])[0]
        if o == z3.Z3_OP_EQ and z3.is_bv(a[0]): return s.trv(a[0]) == s.trv(a[1])
        if z3.is_bool(t) and o in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ):
            return t.decl()(*[s.trv(x) for x in a])
        if o == z3.Z3_OP_ITE: return z3.If(s.trb(a[0]), s.trb(a[1]), s.trb(a[2]))
        if o == z3.Z3_OP_EQ and z3.is_bool(a[0]): return s.trb(a[0]) == s.trb(a[1])
        k = t.get_id()
        if k not in s.bm: s.bm[k] = (t, z3.Bool('bvb!%d' % len(s.bm)))
        return s.bm[k][1]
    def trv(s, t):
        o = t.decl().kind()
        if z3.is_bv_value(t): return t
        if o == z3.Z3_OP_INT2BV: return z3.Extract(t.size() - 1, 0, s.tr(t.arg(0))[0]) if t.size() < W else s.tr(t.arg(0))[0]
        if z3.is_bv(t) and t.num_args() and all(z3.is_bv(x) for x in t.children()):
            c = [s.trv(x) for x in t.children()]
            return z3.substitute(t, *[(x, y) for x, y in zip(t.children(), c) if not x.eq(y)])
        if o == z3.Z3_OP_ITE: return z3.If(s.trb(t.arg(0)), s.trv(t.arg(1)), s.trv(t.arg(2)))
        raise No('bit-vector term ' + str(t)[:80])

def prove(eng, st, cond, ms=20000):
    """True: proved; None: not translatable or undecided; a string: counterexample of the bit-level goal"""
    try:
        b = BV(eng, st)
        g = b.trb(cond)
        sol = z3.SolverFor('QF_BV'); sol.set('timeout', ms)
        sol.add(*b.side); sol.add(z3.Not(g))
        r = sol.check()
        if r == z3.unsat: return True
        return None
    except No as e:
        if os.environ.get("BVDEBUG"): print("BV", e, str(cond)[:300])
        return None
