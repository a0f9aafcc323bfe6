"""Locks as ghost state, and the locking discipline as obligations.

State of a lock at an address: absent = free, 1 = held for reading, 2 = held for writing (always concrete: a function in which
it depends on the path in a way a loop or a join cannot state is outside the subset).  Obligations, named lock:*:
  reacquire     Lock/RLock while the same goroutine holds it (self deadlock)
  release       Unlock of a lock not held in that mode
  held-at-exit  still held when the function returns or a panic leaves it
  order         calling a function that may acquire a lock of the same kind that is held
  guard         guarded state read without the lock, or written without it held for writing
  once          two critical sections of one lock in one operation (option one-section)"""
import z3
from core import *
from lib import model, MODELS
import engine as E

def addr(st, p): return (p.root, p.path, str(p.ref))
def key(a): return 'lock %s%s %s' % (a[0], ''.join('.' + str(x) for x in a[1]), a[2])
def find(st, p):
    """(ghost key, mode) of the lock at p, if held"""
    k = key(addr(st, p))
    if k in st.ghost: return k, st.ghost[k][0]
    for q, v in st.ghost.items():
        if q.startswith('lock ') and v[1].root == p.root and v[1].path == p.path:
            d = st.valid(st.w.eq(v[1].ref, p.ref, 'int'))
            if d: return q, v[0]
    return None, 0
def nm(p): return '%s%s' % (p.root, ''.join('.' + str(x) for x in p.path))

def acquire(eng, st, p, mode):
    k, m = find(st, p)
    eng.record(st, k is None, 'lock:reacquire', '' if k is None else '%s is acquired while the caller already holds it: self deadlock' % nm(p))
    if k is not None: raise Unsupported('lock re-acquired')
    for q, v in list(st.ghost.items()):     # another lock of the same kind is held: must be a different object
        if q.startswith('lock ') and v[1].root == p.root and v[1].path == p.path:
            eng.oblige(st, not_(st.w.eq(v[1].ref, p.ref, 'int')), 'lock:reacquire', 'may be the lock already held')
    st.ghost[key(addr(st, p))] = (mode, p)
    c = 'locked ' + nm(p)
    st.ghost[c] = st.ghost.get(c, 0) + 1 if isinstance(st.ghost.get(c, 0), int) else st.ghost[c]
    if eng.curopts.get('one-section'):
        eng.record(st, isinstance(st.ghost[c], int) and st.ghost[c] == 1, 'lock:once', '%s is acquired a second time in one operation: the steps are not one critical section' % nm(p))
def release(eng, st, p, mode):
    k, m = find(st, p)
    ok = m == mode
    eng.record(st, ok, 'lock:release', '' if ok else '%s is released for %s while %s' % (nm(p), 'writing' if mode == 2 else 'reading', ['not held', 'held for reading', 'held for writing'][m]))
    if k is not None: del st.ghost[k]
    if not ok: raise Unsupported('unlock of a lock not held')

@model('(*sync.Mutex).Lock', '(*sync.RWMutex).Lock')
def m_lock(eng, st, a): acquire(eng, st, a[0], 2)
@model('(*sync.RWMutex).RLock')
def m_rlock(eng, st, a): acquire(eng, st, a[0], 1)
@model('(*sync.Mutex).Unlock', '(*sync.RWMutex).Unlock')
def m_unlock(eng, st, a): release(eng, st, a[0], 2)
@model('(*sync.RWMutex).RUnlock')
def m_runlock(eng, st, a): release(eng, st, a[0], 1)
@model('(*sync.Mutex).TryLock', '(*sync.RWMutex).TryLock')
def m_trylock(eng, st, a):
    k, m = find(st, a[0])
    if k is not None: return False
    s2 = st.fork(); st.ghost[key(addr(st, a[0]))] = (2, a[0])
    return [(st, True), (s2, False)]

def held(st): return [v for q, v in st.ghost.items() if q.startswith('lock ')]
def atexit(eng, st):
    h = [v for q, v in st.ghost.items() if q.startswith('lock ') and 'pre ' + q not in st.ghost]
    eng.record(st, not h, 'lock:held-at-exit', '' if not h else 'still held: ' + ', '.join(nm(x[1]) for x in h))
    for q, v in st.ghost.items():
        if q.startswith('pre lock '):
            eng.record(st, find(st, v[1])[1] == v[0], 'lock:held-at-exit', 'the lock the caller holds was released')

# ---- acquire sets: kinds of locks a call may acquire
def acqset(prog, name):
    c = prog.__dict__.setdefault('_acq', {})
    if not c:
        direct = {}; calls = {}
        for n, f in prog.fns.items():
            d = direct[n] = set(); cs = calls[n] = set()
            defs = {i['r']: i for b in f.blocks or [] for i in b['ins'] if i.get('r')}
            # initialisers handed to sync.Once have run before the shared state is used
            once = {id(o) for b in f.blocks or [] for i in b['ins'] for cc in [i.get('call') or {}] if i['op'] in ('call', 'defer') and 'fn' in cc and cc['fn'].get('n') == '(*sync.Once).Do' for o in cc['args']}
            oreg = {o['n'] for b in f.blocks or [] for i in b['ins'] for o in operands(i) if id(o) in once and o.get('k') == 'r'}
            for b in f.blocks or []:
                for i in b['ins']:
                    if i['op'] == 'go': continue
                    if i.get('r') in oreg and i['op'] == 'makeclosure': continue
                    cc = i.get('call') if i['op'] in ('call', 'defer') else None
                    if cc and 'invoke' in cc:
                        for t in prog.methods:
                            if cc['invoke'] in prog.methods[t]: cs.add(prog.methods[t][cc['invoke']])
                    elif cc and cc['fn'].get('n') in ('(*sync.Mutex).Lock', '(*sync.RWMutex).Lock', '(*sync.RWMutex).RLock'):
                        d.add(kind(prog, defs, cc['args'][0]))
                    for o in operands(i):
                        if o.get('k') == 'f' and id(o) not in once: cs.add(o['n'])
        res = {n: set(d) for n, d in direct.items()}
        ch = True
        while ch:
            ch = False
            for n in res:
                for g in calls[n]:
                    if g in res and not res[g] <= res[n]: res[n] |= res[g]; ch = True
        c.update(res); c.setdefault('', set())
    if name not in c and name not in prog.fns and '.' in name:     # a method of an interface: any implementation
        t, m = name.rsplit('.', 1)
        if t in prog.types and prog.kind(t) == 'iface':
            for x, mm in prog.methods.items():
                if m in mm and prog.kind(x) != 'iface' and prog.implements(x, t): c.setdefault(name, set()).update(c.get(mm[m], set()))
    return c.get(name, set())
def operands(i):
    for v in i.values():
        if isinstance(v, dict):
            yield v
            if 'fn' in v and isinstance(v['fn'], dict): yield v['fn']
            yield from (x for x in v.get('args') or [] if isinstance(x, dict))
        elif isinstance(v, list): yield from (x for x in v if isinstance(x, dict))
def kind(prog, defs, op):
    """root type and path of the address of a lock, as a name"""
    if op['k'] == 'g': return '@' + op['n']
    i = defs.get(op['n'])
    if i is not None and i['op'] == 'fieldaddr':
        bt = i['x']['t'][1:]
        f = prog.fields(bt)[i['i']]['name'] if hasattr(prog, 'fields') else str(i['i'])
        b = defs.get(i['x']['n'])
        if i['x']['k'] == 'g' or (b is not None and b['op'] == 'fieldaddr'): return kind(prog, defs, i['x']) + '.' + f
        return bt + '.' + f
    return op['t'].lstrip('*')

def atcall(eng, st, con):
    acq = acqset(eng.p, con.fname)
    for m, p in held(st):
        k = nm(p)
        if k in acq and k not in [con.opts.get('holds')] + [c.opts.get('holds') for c in con.cases]: eng.record(st, False, 'lock:order', '%s may acquire %s, which is held here' % (con.name, k))
    for k in acq:
        c = 'locked ' + k
        n = st.ghost[c] = st.ghost.get(c, 0) + 1 if isinstance(st.ghost.get(c, 0), int) else st.ghost[c]
        if eng.curopts.get('one-section'): eng.record(st, isinstance(n, int) and n == 1, 'lock:once', '%s is acquired a second time (by %s) in one operation: the steps are not one critical section' % (k, con.name))

def needs(eng, st, con, case):
    """the caller holds the lock the contract asks for"""
    need = case.opts.get('holds', con.opts.get('holds'))
    if need: eng.record(st, any(nm(p) == need and m == 2 for m, p in held(st)), 'lock:guard', '%s is called without holding %s' % (con.name, need))

# ---- guarded state
def install(eng, con):
    """guards that apply to the function being verified: those of its package"""
    pk = con.fname.lstrip('(*').split('.')[0]
    eng.guards = [g for g in eng.specs.guards if g[0].lstrip('@').split('.')[0] == pk]
def pre(eng, st, con):
    h = eng.curopts.get('holds')
    if not h: return
    if h.startswith('@'): p = PtrV('sync.Mutex', 0, h, ())
    else:
        root, _, f = h.rpartition('.')
        r = fresh('holder', INT); st.fact(r >= 0)
        p = PtrV('sync.Mutex', r, root, (f,))
    st.ghost[key(addr(st, p))] = (2, p); st.ghost['pre ' + key(addr(st, p))] = (2, p)
def guardof(eng, root, path):
    if not eng.guards: return None
    k = root + ''.join('.' + (x if isinstance(x, str) else '[]') for x in path)
    for lock, comps in eng.guards:
        for c in comps:
            if c == k or (c.endswith('*') and k.startswith(c[:-1])) or k.startswith(c + '.') or (not path and c.startswith(root + '.')): return lock
    return None
def access(eng, st, root, path, ref, mode, why=''):
    if not eng.guards or eng.lockquiet: return
    lock = guardof(eng, root, path)
    if lock is None: return
    if isinstance(ref, int) and ref < 0 and ref > -(1 << 49): return        # not shared yet
    lroot = lock.rsplit('.', 1)[0]
    got = 0
    for m, p in held(st):
        if nm(p) != lock: continue
        if p.root == root and not isinstance(ref, str) and ref is not None:
            if not st.valid(st.w.eq(p.ref, ref, 'int')): continue
        got = max(got, m)
    if got < mode and isz(ref) and st.valid(simp(ref < 0), 500): return
    ok = got >= mode
    what = root + ''.join('.' + str(x) for x in path)
    eng.record(st, ok, 'lock:guard', '' if ok else '%s is %s %s' % (what, 'written' if mode == 2 else 'read', 'without holding ' + lock if not got else 'while %s is held for reading only' % lock))
def onwrite(eng, st, k, idxs):
    access(eng, st, k[0], k[1], idxs[0] if idxs else None, 2)
def onread(eng, st, p):
    if eng.guards: access(eng, st, p.root, p.path, p.ref, 1)
def onmodel(eng, st, name, args):
    """reads by library containers"""
    if name.startswith('(*container/list.'):
        if args and isinstance(args[0], PtrV): access(eng, st, 'container/list.' + ('Element' if 'Element)' in name else 'List'), (), args[0].ref, 1)
    elif name.startswith('(*math/rand.Rand)') and isinstance(args[0], PtrV): access(eng, st, 'math/rand.Rand', (), args[0].ref, 2)
    elif 'emirpasic/gods' in name and args and isinstance(args[0], PtrV):
        access(eng, st, 'gods.container', (), None if 'Iterator)' in name else args[0].ref, 1)
def onmap(eng, st, m): 
    if eng.guards: access(eng, st, 'map ' + m.tn, (), m.ref, 1)
