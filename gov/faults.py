"""`option faults any`: every internal call of the verified function may fail. A call to a function of the program returns an
arbitrary result or panics, and may have changed any memory, unless the function has a barrier contract (NAME@barrier: it
never panics, whatever fails inside it; proved for itself). Functions that handle panics (they defer something, or are handed a function
value) are entered instead, and inside a deferred function that recovers the ordinary contracts apply.
`option spawn`: a goroutine's function is explored where it is started; a panic that leaves it ends the process."""
from core import *
from prog import ops, Unsupported
import loops, lib
from vc import havoc

def recovers(fn):
    return any(i['op'] == 'call' and i['call'].get('fn', {}).get('n') == 'recover' and i['call']['fn'].get('k') == 'b' for b in fn.blocks for i in b['ins'])
def defers(fn): return any(i['op'] == 'defer' for b in fn.blocks for i in b['ins'])
KEEP = ('@common.fSendPanic', '$chan')
def fault(eng, st, reg, types, what, may=True, known=None, args=()):
    """the call returned something, or panicked"""
    havoc(eng, st, ('others', KEEP)); st.cnt += 1000
    if may:
        st2 = st.fork(); eng.startpanic(st2, what); eng.extra.append(st2)
    rv = [loops.freshval(eng, st, t, 'r', st.cnt) for t in types]
    if known is not None:        # NAME@mayfail: what holds if it returns
        import vc, spec as SP
        old = st.fork(); env = vc.case_env(eng, known, list(args), {}); vc.bindres(env, rv)
        was = getattr(SP.CTX, 'assuming', False); SP.CTX.assuming = True
        try:
            for lab, c, src in known.cases[0].ensures: st.fact(vc.ev(eng, st, c, env, old))
        finally: SP.CTX.assuming = was
    if reg is not None and st.frames: st.frames[-1].regs[reg] = rv[0] if len(rv) == 1 else TupV(rv)
    return [st]

def call(eng, st, c, reg, isdef):
    kind, fv, iface, meth, args, sig, ats = c
    if any(f.isdef and recovers(f.fn) for f in st.frames): return NotImplemented      # handling a panic: ordinary contracts
    if kind == 'invoke':
        if fv.isnil: return NotImplemented
        if fv.tn is not None:
            m = eng.p.methods.get(eng.p.unalias(fv.tn), {}).get(meth)
            if m is None: return NotImplemented
            return callfn(eng, st, m, [fv.v] + args, (), reg, isdef)
        if not eng.panic_unless(st, fv.term != nilI, f'nil interface {meth}'): return [st]
        return fault(eng, st, reg, results(eng, iface, meth), f'{iface}.{meth}')
    if fv.name is None or fv.name.startswith('builtin '): return NotImplemented
    return callfn(eng, st, fv.name, args, fv.bind, reg, isdef)
def results(eng, iface, meth):
    t = eng.callt
    if t in (None, '', '()'): return []
    if t.startswith('('): return eng.p.types[t]['ts'] if t in eng.p.types and 'ts' in eng.p.types[t] else [x.strip() for x in t[1:-1].split(',')]
    return [t]
def callfn(eng, st, name, args, bind, reg, isdef):
    fn = eng.p.fns.get(name)
    if fn is None or not fn.blocks: return NotImplemented
    if name + '@barrier' in eng.contracts:
        eng.used_contracts.add(name + '@barrier')
        return fault(eng, st, reg, fn.results, name, may=False)
    fvs = any(isinstance(a, FuncV) for a in args)
    if isdef and recovers(fn) or bind or fvs or defers(fn):
        if len(st.frames) > 40 or sum(1 for f in st.frames if f.fn is fn) > 2: raise Unsupported('recursion in ' + name)
        eng.inlined.add(name)
        eng.push(st, fn, list(args), bind, reg, isdef)
        return [st]
    known = eng.specs.contracts.get(name + '@mayfail')
    if known is not None: eng.used_contracts.add(name + '@mayfail')
    return fault(eng, st, reg, fn.results, name, known=known, args=args)

def spawn(eng, st, c):
    import models2
    kind, fv, iface, meth, args, sig, ats = c
    models2.event(eng, st, 'spawn')
    n = len(st.frames)
    r = eng.docall(st, c, None)
    if len(st.frames) > n:
        st.frames[-1].tag = 'go'
        return r
    return r

# ---- the effect "does not block": no channel operation that can wait and no waiting library call, in the function or anything it calls
WAITS = ('time.Sleep', '(*sync.WaitGroup).Wait', '(*sync.Cond).Wait', 'runtime.Goexit', 'os.Exit', 'net.Dial', 'net.DialTCP', 'net.DialTimeout', 'net.DialIP', 'net.DialUnix', '(*os/exec.', 'net/http.Get', '(*net/http.Client)', '(net.Conn).Read', 'net.Conn.Read',
         '(*net.conn).Read', '(*net.TCPConn).Read', 'log.Fatal', 'log.Panic', '(*log.Logger).Fatal', '(*log.Logger).Panic', '(*os.Process)', '(*bufio.Reader)', 'io.Copy', 'io.ReadAll', 'io.ReadFull', 'io/ioutil.ReadAll', 'bufio.NewScanner', '(*bufio.Scanner)', 'os/signal', 'syscall.')
def waiting(n): return n in WAITS or n.startswith(tuple(w for w in WAITS if w.endswith((')', '.')) or w in ('log.Fatal', 'log.Panic', '(*log.Logger).Fatal', '(*log.Logger).Panic')))
def waits(prog, name, cache={}):
    """[(function, what)] that may wait, over everything `name` can call in the calling goroutine"""
    seen = set(); bad = []; work = [name]; unknown = []
    while work:
        n = work.pop()
        if n in seen: continue
        seen.add(n)
        f = prog.fns.get(n)
        if f is None or not f.blocks: continue
        for b in f.blocks:
            for i in b['ins']:
                op = i['op']
                if op == 'send': bad.append((n, 'channel send'))
                elif op == 'unop' and i['o'] == '<-': bad.append((n, 'channel receive'))
                elif op == 'select' and i.get('block', True): bad.append((n, 'select without default'))
                elif op in ('call', 'defer'):
                    c = i['call']
                    if 'invoke' in c:
                        full = c['iface'] + '.' + c['invoke']
                        if waiting(full): bad.append((n, full))
                        if c['iface'] in ('io.Writer', 'io.Reader'): continue        # in-memory buffers on these paths
                        for m in prog.methods:
                            if prog.types.get(c['iface']) and not external(prog, m) and prog.implements(m, c['iface']): work.append(prog.methods[m][c['invoke']])
                    else:
                        k = c['fn']
                        if k['k'] == 'f':
                            if waiting(k['n']): bad.append((n, k['n']))
                            else: work.append(k['n'])
                if op != 'go':          # a function value may be called, unless it is only started as a goroutine
                    for o in ops(i):
                        if o.get('k') == 'f' and not (op == 'makeclosure' and onlygo(f, i['r'])): work.append(o['n'])
    return bad, seen
def onlygo(f, r):
    return all(j['op'] == 'go' and j['call'].get('fn', {}).get('n') == r or not any(o.get('k') == 'r' and o.get('n') == r for o in ops(j)) for b in f.blocks for j in b['ins'] if j.get('r') != r)
def external(prog, t):
    ms = prog.methods.get(t) or {}
    return not any(prog.fns.get(f) is not None and prog.fns[f].blocks for f in ms.values())
