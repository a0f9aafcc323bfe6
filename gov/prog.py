"""Program representation: the SSA dump of the current /repo tree."""
import json, re, functools

INTS = {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
        'uint': (64, False), 'uint8': (8, False), 'uint16': (16, False), 'uint32': (32, False), 'uint64': (64, False),
        'uintptr': (64, False), 'untyped int': (64, True), 'untyped rune': (32, True)}

class Unsupported(Exception):
    """construct outside the verifier's subset: the obligation fails, never passes"""

class Fn:
    def __init__(s, d):
        s.d = d; s.name = d['name']; s.params = d['params']; s.freevars = d['freevars']
        s.results = d['results']; s.rnames = d.get('rnames') or []; s.blocks = d['blocks']; s.recover = d.get('recover')
        s.file = d['file']; s.line = d['line']; s.pkg = d.get('pkg'); s._loops = None
        s.syn = d.get('syn')
    def loops(s):
        """natural loops: header -> set of blocks; latches"""
        if s._loops is not None: return s._loops
        n = len(s.blocks)
        succ = [b['succs'] for b in s.blocks]; pred = [b['preds'] for b in s.blocks]
        reach = set(); st = [0]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st += succ[b]
        dom = {b: set(reach) for b in reach}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in sorted(reach):
                if b == 0: continue
                ps = [dom[p] for p in pred[b] if p in reach]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in reach:
            for h in succ[b]:
                if h in dom[b]:
                    body = loops.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [p for p in pred[x] if p in reach]
        s._loops = loops
        return loops

class Program:
    def __init__(s, path):
        D = json.load(open(path))
        s.fns = {f['name']: Fn(f) for f in D['functions']}
        s.types = D['types']; s.globals = D['globals']; s.methods = D['methods']
        s.tagids = {}; s._cg = None
    def constglobals(s):
        if s._cg is None: s._cg = constglobals(s)
        return s._cg
    def t(s, name):
        j = s.types.get(name)
        if j is None: raise Unsupported('unknown type ' + name)
        return j
    def under(s, name):
        while True:
            j = s.t(name)
            if j['k'] == 'named': name = j['u']
            elif j['k'] == 'alias': name = j['e']
            else: return name, j
    def unalias(s, name):
        if name == 'byte': return 'uint8'
        if name == '[]uint8' and name not in s.types: return '[]byte'
        while s.t(name)['k'] == 'alias': name = s.t(name)['e']
        return name
    def kind(s, name): return s.under(name)[1]['k']
    def basic(s, name):
        j = s.under(name)[1]
        return j['name'] if j['k'] == 'basic' else None
    def isint(s, name): return s.basic(name) in INTS
    def intinfo(s, name): return INTS[s.basic(name)]
    def elem(s, name):
        e = s.under(name)[1]['e']
        if s.t(e)['k'] == 'alias': e = s.unalias(e)
        return 'uint8' if e == 'byte' else 'int32' if e == 'rune' else e
    def fields(s, name): return s.under(name)[1]['fields']
    def tagid(s, t):
        t = s.unalias(t)
        if t not in s.tagids: s.tagids[t] = len(s.tagids) + 1
        return s.tagids[t]
    def implements(s, t, iface):
        ms = s.under(iface)[1]['methods']
        mm = s.methods.get(t)
        if mm is None: return len(ms) == 0
        return all(m in mm for m in ms)

def constglobals(prog):
    """package variables written exactly once, by the package initialiser, with a constant: name -> ('val', v) | ('row', et, [ints])"""
    stores = {}; inits = {}
    for f in prog.fns.values():
        for b in f.blocks:
            for i in b['ins']:
                for o in ops(i):
                    if o.get('k') == 'g':
                        n = o['n']
                        if i['op'] == 'store' and i['a'] is o:
                            stores.setdefault(n, []).append((f, i))
                        elif not (i['op'] == 'unop' and i['o'] == '*'): stores.setdefault(n, []).append((f, None))
    out = {}
    for n, l in stores.items():
        if len(l) != 1 or l[0][1] is None: continue
        f, i = l[0]
        if not f.name.endswith('.init') or f.name.startswith('('): continue
        v = constval(prog, f, i['x'])
        if v is not None: out[n] = v
    # a table whose elements are written through the variable is no constant
    for f in prog.fns.values():
        d = {i.get('r'): i for b in f.blocks for i in b['ins'] if i.get('r')}
        def root(o):
            while o and o.get('k') == 'r' and o['n'] in d:
                i = d[o['n']]
                if i['op'] == 'unop' and i['o'] == '*' and i['x']['k'] == 'g': return i['x']['n']
                if i['op'] not in ('indexaddr', 'slice', 'changetype'): return None
                o = i['x']
            return None
        for b in f.blocks:
            for i in b['ins']:
                if i['op'] == 'store':
                    n = root(i['a'])
                    if n in out and out[n][0] == 'row': del out[n]
                c = i.get('call')
                if i['op'] == 'call' and c and c.get('fn', {}).get('k') == 'b' and c['fn']['n'] in ('copy', 'append', 'clear') and c['args']:
                    n = root(c['args'][0])
                    if n in out: del out[n]
    return out
def ops(i):
    def walk(x):
        if isinstance(x, dict):
            if 'k' in x: yield x
            else:
                for y in x.values(): yield from walk(y)
        elif isinstance(x, list):
            for y in x: yield from walk(y)
    for k, x in i.items():
        if k not in ('op', 'r', 't', 'line', 'o'): yield from walk(x)
def constval(prog, f, o):
    if o['k'] == 'c':
        if o.get('i') and not isinstance(o['v'], bool): return ('val', int(o['v']))
        if o.get('s') and prog.basic(o['t']) == 'string': return ('val', bytes(o['v']))
        return None
    if o['k'] != 'r': return None
    d = {i.get('r'): i for b in f.blocks for i in b['ins'] if i.get('r')}
    i = d.get(o['n'])
    if i is None: return None
    if i['op'] == 'convert' and i['x']['k'] == 'c' and i['x'].get('s') and prog.kind(i['t']) == 'slice': return ('row', prog.elem(i['t']), list(bytes(i['x']['v'])))
    if i['op'] == 'slice' and i['x']['k'] == 'r' and not any(i.get(z) for z in ('lo', 'hi', 'max', 'l', 'h', 'm')):
        a = d.get(i['x']['n'])
        if a is None or a['op'] != 'alloc': return None
        at = prog.elem(a['t']); m = __import__('re').match(r'\[(\d+)\]', at)
        if not m: return None
        row = [0] * int(m.group(1))
        for b in f.blocks:
            for j in b['ins']:
                if j['op'] == 'indexaddr' and j['x']['k'] == 'r' and j['x']['n'] == a['r']:
                    if j['y']['k'] != 'c': return None
                    st = [q for bb in f.blocks for q in bb['ins'] if q['op'] == 'store' and q['a'].get('n') == j['r']]
                    if len(st) != 1 or st[0]['x']['k'] != 'c' or not st[0]['x'].get('i'): return None
                    row[int(j['y']['v'])] = int(st[0]['x']['v'])
        return ('row', prog.elem(i['t']), row)
    return None
