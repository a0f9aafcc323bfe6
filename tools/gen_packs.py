# generates contracts/packs.spec: pack layouts (C04) and their decoding
P = {
 'MapPack': (10, None),
 'XlogPack': (21, None),
 'XlogProfilePack': (26, 'decimal:Time decimal:ObjHash decimal:Service i64:Txid blob:Profile'),
 'TextPack': (50, 'text:Xtype i32:Hash text:Text'),
 'PerfCounterPack': (60, 'i64:Time text:ObjName i8:Timetype map:Data'),
 'PerfCounterK8SPack': (65, 'i64:Time text:SiteID text:Cluster text:NameSpace text:NodeName text:DaemonSetName text:DeploymentName text:PodName text:ContainerName text:ObjName i8:Timetype i8:MetricLevel map:Data'),
 'AlertPack': (70, 'i64:Time u8:Level text:ObjType i32:ObjHash text:Title text:Message map:Tags'),
 'ObjectPack2': (80, 'text:SiteID text:ObjType decimal:ObjHash text:ObjName text:Address text:Version bool8:Alive decimal:Wakeup i8:Family map:Tags'),
 'ObjectPack': (80, 'text:ObjType decimal:ObjHash text:ObjName text:Address text:Version bool8:Alive decimal:Wakeup map:Tags'),
}
XLOG = ('decimal:EndTime decimal:ObjHash decimal:Service i64:Txid i64:Caller i64:Gxid decimal:Elapsed decimal:Error decimal:Cpu decimal:SqlCount decimal:SqlTime blob:Ipaddr '
 'decimal:Kbytes decimal:Status decimal:Userid decimal:UserAgent decimal:Referer decimal:Group decimal:ApicallCount decimal:ApicallTime text:CountryCode decimal:City u8:XType '
 'decimal:Login decimal:Desc decimal:WebHash decimal:WebTime u8:HasDump decimal:ThreadNameHash text:Text1 text:Text2 decimal:QueuingHostHash decimal:QueuingTime '
 'decimal:Queuing2ndHostHash decimal:Queuing2ndTime text:Text3 text:Text4 text:Text5 decimal:ProfileCount bool8:B3Mode decimal:ProfileSize u8:DiscardType bool8:IgnoreGlobalConsequentSampling')
def enc(fs):
    r = []
    for f in fs.split():
        k, n = f.split(':')
        r.append('val(box("*netdata.MapValue", p.%s))' % n if k == 'map' else '%s(p.%s)' % (k, n))
    return ' + '.join(r)
o = ['# generated by tools/gen_packs.py: pack layouts (C04)']
for t, (c, fs) in P.items():
    if t == 'MapPack': o.append('def body_MapPack(p): return mapbody(p.Table)')
    elif t == 'XlogPack': o.append('def xlogfields(p): return %s\ndef body_XlogPack(p): return blob(bytesof(xlogfields(p)))' % enc(XLOG))
    else: o.append('def body_%s(p): return %s' % (t, enc(fs)))
s = 'EMPTY'
for t in reversed(list(P)): s = 'cond(is_(p, "*netdata.%s"), body_%s(as_(p, "*netdata.%s")), %s)' % (t, t, t, s)
o.append('def packbody(p): return ' + s)
s = '0'
for t, (c, fs) in reversed(list(P.items())): s = 'ite(is_(p, "*netdata.%s"), %d, %s)' % (t, c, s)
o.append('inline def packtype(p): return ' + s)
o.append('def packbytes(p): return u8(packtype(p)) + packbody(p)\n')
o.append('''func netdata.Pack.GetPackType(p)
  for C04
  option iface
  requires p: nonnil(p)
  returns packtype(p)

func netdata.Pack.Write(p, out)
  for C04
  option iface
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : packbody(p)
  modifies out.written
  returns _

func (*netdata.DataOutputX).WritePack(out, pack)
  for C04
  requires out: nonnil(out) and nonnil(out.writer)
  requires pack: nonnil(pack)
  emits out : packbytes(pack)
  modifies out.written
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func netdata.CreatePack(packType)
  for C04
  option inline
  ensures map: implies(packType == 10, is_(result, "*netdata.MapPack") and nonnil(as_(result, "*netdata.MapPack")) and nonnil(as_(result, "*netdata.MapPack").Table) and length(as_(result, "*netdata.MapPack").Table) == 0 and forkeys(as_(result, "*netdata.MapPack").Table, lambda q: false))
  ensures text: implies(packType == 50, is_(result, "*netdata.TextPack"))
  ensures perf: implies(packType == 60, is_(result, "*netdata.PerfCounterPack") and nonnil(as_(result, "*netdata.PerfCounterPack")))
  ensures object: implies(packType == 80, is_(result, "*netdata.ObjectPack2") and nonnil(as_(result, "*netdata.ObjectPack2")))
  ensures alert: implies(packType == 70, is_(result, "*netdata.AlertPack"))
  ensures other: implies(packType != 10 and packType != 50 and packType != 60 and packType != 70 and packType != 80, result == nil)

func (*netdata.DataInputX).ReadPack(in_)
  case roundtrip:
    for C04
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Pack
    requires kind: is_(v, "*netdata.MapPack") or is_(v, "*netdata.PerfCounterPack") or is_(v, "*netdata.ObjectPack2")
    requires v: nonnil(v)
    requires vmap: implies(is_(v, "*netdata.MapPack"), nonnil(as_(v, "*netdata.MapPack")))
    requires vmap: implies(is_(v, "*netdata.PerfCounterPack"), nonnil(as_(v, "*netdata.PerfCounterPack")) and nonnil(as_(v, "*netdata.PerfCounterPack").Data)) and implies(is_(v, "*netdata.ObjectPack2"), nonnil(as_(v, "*netdata.ObjectPack2")) and nonnil(as_(v, "*netdata.ObjectPack2").Tags))
    input in_ : packbytes(v)
    modifies in_.offset
    returns _, nil
    ensures equal: eqv(result0, v)
''')
READS = ['MapPack', 'PerfCounterPack', 'PerfCounterK8SPack', 'ObjectPack2', 'ObjectPack']
for t, (c, fs) in P.items():
    o.append('func (*netdata.%s).GetPackType(p)\n  for C04\n  requires p: nonnil(p)\n  returns %d\n' % (t, c))
    w = 'func (*netdata.%s).Write(p, out)\n  for C04\n  requires p: nonnil(p)\n  requires out: nonnil(out) and nonnil(out.writer)\n' % t
    for f in (fs or '').split():
        if f.startswith('map:'): w += '  assumes map: nonnil(p.%s)\n' % f[4:]
        if f.startswith('blob:'): w += '  assumes len: length(p.%s) < 2147483648\n' % f[5:]
    if t == 'XlogPack': w += '  assumes ip: length(p.Ipaddr) < 1073741824\n'
    w += '  emits out : packbody(box("*netdata.%s", p))\n  modifies out.written\n  returns _\n' % t
    o.append(w)
    if t not in READS: continue
    V = 'as_(v, "*netdata.%s")' % t
    r = 'func (*netdata.%s).Read(s, in_)\n  case roundtrip:\n    for C04\n    requires s: nonnil(s)\n    requires in: nonnil(in_) and nonnil(in_.reader)\n    ghost v: netdata.Pack\n' % t
    r += '    requires kind: is_(v, "*netdata.%s") and nonnil(%s)\n' % (t, V)
    r += '    requires distinct: s != %s\n' % V
    if t == 'MapPack':
        r += '    requires distinct: s.Table != %s.Table\n' % V
        r += '    requires empty: nonnil(s.Table) and length(s.Table) == 0 and forkeys(s.Table, lambda q: false)\n'
        r += '    assumes keys: forkeys(%s.Table, lambda q: length(q) <= 100000)\n' % V
        r += '    invariant size: length(s.Table) == k\n'
        r += '    invariant elems: forall(0, k, lambda i: has(s.Table, enumkey({0}.Table, i)) and eqv(s.Table[enumkey({0}.Table, i)], {0}.Table[enumkey({0}.Table, i)]))\n'.format(V)
        r += '    invariant only: forkeys(s.Table, lambda q: has({0}.Table, q) and enumpos({0}.Table, q) < k)\n'.format(V)
        d = 'length(s.Table) == length(V.Table) and forall(0, length(V.Table), lambda i: has(s.Table, enumkey(V.Table, i)) and eqv(s.Table[enumkey(V.Table, i)], V.Table[enumkey(V.Table, i)]))'
        mod = 'mapof(s.Table)'
    else:
        cs = []
        for f in fs.split():
            k, n = f.split(':')
            if k == 'map':
                r += '    requires vmap: nonnil(%s.%s)\n' % (V, n)
                cs.append('nonnil(s.%s) and eqv(box("*netdata.MapValue", s.%s), box("*netdata.MapValue", V.%s))' % (n, n, n))
            elif k == 'text': cs.append('s.%s == sent(V.%s)' % (n, n))
            else: cs.append('s.%s == V.%s' % (n, n))
        d = ' and '.join(cs); mod = ', '.join('s.' + f.split(':')[1] for f in fs.split())
    r += '    input in_ : packbody(v)\n    modifies in_.offset, %s\n    returns s, nil\n    defines eqv(box("*netdata.%s", s), v) := %s\n' % (mod, t, d.replace('V.', V + '.'))
    o.append(r)
open('/verif/contracts/packs.spec', 'w').write('\n'.join(o))
