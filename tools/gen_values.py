#!/usr/bin/env python3
"""generates contracts/values.spec"""
T = [('NilValue', 0), ('BooleanValue', 10), ('DecimalValue', 20), ('Float32Value', 30), ('DoubleValue', 40), ('TextValue', 50),
     ('TextHashValue', 51), ('BlobValue', 60), ('Ip4Value', 61), ('ListValue', 70), ('MapValue', 80)]
PAY = {'NilValue': 'EMPTY', 'BooleanValue': 'bool8({v}.Value)', 'DecimalValue': 'decimal({v}.Value)', 'Float32Value': 'f32({v}.Value)', 'DoubleValue': 'f64({v}.Value)',
       'TextValue': 'text({v}.Value)', 'TextHashValue': 'i32({v}.Value)', 'BlobValue': 'blob({v}.Value)', 'Ip4Value': 'RAW({v}.Value[0:4])',
       'ListValue': 'listbody({v})', 'MapValue': 'mapbody({v}.Table)'}
o = ['# generated by tools/gen_values.py: value trees (C03)',
 'def listbody(l): return decimal(length(l.Value)) + CAT(0, length(l.Value), lambda i: val(l.Value[i]))',
 'def mapbody(t): return decimal(length(t)) + CAT(0, length(t), lambda i: text(enumkey(t, i)) + val(t[enumkey(t, i)]))']
e = 'EMPTY'
for t, c in reversed(T):
    if t == 'NilValue': continue
    e = 'cond(is_(v, "*netdata.%s"), %s,\n           %s)' % (t, PAY[t].format(v='as_(v, "*netdata.%s")' % t), e)
o.append('def payload(v):\n    return cond(v == nil, EMPTY,\n           %s)' % e)
e = '0'
for t, c in reversed(T):
    if t != 'NilValue': e = 'ite(is_(v, "*netdata.%s"), %d, %s)' % (t, c, e)
o.append('inline def vtype(v): return %s' % e)
o.append('def val(v): return i8(vtype(v)) + payload(v)')
o.append('''
func netdata.Value.GetValueType(s)
  for C03
  option iface
  requires s: nonnil(s)
  returns vtype(s)

func netdata.Value.Write(s, out)
  for C03
  option iface
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(s)
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.DataOutputX).WriteValue(out, value)
  for C03
  requires out: nonnil(out) and nonnil(out.writer)
  requires closed: closed(value, "netdata.Value")
  emits out : val(value)
  modifies out.written
  returns out, _
  ensures err: implies(reliable(out.writer), result1 == nil)

func (*netdata.DataInputX).ReadValue(in_)
  case roundtrip:
    for C03
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires closed: closed(v, "netdata.Value")
    input in_ : val(v)
    modifies in_.offset
    returns _, nil
    ensures equal: eqv(result0, v)
    ensures same: implies(is_(v, "*netdata.MapValue"), is_(result0, "*netdata.MapValue"))

func (*netdata.DataInputX).readMapValue(in_)
  option helper
  case roundtrip:
    for C03
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires closed: closed(v, "netdata.Value")
    requires map: is_(v, "*netdata.MapValue")
    input in_ : val(v)
    modifies in_.offset
    returns _, nil
    ensures equal: nonnil(result0) and eqv(box("*netdata.MapValue", result0), v)
''')
DEF = {'NilValue': 'true', 'Float32Value': 'f32bits(s.Value) == f32bits(V.Value)', 'DoubleValue': 'f64bits(s.Value) == f64bits(V.Value)',
       'TextValue': 's.Value == sent(V.Value)',
       'BlobValue': 'length(s.Value) == length(V.Value) and forall(0, length(V.Value), lambda i: s.Value[i] == V.Value[i])',
       'Ip4Value': 'length(s.Value) == 4 and ' + ' and '.join('s.Value[%d] == V.Value[%d]' % (i, i) for i in range(4)),
       'ListValue': 'length(s.Value) == length(V.Value) and forall(0, length(V.Value), lambda i: eqv(s.Value[i], V.Value[i]))',
       'MapValue': 'length(s.Table) == length(V.Table) and forall(0, length(V.Table), lambda i: has(s.Table, enumkey(V.Table, i)) and eqv(s.Table[enumkey(V.Table, i)], V.Table[enumkey(V.Table, i)]))'}
MOD = {'NilValue': None, 'MapValue': 'mapof(s.Table)'}
for t, c in T:
    V = 'as_(v, "*netdata.%s")' % t
    o.append('func (*netdata.%s).GetValueType(s)\n  for C03\n  requires s: nonnil(s)\n  returns %d\n' % (t, c))
    w = 'func (*netdata.%s).Write(s, out)\n  for C03\n  requires s: nonnil(s)\n  requires out: nonnil(out) and nonnil(out.writer)\n' % t
    if t == 'Ip4Value': w += '  assumes ip: length(s.Value) == 4\n'
    if t == 'BlobValue': w += '  assumes len: length(s.Value) < 2147483648\n'
    w += '  emits out : payload(box("*netdata.%s", s))\n%s  returns _\n  ensures err: implies(reliable(out.writer), result0 == nil)\n' % (t, '  modifies out.written\n' if t != 'NilValue' else '')
    o.append(w)
    r = 'func (*netdata.%s).Read(s, in_)\n  case roundtrip:\n    for C03\n    requires s: nonnil(s)\n    requires in: nonnil(in_) and nonnil(in_.reader)\n    ghost v: netdata.Value\n' % t
    r += '    requires kind: %s\n' % ('v == nil or is_(v, "*netdata.NilValue")' if t == 'NilValue' else 'is_(v, "*netdata.%s")' % t)
    r += '    requires closed: closed(v, "netdata.Value")\n'
    if t != 'NilValue': r += '    requires distinct: s != %s\n' % V
    if t == 'MapValue': r += '    requires distinct: s.Table != %s.Table\n' % V
    if t == 'ListValue': r += '    requires empty: length(s.Value) == 0\n    invariant size: length(s.Value) == k\n    invariant elems: forall(0, k, lambda i: eqv(s.Value[i], %s.Value[i]))\n' % V
    if t == 'MapValue':
        r += '    requires empty: nonnil(s.Table) and length(s.Table) == 0 and forkeys(s.Table, lambda q: false)\n'
        r += '    assumes keys: forkeys(%s.Table, lambda q: length(q) <= 100000)\n' % V
        r += '    invariant size: length(s.Table) == k\n'
        r += '    invariant elems: forall(0, k, lambda i: has(s.Table, enumkey({0}.Table, i)) and eqv(s.Table[enumkey({0}.Table, i)], {0}.Table[enumkey({0}.Table, i)]))\n'.format(V)
        r += '    invariant only: forkeys(s.Table, lambda q: has({0}.Table, q) and enumpos({0}.Table, q) < k)\n'.format(V)
    r += '    input in_ : payload(v)\n'
    if t != 'NilValue': r += '    modifies in_.offset, %s\n' % MOD.get(t, 's.Value')
    d = DEF.get(t, 's.Value == V.Value').replace('V.', V + '.')
    r += '    returns s, nil\n    defines eqv(box("*netdata.%s", s), v) := %s\n' % (t, d)
    o.append(r)
open('/verif/contracts/values.spec', 'w').write('\n'.join(o))
