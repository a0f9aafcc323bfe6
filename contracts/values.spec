# generated by tools/gen_values.py: value trees (C03)
def listbody(l): return decimal(length(l.Value)) + CAT(0, length(l.Value), lambda i: val(l.Value[i]))
def mapbody(t): return decimal(length(t)) + CAT(0, length(t), lambda i: text(enumkey(t, i)) + val(t[enumkey(t, i)]))
def payload(v):
    return cond(v == nil, EMPTY,
           cond(is_(v, "*netdata.BooleanValue"), bool8(as_(v, "*netdata.BooleanValue").Value),
           cond(is_(v, "*netdata.DecimalValue"), decimal(as_(v, "*netdata.DecimalValue").Value),
           cond(is_(v, "*netdata.Float32Value"), f32(as_(v, "*netdata.Float32Value").Value),
           cond(is_(v, "*netdata.DoubleValue"), f64(as_(v, "*netdata.DoubleValue").Value),
           cond(is_(v, "*netdata.TextValue"), text(as_(v, "*netdata.TextValue").Value),
           cond(is_(v, "*netdata.TextHashValue"), i32(as_(v, "*netdata.TextHashValue").Value),
           cond(is_(v, "*netdata.BlobValue"), blob(as_(v, "*netdata.BlobValue").Value),
           cond(is_(v, "*netdata.Ip4Value"), RAW(as_(v, "*netdata.Ip4Value").Value[0:4]),
           cond(is_(v, "*netdata.ListValue"), listbody(as_(v, "*netdata.ListValue")),
           cond(is_(v, "*netdata.MapValue"), mapbody(as_(v, "*netdata.MapValue").Table),
           EMPTY)))))))))))
inline def vtype(v): return ite(is_(v, "*netdata.BooleanValue"), 10, ite(is_(v, "*netdata.DecimalValue"), 20, ite(is_(v, "*netdata.Float32Value"), 30, ite(is_(v, "*netdata.DoubleValue"), 40, ite(is_(v, "*netdata.TextValue"), 50, ite(is_(v, "*netdata.TextHashValue"), 51, ite(is_(v, "*netdata.BlobValue"), 60, ite(is_(v, "*netdata.Ip4Value"), 61, ite(is_(v, "*netdata.ListValue"), 70, ite(is_(v, "*netdata.MapValue"), 80, 0))))))))))
def val(v): return i8(vtype(v)) + payload(v)

func netdata.Value.GetValueType(s)
  for C03
  option iface
  requires s: nonnil(s)
  returns vtype(s)

func netdata.Value.Write(s, out)
  for C03
  option iface
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(s)
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.DataOutputX).WriteValue(out, value)
  for C03
  requires out: nonnil(out) and nonnil(out.writer)
  requires closed: closed(value, "netdata.Value")
  emits out : val(value)
  modifies out.written
  returns out, _
  ensures err: implies(reliable(out.writer), result1 == nil)

func (*netdata.DataInputX).ReadValue(in_)
  case roundtrip:
    for C03
    requires in: nonnil(in_) and nonnil(in_.reader)
    assumes depth: 0 <= in_.depth and in_.depth < 10000
    ghost v: netdata.Value
    requires closed: closed(v, "netdata.Value")
    input in_ : val(v)
    modifies in_.offset
    returns _, nil
    ensures equal: eqv(result0, v)
    ensures same: implies(is_(v, "*netdata.MapValue"), is_(result0, "*netdata.MapValue"))
  case any:
    for C23
    option count-input
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000))
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.DataInputX).readMapValue(in_)
  option helper
  case roundtrip:
    for C03
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires closed: closed(v, "netdata.Value")
    requires map: is_(v, "*netdata.MapValue")
    input in_ : val(v)
    modifies in_.offset
    returns _, nil
    ensures equal: nonnil(result0) and eqv(box("*netdata.MapValue", result0), v)
  case any:
    for C23
    option count-input
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 1
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures value: nonnil(result0)
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.NilValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 0

func (*netdata.NilValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.NilValue", s))
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.NilValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: v == nil or is_(v, "*netdata.NilValue")
    requires closed: closed(v, "netdata.Value")
    input in_ : payload(v)
    returns s, nil
    defines eqv(box("*netdata.NilValue", s), v) := true
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.BooleanValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 10

func (*netdata.BooleanValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.BooleanValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.BooleanValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.BooleanValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.BooleanValue")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.BooleanValue", s), v) := s.Value == as_(v, "*netdata.BooleanValue").Value
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.DecimalValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 20

func (*netdata.DecimalValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.DecimalValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.DecimalValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.DecimalValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.DecimalValue")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.DecimalValue", s), v) := s.Value == as_(v, "*netdata.DecimalValue").Value
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.Float32Value).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 30

func (*netdata.Float32Value).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.Float32Value", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.Float32Value).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.Float32Value")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.Float32Value")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.Float32Value", s), v) := f32bits(s.Value) == f32bits(as_(v, "*netdata.Float32Value").Value)
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.DoubleValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 40

func (*netdata.DoubleValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.DoubleValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.DoubleValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.DoubleValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.DoubleValue")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.DoubleValue", s), v) := f64bits(s.Value) == f64bits(as_(v, "*netdata.DoubleValue").Value)
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.TextValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 50

func (*netdata.TextValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.TextValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.TextValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.TextValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.TextValue")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.TextValue", s), v) := s.Value == sent(as_(v, "*netdata.TextValue").Value)
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.TextHashValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 51

func (*netdata.TextHashValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.TextHashValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.TextHashValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.TextHashValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.TextHashValue")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.TextHashValue", s), v) := s.Value == as_(v, "*netdata.TextHashValue").Value
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.BlobValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 60

func (*netdata.BlobValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes len: length(s.Value) < 2147483648
  emits out : payload(box("*netdata.BlobValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.BlobValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.BlobValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.BlobValue")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.BlobValue", s), v) := length(s.Value) == length(as_(v, "*netdata.BlobValue").Value) and forall(0, length(as_(v, "*netdata.BlobValue").Value), lambda i: s.Value[i] == as_(v, "*netdata.BlobValue").Value[i])
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.Ip4Value).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 61

func (*netdata.Ip4Value).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes ip: length(s.Value) == 4
  emits out : payload(box("*netdata.Ip4Value", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.Ip4Value).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.Ip4Value")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.Ip4Value")
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.Ip4Value", s), v) := length(s.Value) == 4 and s.Value[0] == as_(v, "*netdata.Ip4Value").Value[0] and s.Value[1] == as_(v, "*netdata.Ip4Value").Value[1] and s.Value[2] == as_(v, "*netdata.Ip4Value").Value[2] and s.Value[3] == as_(v, "*netdata.Ip4Value").Value[3]
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.ListValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 70

func (*netdata.ListValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.ListValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.ListValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.ListValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.ListValue")
    requires empty: length(s.Value) == 0
    invariant size: length(s.Value) == k
    invariant elems: forall(0, k, lambda i: eqv(s.Value[i], as_(v, "*netdata.ListValue").Value[i]))
    input in_ : payload(v)
    modifies in_.offset, s.Value
    returns s, nil
    defines eqv(box("*netdata.ListValue", s), v) := length(s.Value) == length(as_(v, "*netdata.ListValue").Value) and forall(0, length(as_(v, "*netdata.ListValue").Value), lambda i: eqv(s.Value[i], as_(v, "*netdata.ListValue").Value[i]))
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    requires empty: length(s.Value) == 0
    loop progress: gh("!nread") >= old(gh("!nread")) + k
    invariant bounded: length(s.Value) <= gh("!nread") - old(gh("!nread"))
    ensures bounded: length(s.Value) <= gh("!nread") - old(gh("!nread"))
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), s.Value
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.MapValue).GetValueType(s)
  for C03
  requires s: nonnil(s)
  returns 80

func (*netdata.MapValue).Write(s, out)
  for C03
  requires s: nonnil(s)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : payload(box("*netdata.MapValue", s))
  modifies out.written
  returns _
  ensures err: implies(reliable(out.writer), result0 == nil)

func (*netdata.MapValue).Read(s, in_)
  case roundtrip:
    for C03
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Value
    requires kind: is_(v, "*netdata.MapValue")
    requires closed: closed(v, "netdata.Value")
    requires distinct: s != as_(v, "*netdata.MapValue")
    requires distinct: s.Table != as_(v, "*netdata.MapValue").Table
    requires empty: nonnil(s.Table) and length(s.Table) == 0 and forkeys(s.Table, lambda q: false)
    assumes keys: forkeys(as_(v, "*netdata.MapValue").Table, lambda q: length(q) <= 100000)
    invariant size: length(s.Table) == k
    invariant elems: forall(0, k, lambda i: has(s.Table, enumkey(as_(v, "*netdata.MapValue").Table, i)) and eqv(s.Table[enumkey(as_(v, "*netdata.MapValue").Table, i)], as_(v, "*netdata.MapValue").Table[enumkey(as_(v, "*netdata.MapValue").Table, i)]))
    invariant only: forkeys(s.Table, lambda q: has(as_(v, "*netdata.MapValue").Table, q) and enumpos(as_(v, "*netdata.MapValue").Table, q) < k)
    input in_ : payload(v)
    modifies in_.offset, mapof(s.Table)
    returns s, nil
    defines eqv(box("*netdata.MapValue", s), v) := length(s.Table) == length(as_(v, "*netdata.MapValue").Table) and forall(0, length(as_(v, "*netdata.MapValue").Table), lambda i: has(s.Table, enumkey(as_(v, "*netdata.MapValue").Table, i)) and eqv(s.Table[enumkey(as_(v, "*netdata.MapValue").Table, i)], as_(v, "*netdata.MapValue").Table[enumkey(as_(v, "*netdata.MapValue").Table, i)]))
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    requires table: nonnil(s.Table)
    loop progress: gh("!nread") >= old(gh("!nread")) + 2 * k
    measure 3 * (10001 - ite(in_.depth < 10000, in_.depth, 10000)) + 2
    modifies in_.offset, input(in_), ghost("!nread"), mapof(s.Table)
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

