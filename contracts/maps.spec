# Native values put into maps and lists (C03)
inline def isdec(v, x): return is_(v, "*netdata.DecimalValue") and as_(v, "*netdata.DecimalValue").Value == x
inline def istext(v, x): return is_(v, "*netdata.TextValue") and as_(v, "*netdata.TextValue").Value == x
inline def isbool(v, x): return is_(v, "*netdata.BooleanValue") and as_(v, "*netdata.BooleanValue").Value == x
inline def isf32(v, x): return is_(v, "*netdata.Float32Value") and as_(v, "*netdata.Float32Value").Value == x

func netdata.NewMapValue()
  for C03
  option inline
  ensures new: nonnil(result0) and nonnil(result0.Table) and length(result0.Table) == 0 and forkeys(result0.Table, lambda q: false)

func (*netdata.MapValue).Put(s, key, any)
  for C03
  requires s: nonnil(s) and nonnil(s.Table)
  modifies entry(s.Table, key)
  ensures string: implies(is_(any, "string"), has(s.Table, key) and istext(s.Table[key], as_(any, "string")))
  ensures int32: implies(is_(any, "int32"), has(s.Table, key) and isdec(s.Table[key], as_(any, "int32")))
  ensures int64: implies(is_(any, "int64"), has(s.Table, key) and isdec(s.Table[key], as_(any, "int64")))
  ensures bool: implies(is_(any, "bool"), has(s.Table, key) and isbool(s.Table[key], as_(any, "bool")))
  ensures float32: implies(is_(any, "float32"), has(s.Table, key) and isf32(s.Table[key], as_(any, "float32")))
  ensures uint32: implies(is_(any, "uint32"), has(s.Table, key) and isdec(s.Table[key], as_(any, "uint32")))
  ensures int: implies(is_(any, "int"), has(s.Table, key) and isdec(s.Table[key], as_(any, "int")))
  ensures uint: implies(is_(any, "uint"), has(s.Table, key) and isdec(s.Table[key], wrap("int64", as_(any, "uint"))))
  ensures uint64: implies(is_(any, "uint64"), has(s.Table, key) and isdec(s.Table[key], wrap("int64", as_(any, "uint64"))))
  ensures value: implies(implements(any, "netdata.Value"), has(s.Table, key) and s.Table[key] == any)

func (*netdata.MapValue).IsEmpty(s)
  for C03
  requires s: nonnil(s)
  returns length(s.Table) == 0

func (*netdata.MapValue).ContainesKey(s, key)
  for C03
  requires s: nonnil(s)
  returns has(s.Table, key)

func (*netdata.MapValue).GetString(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.TextValue") and nonnil(as_(s.Table[key], "*netdata.TextValue")), result0 == as_(s.Table[key], "*netdata.TextValue").Value)
  ensures missing: implies(not has(s.Table, key), result0 == "")

func (*netdata.MapValue).GetBoolean(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.BooleanValue"), result0 == as_(s.Table[key], "*netdata.BooleanValue").Value)
  ensures missing: implies(not has(s.Table, key), not result0)

func (*netdata.MapValue).GetInt8(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == wrap("int8", as_(s.Table[key], "*netdata.DecimalValue").Value))
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func (*netdata.MapValue).GetInt16(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == wrap("int16", as_(s.Table[key], "*netdata.DecimalValue").Value))
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func (*netdata.MapValue).GetInt32(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == wrap("int32", as_(s.Table[key], "*netdata.DecimalValue").Value))
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func (*netdata.MapValue).GetInt64(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == as_(s.Table[key], "*netdata.DecimalValue").Value)
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func netdata.NewListValue()
  for C03
  option inline
  ensures new: nonnil(result0) and length(result0.Value) == 0

func netdata.NewListValueWithValue(v)
  for C03
  option inline
  ensures new: nonnil(result0) and result0.Value == v

func (*netdata.ListValue).Size(s)
  for C03
  requires s: nonnil(s)
  returns length(s.Value)

func (*netdata.ListValue).Add(s, value)
  for C03
  requires s: nonnil(s)
  let n = length(s.Value)
  modifies s.Value
  returns s
  ensures added: length(s.Value) == n + 1 and s.Value[n] == value
  ensures kept: forall(0, n, lambda i: s.Value[i] == old(s.Value)[i])

func (*netdata.ListValue).AddInt64(s, value)
  for C03
  requires s: nonnil(s)
  let n = length(s.Value)
  modifies s.Value
  returns s
  ensures added: length(s.Value) == n + 1 and isdec(s.Value[n], value)
  ensures kept: forall(0, n, lambda i: s.Value[i] == old(s.Value)[i])

func (*netdata.ListValue).AddInt32(s, value)
  for C03
  requires s: nonnil(s)
  let n = length(s.Value)
  modifies s.Value
  returns s
  ensures added: length(s.Value) == n + 1 and isdec(s.Value[n], value)
  ensures kept: forall(0, n, lambda i: s.Value[i] == old(s.Value)[i])

func (*netdata.ListValue).AddFloat(s, value)
  for C03
  requires s: nonnil(s)
  let n = length(s.Value)
  modifies s.Value
  returns s
  ensures added: length(s.Value) == n + 1 and isf32(s.Value[n], value)
  ensures kept: forall(0, n, lambda i: s.Value[i] == old(s.Value)[i])

func (*netdata.ListValue).AddString(s, value)
  for C03
  requires s: nonnil(s)
  let n = length(s.Value)
  modifies s.Value
  returns s
  ensures added: length(s.Value) == n + 1 and istext(s.Value[n], value)
  ensures kept: forall(0, n, lambda i: s.Value[i] == old(s.Value)[i])

func (*netdata.ListValue).AddBoolean(s, value)
  for C03
  requires s: nonnil(s)
  let n = length(s.Value)
  modifies s.Value
  returns s
  ensures added: length(s.Value) == n + 1 and isbool(s.Value[n], value)
  ensures kept: forall(0, n, lambda i: s.Value[i] == old(s.Value)[i])

func (*netdata.ListValue).GetString(s, i)
  for C03
  requires s: nonnil(s) and 0 <= i and i < length(s.Value)
  requires typed: not is_(s.Value[i], "*netdata.TextValue") or nonnil(as_(s.Value[i], "*netdata.TextValue"))
  ensures same: implies(is_(s.Value[i], "*netdata.TextValue"), result0 == as_(s.Value[i], "*netdata.TextValue").Value)

func (*netdata.ListValue).GetFloat(s, i)
  for C03
  requires s: nonnil(s) and 0 <= i and i < length(s.Value)
  requires typed: not is_(s.Value[i], "*netdata.Float32Value") or nonnil(as_(s.Value[i], "*netdata.Float32Value"))
  ensures same: implies(is_(s.Value[i], "*netdata.Float32Value"), result0 == as_(s.Value[i], "*netdata.Float32Value").Value)

func (*netdata.ListValue).GetInt32(s, i)
  for C03
  requires s: nonnil(s) and 0 <= i and i < length(s.Value)
  requires typed: not is_(s.Value[i], "*netdata.DecimalValue") or nonnil(as_(s.Value[i], "*netdata.DecimalValue"))
  ensures same: implies(is_(s.Value[i], "*netdata.DecimalValue"), result0 == wrap("int32", as_(s.Value[i], "*netdata.DecimalValue").Value))

func (*netdata.ListValue).GetInt64(s, i)
  for C03
  requires s: nonnil(s) and 0 <= i and i < length(s.Value)
  requires typed: not is_(s.Value[i], "*netdata.DecimalValue") or nonnil(as_(s.Value[i], "*netdata.DecimalValue"))
  ensures same: implies(is_(s.Value[i], "*netdata.DecimalValue"), result0 == as_(s.Value[i], "*netdata.DecimalValue").Value)

func (*netdata.ListValue).GetBoolean(s, i)
  for C03
  requires s: nonnil(s) and 0 <= i and i < length(s.Value)
  requires typed: not is_(s.Value[i], "*netdata.BooleanValue") or nonnil(as_(s.Value[i], "*netdata.BooleanValue"))
  ensures same: implies(is_(s.Value[i], "*netdata.BooleanValue"), result0 == as_(s.Value[i], "*netdata.BooleanValue").Value)

func (*netdata.MapPack).Put(s, key, any)
  for C03
  requires s: nonnil(s) and nonnil(s.Table)
  modifies entry(s.Table, key)
  ensures string: implies(is_(any, "string"), has(s.Table, key) and istext(s.Table[key], as_(any, "string")))
  ensures int32: implies(is_(any, "int32"), has(s.Table, key) and isdec(s.Table[key], as_(any, "int32")))
  ensures int64: implies(is_(any, "int64"), has(s.Table, key) and isdec(s.Table[key], as_(any, "int64")))
  ensures bool: implies(is_(any, "bool"), has(s.Table, key) and isbool(s.Table[key], as_(any, "bool")))
  ensures float32: implies(is_(any, "float32"), has(s.Table, key) and isf32(s.Table[key], as_(any, "float32")))
  ensures uint32: implies(is_(any, "uint32"), has(s.Table, key) and isdec(s.Table[key], as_(any, "uint32")))
  ensures int: implies(is_(any, "int"), has(s.Table, key) and isdec(s.Table[key], as_(any, "int")))
  ensures uint: implies(is_(any, "uint"), has(s.Table, key) and isdec(s.Table[key], wrap("int64", as_(any, "uint"))))
  ensures uint64: implies(is_(any, "uint64"), has(s.Table, key) and isdec(s.Table[key], wrap("int64", as_(any, "uint64"))))
  ensures value: implies(implements(any, "netdata.Value"), has(s.Table, key) and s.Table[key] == any)

func (*netdata.MapPack).IsEmpty(s)
  for C03
  requires s: nonnil(s)
  returns length(s.Table) == 0

func (*netdata.MapPack).ContainsKey(s, key)
  for C03
  requires s: nonnil(s)
  returns has(s.Table, key)

func (*netdata.MapPack).GetString(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.TextValue") and nonnil(as_(s.Table[key], "*netdata.TextValue")), result0 == as_(s.Table[key], "*netdata.TextValue").Value)
  ensures missing: implies(not has(s.Table, key), result0 == "")

func (*netdata.MapPack).GetBoolean(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.BooleanValue"), result0 == as_(s.Table[key], "*netdata.BooleanValue").Value)
  ensures missing: implies(not has(s.Table, key), not result0)

func (*netdata.MapPack).GetInt8(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == wrap("int8", as_(s.Table[key], "*netdata.DecimalValue").Value))
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func (*netdata.MapPack).GetInt16(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == wrap("int16", as_(s.Table[key], "*netdata.DecimalValue").Value))
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func (*netdata.MapPack).GetInt32(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == wrap("int32", as_(s.Table[key], "*netdata.DecimalValue").Value))
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func (*netdata.MapPack).GetInt64(s, key)
  for C03
  requires s: nonnil(s)
  ensures put: implies(has(s.Table, key) and is_(s.Table[key], "*netdata.DecimalValue"), result0 == as_(s.Table[key], "*netdata.DecimalValue").Value)
  ensures missing: implies(not has(s.Table, key), result0 == 0)

func netdata.NewMapPack()
  for C03
  option inline
  ensures new: nonnil(result0) and nonnil(result0.Table) and length(result0.Table) == 0 and forkeys(result0.Table, lambda q: false)

func (*netdata.MapPack).NewList(s, key)
  for C03
  requires s: nonnil(s) and nonnil(s.Table)
  modifies entry(s.Table, key)
  ensures new: nonnil(result0) and length(result0.Value) == 0 and has(s.Table, key) and s.Table[key] == box("*netdata.ListValue", result0)
