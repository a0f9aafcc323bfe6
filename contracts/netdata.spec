def i8(v): return BE(1, v)
def u8(v): return BE(1, v)
def i16(v): return BE(2, v)
def i32(v): return BE(4, v)
def i64(v): return BE(8, v)
def u64(v): return BE(8, v)
def f32(v): return BE(4, f32bits(v))
def f64(v): return BE(8, f64bits(v))

func (*netdata.DataOutputX).WriteInt8(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : i8(value)
  sets out.written := wrap("int32", out.written + 1)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteUInt8(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : u8(value)
  sets out.written := wrap("int32", out.written + 1)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteInt16(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : i16(value)
  sets out.written := wrap("int32", out.written + 2)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteInt32(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : i32(value)
  sets out.written := wrap("int32", out.written + 4)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteInt64(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : i64(value)
  sets out.written := wrap("int32", out.written + 8)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteUInt64(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : u64(value)
  sets out.written := wrap("int32", out.written + 8)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteFloat32(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : f32(value)
  sets out.written := wrap("int32", out.written + 4)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteFloat64(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : f64(value)
  sets out.written := wrap("int32", out.written + 8)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataInputX).ReadInt8(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: int8
    input in_ : i8(v)
    sets in_.offset := wrap("int32", in_.offset + 1)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.DataInputX).ReadUInt8(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: uint8
    input in_ : u8(v)
    sets in_.offset := wrap("int32", in_.offset + 1)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.DataInputX).ReadInt16(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: int16
    input in_ : i16(v)
    sets in_.offset := wrap("int32", in_.offset + 2)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 2, 0)

func (*netdata.DataInputX).ReadInt32(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: int32
    input in_ : i32(v)
    sets in_.offset := wrap("int32", in_.offset + 4)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 4, 0)

func (*netdata.DataInputX).ReadInt64(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: int64
    input in_ : i64(v)
    sets in_.offset := wrap("int32", in_.offset + 8)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 8, 0)

func (*netdata.DataInputX).ReadFloat32(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: real
    input in_ : f32(v)
    sets in_.offset := wrap("int32", in_.offset + 4)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 4, 0)

func (*netdata.DataInputX).ReadFloat64(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: real
    input in_ : f64(v)
    sets in_.offset := wrap("int32", in_.offset + 8)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 8, 0)

inline def boolbyte(b): return ite(b, 1, 0)
def bool8(b): return BE(1, boolbyte(b))
def decimal(v):
    return cond(v == 0, BE(1, 0),
           cond(-128 <= v and v <= 127, BE(1, 1) + BE(1, v),
           cond(-32768 <= v and v <= 32767, BE(1, 2) + BE(2, v),
           cond(-2147483648 <= v and v <= 2147483647, BE(1, 4) + BE(4, v),
                BE(1, 8) + BE(8, v)))))
def blob(b):
    n = blength(b)
    return cond(n == 0, BE(1, 0),
           cond(n <= 253, BE(1, n) + RAW(b),
           cond(n <= 65535, BE(1, 255) + BE(2, n) + RAW(b),
                BE(1, 254) + BE(4, n) + RAW(b))))
inline def sent(s): return ite(length(s) <= 100000, s, "huge string omitted...")
def text(s): return cond(length(s) <= 100000, blob(content(s)), blob(content("huge string omitted...")))
def intbytes(b): return BE(4, blength(b)) + RAW(b)

func (*netdata.DataOutputX).WriteBoolean(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : bool8(value)
  sets out.written := wrap("int32", out.written + 1)
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteDecimal(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : decimal(value)
  sets out.written := wrap("int32", out.written + size(decimal(value)))
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteDecimal32(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : decimal(value)
  sets out.written := wrap("int32", out.written + size(decimal(value)))
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).WriteInt32Array(out, values)
  for C02
  requires out: nonnil(out) and nonnil(out.writer)
  requires len: length(values) <= 32767
  emits out : BE(2, length(values)) + CAT(0, length(values), lambda i: i32(values[i]))
  sets out.written := wrap("int32", out.written + 2 + 4 * length(values))
  returns out, _
  ensures err: implies(reliable(out.writer), result1 == nil)

func (*netdata.DataOutputX).Write(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  requires len: length(value) < 2147483648
  emits out : RAW(value)
  sets out.written := wrap("int32", out.written + length(value))
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.DataOutputX).WriteBlob(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  requires len: length(value) < 2147483648
  emits out : blob(value)
  sets out.written := wrap("int32", out.written + size(blob(value)))
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.DataOutputX).WriteIntBytes(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  requires len: length(value) < 2147483648
  emits out : intbytes(value)
  sets out.written := wrap("int32", out.written + 4 + length(value))
  returns _
  ensures err: implies(ok(out), result0 == nil)

func (*netdata.DataOutputX).WriteString(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : text(value)
  sets out.written := wrap("int32", out.written + size(text(value)))
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func (*netdata.DataOutputX).Size(out)
  for C02
  requires out: nonnil(out)
  returns out.written

func (*netdata.DataOutputX).GetWriteSize(out)
  for C02
  requires out: nonnil(out)
  returns out.written

func netdata.NewDataOutputX(any)
  for C01 C02
  option inline
  case buffer:
    when any == nil
    ensures new: nonnil(result) and result.written == 0 and is_(result.writer, "*bytes.Buffer") and length(stream(result)) == 0
  case writer:
    when implements(any, "io.Writer")
    ensures new: nonnil(result) and result.written == 0 and result.writer == any
  case other:
    when any != nil and not implements(any, "io.Writer")
    ensures new: nonnil(result) and result.written == 0 and is_(result.writer, "*bytes.Buffer") and length(stream(result)) == 0

func netdata.NewDataInputX(any)
  for C01
  option inline
  case bytes:
    when is_(any, "[]uint8")
    ensures new: nonnil(result) and result.offset == 0 and nonnil(result.reader) and sameinput(result, as_(any, "[]uint8"))
  case reader:
    when implements(any, "io.Reader")
    ensures new: nonnil(result) and result.offset == 0 and result.reader == any

func (*netdata.DataOutputX).Bytes(out)
  for C01 C02
  option inline
  case buffer:
    requires out: nonnil(out) and is_(out.writer, "*bytes.Buffer")
    ensures all: streameq(RAW(result), stream(out))

func (*netdata.DataInputX).ReadBoolean(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: bool
    input in_ : bool8(v)
    sets in_.offset := wrap("int32", in_.offset + 1)
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.DataInputX).ReadDecimal(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: int64
    input in_ : decimal(v)
    sets in_.offset := wrap("int32", in_.offset + size(decimal(v)))
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.DataInputX).ReadBlob(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost b: bytes
    input in_ : blob(b)
    sets in_.offset := wrap("int32", in_.offset + size(blob(b)))
    returns b, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)
    ensures length: length(result0) <= gh("!nread") - old(gh("!nread"))

func (*netdata.DataInputX).ReadString(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost s: string
    input in_ : text(s)
    sets in_.offset := wrap("int32", in_.offset + size(text(s)))
    returns sent(s), nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)
    ensures length: length(result0) <= gh("!nread") - old(gh("!nread"))

func (*netdata.DataInputX).Read(in_, n)
  option inline
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, n, 0)
    ensures length: implies(result1 == nil, length(result0) == n) and length(result0) <= gh("!nread") - old(gh("!nread"))

func (*netdata.DataInputX).ReadIntBytes(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost b: bytes
    input in_ : intbytes(b)
    sets in_.offset := wrap("int32", in_.offset + 4 + blength(b))
    returns b, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    option count-input
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 4, 0)
    ensures length: length(result0) <= gh("!nread") - old(gh("!nread"))
