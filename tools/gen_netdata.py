"""writes the repetitive primitive contracts of contracts/netdata.spec to stdout"""
prims=[('Int8','i8',1,'int8'),('UInt8','u8',1,'uint8'),('Int16','i16',2,'int16'),('Int32','i32',4,'int32'),('Int64','i64',8,'int64'),('UInt64','u64',8,'uint64'),('Float32','f32',4,'real'),('Float64','f64',8,'real')]
for n,w,k,t in prims:
    b={'f32':'f32bits(v)','f64':'f64bits(v)'}.get(w,'v')
    print(f'def {w}(v): return BE({k}, {b})')
print()
for n,w,k,t in prims:
    print(f'''func (*netdata.DataOutputX).Write{n}(out, value)
  for C01 C02
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : {w}(value)
  sets out.written := wrap("int32", out.written + {k})
  returns out, _
  ensures err: implies(reliable(out.writer), result1 == nil)
''')
for n,w,k,t in prims:
    if n=='UInt64': continue
    print(f'''func (*netdata.DataInputX).Read{n}(in_)
  for C01
  case roundtrip:
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: {t}
    input in_ : {w}(v)
    sets in_.offset := wrap("int32", in_.offset + {k})
    returns v, nil
  case any:
    for C23
    requires in: nonnil(in_) and nonnil(in_.reader)
    modifies in_.offset, input(in_)
    returns _, _
''')
