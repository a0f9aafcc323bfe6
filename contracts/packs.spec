# generated by tools/gen_packs.py: pack layouts (C04)
def body_MapPack(p): return mapbody(p.Table)
def xlogfields(p): return decimal(p.EndTime) + decimal(p.ObjHash) + decimal(p.Service) + i64(p.Txid) + i64(p.Caller) + i64(p.Gxid) + decimal(p.Elapsed) + decimal(p.Error) + decimal(p.Cpu) + decimal(p.SqlCount) + decimal(p.SqlTime) + blob(p.Ipaddr) + decimal(p.Kbytes) + decimal(p.Status) + decimal(p.Userid) + decimal(p.UserAgent) + decimal(p.Referer) + decimal(p.Group) + decimal(p.ApicallCount) + decimal(p.ApicallTime) + text(p.CountryCode) + decimal(p.City) + u8(p.XType) + decimal(p.Login) + decimal(p.Desc) + decimal(p.WebHash) + decimal(p.WebTime) + u8(p.HasDump) + decimal(p.ThreadNameHash) + text(p.Text1) + text(p.Text2) + decimal(p.QueuingHostHash) + decimal(p.QueuingTime) + decimal(p.Queuing2ndHostHash) + decimal(p.Queuing2ndTime) + text(p.Text3) + text(p.Text4) + text(p.Text5) + decimal(p.ProfileCount) + bool8(p.B3Mode) + decimal(p.ProfileSize) + u8(p.DiscardType) + bool8(p.IgnoreGlobalConsequentSampling)
def body_XlogPack(p): return blob(bytesof(xlogfields(p)))
def body_XlogProfilePack(p): return decimal(p.Time) + decimal(p.ObjHash) + decimal(p.Service) + i64(p.Txid) + blob(p.Profile)
def body_TextPack(p): return text(p.Xtype) + i32(p.Hash) + text(p.Text)
def body_PerfCounterPack(p): return i64(p.Time) + text(p.ObjName) + i8(p.Timetype) + val(box("*netdata.MapValue", p.Data))
def body_PerfCounterK8SPack(p): return i64(p.Time) + text(p.SiteID) + text(p.Cluster) + text(p.NameSpace) + text(p.NodeName) + text(p.DaemonSetName) + text(p.DeploymentName) + text(p.PodName) + text(p.ContainerName) + text(p.ObjName) + i8(p.Timetype) + i8(p.MetricLevel) + val(box("*netdata.MapValue", p.Data))
def body_AlertPack(p): return i64(p.Time) + u8(p.Level) + text(p.ObjType) + i32(p.ObjHash) + text(p.Title) + text(p.Message) + val(box("*netdata.MapValue", p.Tags))
def body_ObjectPack2(p): return text(p.SiteID) + text(p.ObjType) + decimal(p.ObjHash) + text(p.ObjName) + text(p.Address) + text(p.Version) + bool8(p.Alive) + decimal(p.Wakeup) + i8(p.Family) + val(box("*netdata.MapValue", p.Tags))
def body_ObjectPack(p): return text(p.ObjType) + decimal(p.ObjHash) + text(p.ObjName) + text(p.Address) + text(p.Version) + bool8(p.Alive) + decimal(p.Wakeup) + val(box("*netdata.MapValue", p.Tags))
def packbody(p): return cond(is_(p, "*netdata.MapPack"), body_MapPack(as_(p, "*netdata.MapPack")), cond(is_(p, "*netdata.XlogPack"), body_XlogPack(as_(p, "*netdata.XlogPack")), cond(is_(p, "*netdata.XlogProfilePack"), body_XlogProfilePack(as_(p, "*netdata.XlogProfilePack")), cond(is_(p, "*netdata.TextPack"), body_TextPack(as_(p, "*netdata.TextPack")), cond(is_(p, "*netdata.PerfCounterPack"), body_PerfCounterPack(as_(p, "*netdata.PerfCounterPack")), cond(is_(p, "*netdata.PerfCounterK8SPack"), body_PerfCounterK8SPack(as_(p, "*netdata.PerfCounterK8SPack")), cond(is_(p, "*netdata.AlertPack"), body_AlertPack(as_(p, "*netdata.AlertPack")), cond(is_(p, "*netdata.ObjectPack2"), body_ObjectPack2(as_(p, "*netdata.ObjectPack2")), cond(is_(p, "*netdata.ObjectPack"), body_ObjectPack(as_(p, "*netdata.ObjectPack")), EMPTY)))))))))
inline def packtype(p): return ite(is_(p, "*netdata.MapPack"), 10, ite(is_(p, "*netdata.XlogPack"), 21, ite(is_(p, "*netdata.XlogProfilePack"), 26, ite(is_(p, "*netdata.TextPack"), 50, ite(is_(p, "*netdata.PerfCounterPack"), 60, ite(is_(p, "*netdata.PerfCounterK8SPack"), 65, ite(is_(p, "*netdata.AlertPack"), 70, ite(is_(p, "*netdata.ObjectPack2"), 80, ite(is_(p, "*netdata.ObjectPack"), 80, 0)))))))))
def packbytes(p): return u8(packtype(p)) + packbody(p)

func netdata.Pack.GetPackType(p)
  for C04
  option iface
  requires p: nonnil(p)
  returns packtype(p)

func netdata.Pack.Write(p, out)
  for C04
  option iface
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : packbody(p)
  modifies out.written
  returns _

func (*netdata.DataOutputX).WritePack(out, pack)
  for C04
  requires out: nonnil(out) and nonnil(out.writer)
  requires pack: nonnil(pack)
  emits out : packbytes(pack)
  modifies out.written
  returns out, _
  ensures err: implies(ok(out), result1 == nil)

func netdata.CreatePack(packType)
  for C04
  option inline
  ensures map: implies(packType == 10, is_(result, "*netdata.MapPack") and nonnil(as_(result, "*netdata.MapPack")) and nonnil(as_(result, "*netdata.MapPack").Table) and length(as_(result, "*netdata.MapPack").Table) == 0 and forkeys(as_(result, "*netdata.MapPack").Table, lambda q: false))
  ensures text: implies(packType == 50, is_(result, "*netdata.TextPack"))
  ensures perf: implies(packType == 60, is_(result, "*netdata.PerfCounterPack") and nonnil(as_(result, "*netdata.PerfCounterPack")))
  ensures object: implies(packType == 80, is_(result, "*netdata.ObjectPack2") and nonnil(as_(result, "*netdata.ObjectPack2")))
  ensures alert: implies(packType == 70, is_(result, "*netdata.AlertPack"))
  ensures other: implies(packType != 10 and packType != 50 and packType != 60 and packType != 70 and packType != 80, result == nil)

func (*netdata.DataInputX).ReadPack(in_)
  case roundtrip:
    for C04
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Pack
    requires kind: is_(v, "*netdata.MapPack") or is_(v, "*netdata.PerfCounterPack") or is_(v, "*netdata.ObjectPack2")
    requires v: nonnil(v)
    requires vmap: implies(is_(v, "*netdata.MapPack"), nonnil(as_(v, "*netdata.MapPack")))
    requires vmap: implies(is_(v, "*netdata.PerfCounterPack"), nonnil(as_(v, "*netdata.PerfCounterPack")) and nonnil(as_(v, "*netdata.PerfCounterPack").Data)) and implies(is_(v, "*netdata.ObjectPack2"), nonnil(as_(v, "*netdata.ObjectPack2")) and nonnil(as_(v, "*netdata.ObjectPack2").Tags))
    input in_ : packbytes(v)
    modifies in_.offset
    returns _, nil
    ensures equal: eqv(result0, v)
  case any:
    for C23
    option count-input
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures result: implies(result1 == nil, result0 != nil)
    ensures progress: gh("!nread") >= old(gh("!nread")) + ite(result1 == nil, 1, 0)

func (*netdata.MapPack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 10

func (*netdata.MapPack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : packbody(box("*netdata.MapPack", p))
  modifies out.written
  returns _

func (*netdata.MapPack).Read(s, in_)
  case roundtrip:
    for C04
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Pack
    requires kind: is_(v, "*netdata.MapPack") and nonnil(as_(v, "*netdata.MapPack"))
    requires distinct: s != as_(v, "*netdata.MapPack")
    requires distinct: s.Table != as_(v, "*netdata.MapPack").Table
    requires empty: nonnil(s.Table) and length(s.Table) == 0 and forkeys(s.Table, lambda q: false)
    assumes keys: forkeys(as_(v, "*netdata.MapPack").Table, lambda q: length(q) <= 100000)
    invariant size: length(s.Table) == k
    invariant elems: forall(0, k, lambda i: has(s.Table, enumkey(as_(v, "*netdata.MapPack").Table, i)) and eqv(s.Table[enumkey(as_(v, "*netdata.MapPack").Table, i)], as_(v, "*netdata.MapPack").Table[enumkey(as_(v, "*netdata.MapPack").Table, i)]))
    invariant only: forkeys(s.Table, lambda q: has(as_(v, "*netdata.MapPack").Table, q) and enumpos(as_(v, "*netdata.MapPack").Table, q) < k)
    input in_ : packbody(v)
    modifies in_.offset, mapof(s.Table)
    returns s, nil
    defines eqv(box("*netdata.MapPack", s), v) := length(s.Table) == length(as_(v, "*netdata.MapPack").Table) and forall(0, length(as_(v, "*netdata.MapPack").Table), lambda i: has(s.Table, enumkey(as_(v, "*netdata.MapPack").Table, i)) and eqv(s.Table[enumkey(as_(v, "*netdata.MapPack").Table, i)], as_(v, "*netdata.MapPack").Table[enumkey(as_(v, "*netdata.MapPack").Table, i)]))
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    requires table: nonnil(s.Table)
    loop progress: gh("!nread") >= old(gh("!nread")) + 2 * k
    modifies in_.offset, input(in_), ghost("!nread"), mapof(s.Table)
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.XlogPack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 21

func (*netdata.XlogPack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes ip: length(p.Ipaddr) < 1073741824
  emits out : packbody(box("*netdata.XlogPack", p))
  modifies out.written
  returns _

func (*netdata.XlogProfilePack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 26

func (*netdata.XlogProfilePack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes len: length(p.Profile) < 2147483648
  emits out : packbody(box("*netdata.XlogProfilePack", p))
  modifies out.written
  returns _

func (*netdata.TextPack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 50

func (*netdata.TextPack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  emits out : packbody(box("*netdata.TextPack", p))
  modifies out.written
  returns _

func (*netdata.PerfCounterPack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 60

func (*netdata.PerfCounterPack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes map: nonnil(p.Data)
  emits out : packbody(box("*netdata.PerfCounterPack", p))
  modifies out.written
  returns _

func (*netdata.PerfCounterPack).Read(s, in_)
  case roundtrip:
    for C04
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Pack
    requires kind: is_(v, "*netdata.PerfCounterPack") and nonnil(as_(v, "*netdata.PerfCounterPack"))
    requires distinct: s != as_(v, "*netdata.PerfCounterPack")
    requires vmap: nonnil(as_(v, "*netdata.PerfCounterPack").Data)
    input in_ : packbody(v)
    modifies in_.offset, s.Time, s.ObjName, s.Timetype, s.Data
    returns s, nil
    defines eqv(box("*netdata.PerfCounterPack", s), v) := s.Time == as_(v, "*netdata.PerfCounterPack").Time and s.ObjName == sent(as_(v, "*netdata.PerfCounterPack").ObjName) and s.Timetype == as_(v, "*netdata.PerfCounterPack").Timetype and nonnil(s.Data) and eqv(box("*netdata.MapValue", s.Data), box("*netdata.MapValue", as_(v, "*netdata.PerfCounterPack").Data))
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    modifies in_.offset, input(in_), ghost("!nread"), s.Time, s.ObjName, s.Timetype, s.Data
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.PerfCounterK8SPack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 65

func (*netdata.PerfCounterK8SPack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes map: nonnil(p.Data)
  emits out : packbody(box("*netdata.PerfCounterK8SPack", p))
  modifies out.written
  returns _

func (*netdata.PerfCounterK8SPack).Read(s, in_)
  case roundtrip:
    for C04
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Pack
    requires kind: is_(v, "*netdata.PerfCounterK8SPack") and nonnil(as_(v, "*netdata.PerfCounterK8SPack"))
    requires distinct: s != as_(v, "*netdata.PerfCounterK8SPack")
    requires vmap: nonnil(as_(v, "*netdata.PerfCounterK8SPack").Data)
    input in_ : packbody(v)
    modifies in_.offset, s.Time, s.SiteID, s.Cluster, s.NameSpace, s.NodeName, s.DaemonSetName, s.DeploymentName, s.PodName, s.ContainerName, s.ObjName, s.Timetype, s.MetricLevel, s.Data
    returns s, nil
    defines eqv(box("*netdata.PerfCounterK8SPack", s), v) := s.Time == as_(v, "*netdata.PerfCounterK8SPack").Time and s.SiteID == sent(as_(v, "*netdata.PerfCounterK8SPack").SiteID) and s.Cluster == sent(as_(v, "*netdata.PerfCounterK8SPack").Cluster) and s.NameSpace == sent(as_(v, "*netdata.PerfCounterK8SPack").NameSpace) and s.NodeName == sent(as_(v, "*netdata.PerfCounterK8SPack").NodeName) and s.DaemonSetName == sent(as_(v, "*netdata.PerfCounterK8SPack").DaemonSetName) and s.DeploymentName == sent(as_(v, "*netdata.PerfCounterK8SPack").DeploymentName) and s.PodName == sent(as_(v, "*netdata.PerfCounterK8SPack").PodName) and s.ContainerName == sent(as_(v, "*netdata.PerfCounterK8SPack").ContainerName) and s.ObjName == sent(as_(v, "*netdata.PerfCounterK8SPack").ObjName) and s.Timetype == as_(v, "*netdata.PerfCounterK8SPack").Timetype and s.MetricLevel == as_(v, "*netdata.PerfCounterK8SPack").MetricLevel and nonnil(s.Data) and eqv(box("*netdata.MapValue", s.Data), box("*netdata.MapValue", as_(v, "*netdata.PerfCounterK8SPack").Data))
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    modifies in_.offset, input(in_), ghost("!nread"), s.Time, s.SiteID, s.Cluster, s.NameSpace, s.NodeName, s.DaemonSetName, s.DeploymentName, s.PodName, s.ContainerName, s.ObjName, s.Timetype, s.MetricLevel, s.Data
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.AlertPack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 70

func (*netdata.AlertPack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes map: nonnil(p.Tags)
  emits out : packbody(box("*netdata.AlertPack", p))
  modifies out.written
  returns _

func (*netdata.ObjectPack2).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 80

func (*netdata.ObjectPack2).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes map: nonnil(p.Tags)
  emits out : packbody(box("*netdata.ObjectPack2", p))
  modifies out.written
  returns _

func (*netdata.ObjectPack2).Read(s, in_)
  case roundtrip:
    for C04
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Pack
    requires kind: is_(v, "*netdata.ObjectPack2") and nonnil(as_(v, "*netdata.ObjectPack2"))
    requires distinct: s != as_(v, "*netdata.ObjectPack2")
    requires vmap: nonnil(as_(v, "*netdata.ObjectPack2").Tags)
    input in_ : packbody(v)
    modifies in_.offset, s.SiteID, s.ObjType, s.ObjHash, s.ObjName, s.Address, s.Version, s.Alive, s.Wakeup, s.Family, s.Tags
    returns s, nil
    defines eqv(box("*netdata.ObjectPack2", s), v) := s.SiteID == sent(as_(v, "*netdata.ObjectPack2").SiteID) and s.ObjType == sent(as_(v, "*netdata.ObjectPack2").ObjType) and s.ObjHash == as_(v, "*netdata.ObjectPack2").ObjHash and s.ObjName == sent(as_(v, "*netdata.ObjectPack2").ObjName) and s.Address == sent(as_(v, "*netdata.ObjectPack2").Address) and s.Version == sent(as_(v, "*netdata.ObjectPack2").Version) and s.Alive == as_(v, "*netdata.ObjectPack2").Alive and s.Wakeup == as_(v, "*netdata.ObjectPack2").Wakeup and s.Family == as_(v, "*netdata.ObjectPack2").Family and nonnil(s.Tags) and eqv(box("*netdata.MapValue", s.Tags), box("*netdata.MapValue", as_(v, "*netdata.ObjectPack2").Tags))
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    modifies in_.offset, input(in_), ghost("!nread"), s.SiteID, s.ObjType, s.ObjHash, s.ObjName, s.Address, s.Version, s.Alive, s.Wakeup, s.Family, s.Tags
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.ObjectPack).GetPackType(p)
  for C04
  requires p: nonnil(p)
  returns 80

func (*netdata.ObjectPack).Write(p, out)
  for C04
  requires p: nonnil(p)
  requires out: nonnil(out) and nonnil(out.writer)
  assumes map: nonnil(p.Tags)
  emits out : packbody(box("*netdata.ObjectPack", p))
  modifies out.written
  returns _

func (*netdata.ObjectPack).Read(s, in_)
  case roundtrip:
    for C04
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    ghost v: netdata.Pack
    requires kind: is_(v, "*netdata.ObjectPack") and nonnil(as_(v, "*netdata.ObjectPack"))
    requires distinct: s != as_(v, "*netdata.ObjectPack")
    requires vmap: nonnil(as_(v, "*netdata.ObjectPack").Tags)
    input in_ : packbody(v)
    modifies in_.offset, s.ObjType, s.ObjHash, s.ObjName, s.Address, s.Version, s.Alive, s.Wakeup, s.Tags
    returns s, nil
    defines eqv(box("*netdata.ObjectPack", s), v) := s.ObjType == sent(as_(v, "*netdata.ObjectPack").ObjType) and s.ObjHash == as_(v, "*netdata.ObjectPack").ObjHash and s.ObjName == sent(as_(v, "*netdata.ObjectPack").ObjName) and s.Address == sent(as_(v, "*netdata.ObjectPack").Address) and s.Version == sent(as_(v, "*netdata.ObjectPack").Version) and s.Alive == as_(v, "*netdata.ObjectPack").Alive and s.Wakeup == as_(v, "*netdata.ObjectPack").Wakeup and nonnil(s.Tags) and eqv(box("*netdata.MapValue", s.Tags), box("*netdata.MapValue", as_(v, "*netdata.ObjectPack").Tags))
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    requires in: nonnil(in_) and nonnil(in_.reader)
    requires depth: 0 <= in_.depth
    modifies in_.offset, input(in_), ghost("!nread"), s.ObjType, s.ObjHash, s.ObjName, s.Address, s.Version, s.Alive, s.Wakeup, s.Tags
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.TextPack).Read(s, in_)
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))

func (*netdata.AlertPack).Read(s, in_)
  case any:
    for C23
    option count-input
    requires s: nonnil(s)
    modifies in_.offset, input(in_), ghost("!nread")
    returns _, _
    ensures value: result0 != nil
    ensures progress: gh("!nread") >= old(gh("!nread"))
