# Transactions (C14, C15, C22). View "trace": the text dictionary is hidden state (owned by netio: its caches are reachable only through
# package variables of netio, proved distinct in netio.init); what it sends is the subject of C13, here only the identifier matters
inline def texthash(s): return ite(s == "", 0, -1 - crc32(s))

func netio.SendServiceName@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.serviceNameSent")) and glob("netio.serviceNameSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendHashedMessage@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.hashMessageSent")) and glob("netio.hashMessageSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendObjName@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.objNameSent")) and glob("netio.objNameSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendReferer@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.refererSent")) and glob("netio.refererSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendUserAgent@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.userAgentSent")) and glob("netio.userAgentSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendMethod@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.methodSent")) and glob("netio.methodSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendApicall@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.apicallSent")) and glob("netio.apicallSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendError@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.errorSent")) and glob("netio.errorSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendLogin@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.loginSent")) and glob("netio.loginSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendDesc@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.descSent")) and glob("netio.descSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func netio.SendStackElement@trace(name)
  for C14 C15
  assumes inv: lrainv(glob("netio.stackElementSent")) and glob("netio.stackElementSent").MaxEntries > 0
  option frame-off
  option events-off
  returns texthash(name)

func (*counter.ServiceMetering).Add@trace(g, elapsed, err)
  for C14
  option ghosttype !merror bool
  let m = g.metering
  requires inv: nonnil(g) and sinv(m)
  assumes clock: m.time <= now()
  modifies m.time, m.pos, all("counter.ServiceBucket"), ghost("$now")
  ensures inv: sinv(m)
  sets ghost("!nmetered") := gh("!nmetered") + 1
  sets ghost("!nelapsed") := elapsed
  sets ghost("!merror") := err

func counter.GetServiceMeter@trace()
  for C14
  modifies ghost("$now"), glob("counter.serviceMetering")
  requires inv: metersok()
  invariant filled: filled(local("*counter.Metering").table, k, "*counter.ServiceBucket")
  ensures inv: nonnil(result) and sinv(result.metering) and metersok()
  ensures shared: result == glob("counter.serviceMetering")

func tctxmanager.Start(tctx)
  for C14 C15
  requires cache: lrainv(txids()) and nonnil(tctx)
  modifies mapof(txids().table), list(txids().lst), all("lra.entry.value")
  ensures cache: lrainv(txids())
  ensures active: has(txids().table, box("int64", tctx.Txid)) and lraval(txids(), box("int64", tctx.Txid)) == box("*netio.TraceContext", tctx)

func tctxmanager.End(tctx)
  for C14
  requires cache: lrainv(txids()) and nonnil(tctx)
  modifies mapof(txids().table), list(txids().lst)
  ensures cache: lrainv(txids())
  ensures gone: anykey(txids().table, lambda q: has(txids().table, q) == (q != box("int64", tctx.Txid) and old(has(txids().table, q))))

inline def traceof(ctx): return as_(ctxval(ctx, "tctxmanager.ctxKey"), "*netio.TraceContext")
inline def traced(ctx): return is_(ctxval(ctx, "tctxmanager.ctxKey"), "*netio.TraceContext")
func tctxmanager.GetTraceContext(ctx)
  for C14 C15 C22
  requires ctx: nonnil(ctx)
  case none:
    when not traced(ctx)
    returns nil
  case some:
    when traced(ctx)
    returns traceof(ctx)

inline def octets(a, ip): return length(a) == 4 and implies(ipok(ip), a[0] == octet(ip, 0) and a[1] == octet(ip, 1) and a[2] == octet(ip, 2) and a[3] == octet(ip, 3)) and implies(not ipok(ip), a[0] == 0 and a[1] == 0 and a[2] == 0 and a[3] == 0)
# the summary x of the transaction t
inline def identity(x, t): return x.Txid == t.Txid and x.Gxid == t.Gxid and x.Caller == t.Caller and x.XType == t.XType and x.Service == t.ServiceHash
inline def outcome(x, t): return x.Error == t.Error and x.Status == t.Status and x.SqlCount == t.SqlCount and x.SqlTime == t.SqlTime and x.ApicallCount == t.ApicallCount and x.ApicallTime == t.ApicallTime
inline def origin(x, t): return x.Userid == t.Userid and x.UserAgent == t.UserAgent and x.Referer == t.Referer and octets(x.Ipaddr, t.RemoteIp)
inline def texts(x, t): return x.Login == texthash(t.Login) and x.Desc == texthash(t.Desc) and x.Text1 == t.Text1 and x.Text2 == t.Text2 and x.Text3 == t.Text3 and x.Text4 == t.Text4 and x.Text5 == t.Text5
inline def totals(x, t): return x.ProfileCount == wrap("int32", t.ProfileCount) and x.ProfileSize == wrap("int32", t.ProfileSize)

func (netio.TraceContext).ToXlog(tctx, discardType, elapsed)
  for C14
  option view trace
  option events-off
  returns _
  ensures new: fresh(result) and result.Elapsed == elapsed and result.DiscardType == discardType
  ensures identity: identity(result, tctx)
  ensures outcome: outcome(result, tctx)
  ensures origin: origin(result, tctx)
  ensures texts: texts(result, tctx)
  ensures totals: totals(result, tctx)

func netio.SendXlog(pack)
  for C14
  option ghosttype !xlog *netdata.XlogPack
  option events-post
  requires pack: nonnil(pack) and nonnil(glob("netio.ac")) and nonnil(glob("udpsender.ac")) and nonnil(sender().udpClient)
  modifies pack.ObjHash
  ensures object: pack.ObjHash == glob("netio.ac").ObjHash
  events EV("sendpack", packbytes(box("*netdata.XlogPack", pack)))
  sets ghost("!xlog") := pack

# ---- ending a transaction
inline def tctxok(t): return nonnil(t) and pcok(t.Profile) and t.Profile.tctx == t
inline def traceenv(): return pcenv() and nonnil(sac()) and lrainv(txids()) and metersok() and nonnil(glob("conf.observers"))
inline def samplerok(): return done("strace.xlogSamplerOnce") and samples(glob("strace.xlogSampler")) and synced(glob("strace.xlogSampler"), sac())
inline def decision(t, e): return ite(t.Error != 0, 1, ite(named(sac().XlogDiscardServicePatterns, t.ServiceName), 4, evaluated(e, t.ServiceName, sac())))
inline def driving(t): return t.Gxid == t.Txid or t.Gxid == 0
inline def dropped(t, d): return d == 4 or d == 2 and driving(t)
inline def msof(n): return n // 1000000
inline def within(t, e, n0, n1): return implies(0 <= nanos(t.StartTime) and nanos(t.StartTime) <= n0 and n1 - nanos(t.StartTime) < 2147483648000000, msof(n0 - nanos(t.StartTime)) <= e and e <= msof(n1 - nanos(t.StartTime)))
inline def xlog(): return gh("!xlog")

func strace.endAnyServiceOfTraceContext(tctx)
  for C14
  option view trace
  option events-post
  requires trace: tctxok(tctx)
  requires env: traceenv()
  case again:
    when tctx.Closed
    events EMPTY
  case first:
    when not tctx.Closed
    assumes sampler: samplerok()
    modifies tctx.Closed, tctx.ServiceHash, tctx.ProfileCount, tctx.ProfileSize, mapof(txids().table), list(txids().lst)
    modifies all("counter.Metering"), all("counter.ServiceBucket"), glob("counter.serviceMetering")
    modifies ghost("$now"), ghost("!sent"), ghost("$draw"), ghost("$drawmax"), ghost("discard"), ghost("!nmetered"), ghost("!nelapsed"), ghost("!merror"), ghost("!xlog")
    ensures closed: tctx.Closed
    ensures service: tctx.ServiceHash == texthash(tctx.ServiceName)
    ensures inactive: anykey(txids().table, lambda q: has(txids().table, q) == (q != box("int64", tctx.Txid) and old(has(txids().table, q))))
    ensures cache: lrainv(txids())
    ensures meters: metersok()
    ensures metered: gh("!nmetered") == old(gh("!nmetered")) + 1 and gh("!merror") == (tctx.Error != 0) and within(tctx, gh("!nelapsed"), old(gh("$now")), gh("$now"))
    ensures decision: implies(documentedall(sac()), gh("discard") == decision(tctx, gh("!nelapsed")))
    ensures profile: tctx.ProfileCount == wrap("int", old(tctx.ProfileCount) + ite(gh("discard") == 1, tctx.Profile.pos, 0))
    ensures profilesize: tctx.ProfileSize == wrap("int", old(tctx.ProfileSize) + ite(gh("discard") == 1, old(length(stepsb(tctx.Profile.steps, 0, tctx.Profile.pos))), 0))
    ensures summary: implies(not dropped(tctx, gh("discard")), identity(xlog(), tctx) and outcome(xlog(), tctx) and origin(xlog(), tctx) and texts(xlog(), tctx) and totals(xlog(), tctx) and xlog().Elapsed == gh("!nelapsed") and xlog().DiscardType == gh("discard") and xlog().ObjHash == glob("netio.ac").ObjHash)
    events cond(gh("discard") == 1 and tctx.Profile.pos > 0, profile(tctx.Profile.steps, tctx.Profile.pos, tctx), EMPTY) + cond(dropped(tctx, gh("discard")), EMPTY, EV("sendpack", packbytes(box("*netdata.XlogPack", xlog()))))

# ---- entry points that end a transaction
func strace.endAnyService(ctx)
  for C14
  option helper
  option view trace
  option events-post
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: traceenv()
  case again:
    when ctx == nil or not traced(ctx) or traceof(ctx).Closed
    events EMPTY
  case first:
    when not (ctx == nil or not traced(ctx) or traceof(ctx).Closed)
    assumes sampler: samplerok()
    modifies traceof(ctx).Closed, traceof(ctx).ServiceHash, traceof(ctx).ProfileCount, traceof(ctx).ProfileSize, mapof(txids().table), list(txids().lst)
    modifies all("counter.Metering"), all("counter.ServiceBucket"), glob("counter.serviceMetering")
    modifies ghost("$now"), ghost("!sent"), ghost("$draw"), ghost("$drawmax"), ghost("discard"), ghost("!nmetered"), ghost("!nelapsed"), ghost("!merror"), ghost("!xlog")
    ensures closed: traceof(ctx).Closed
    ensures service: traceof(ctx).ServiceHash == texthash(traceof(ctx).ServiceName)
    ensures inactive: anykey(txids().table, lambda q: has(txids().table, q) == (q != box("int64", traceof(ctx).Txid) and old(has(txids().table, q))))
    ensures cache: lrainv(txids())
    ensures meters: metersok()
    ensures metered: gh("!nmetered") == old(gh("!nmetered")) + 1 and gh("!merror") == (traceof(ctx).Error != 0) and within(traceof(ctx), gh("!nelapsed"), old(gh("$now")), gh("$now"))
    ensures decision: implies(documentedall(sac()), gh("discard") == decision(traceof(ctx), gh("!nelapsed")))
    ensures profile: traceof(ctx).ProfileCount == wrap("int", old(traceof(ctx).ProfileCount) + ite(gh("discard") == 1, traceof(ctx).Profile.pos, 0))
    ensures profilesize: traceof(ctx).ProfileSize == wrap("int", old(traceof(ctx).ProfileSize) + ite(gh("discard") == 1, old(length(stepsb(traceof(ctx).Profile.steps, 0, traceof(ctx).Profile.pos))), 0))
    ensures summary: implies(not dropped(traceof(ctx), gh("discard")), identity(xlog(), traceof(ctx)) and outcome(xlog(), traceof(ctx)) and origin(xlog(), traceof(ctx)) and texts(xlog(), traceof(ctx)) and totals(xlog(), traceof(ctx)) and xlog().Elapsed == gh("!nelapsed") and xlog().DiscardType == gh("discard") and xlog().ObjHash == glob("netio.ac").ObjHash)
    events cond(gh("discard") == 1 and traceof(ctx).Profile.pos > 0, profile(traceof(ctx).Profile.steps, traceof(ctx).Profile.pos, traceof(ctx)), EMPTY) + cond(dropped(traceof(ctx), gh("discard")), EMPTY, EV("sendpack", packbytes(box("*netdata.XlogPack", xlog()))))

func strace.EndService(ctx)
  for C14
  option view trace
  option events-post
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: traceenv()
  case again:
    when ctx == nil or not traced(ctx) or traceof(ctx).Closed
    events EMPTY
  case first:
    when not (ctx == nil or not traced(ctx) or traceof(ctx).Closed)
    assumes sampler: samplerok()
    modifies traceof(ctx).Closed, traceof(ctx).ServiceHash, traceof(ctx).ProfileCount, traceof(ctx).ProfileSize, mapof(txids().table), list(txids().lst)
    modifies all("counter.Metering"), all("counter.ServiceBucket"), glob("counter.serviceMetering")
    modifies ghost("$now"), ghost("!sent"), ghost("$draw"), ghost("$drawmax"), ghost("discard"), ghost("!nmetered"), ghost("!nelapsed"), ghost("!merror"), ghost("!xlog")
    ensures closed: traceof(ctx).Closed
    ensures service: traceof(ctx).ServiceHash == texthash(traceof(ctx).ServiceName)
    ensures inactive: anykey(txids().table, lambda q: has(txids().table, q) == (q != box("int64", traceof(ctx).Txid) and old(has(txids().table, q))))
    ensures cache: lrainv(txids())
    ensures meters: metersok()
    ensures metered: gh("!nmetered") == old(gh("!nmetered")) + 1 and gh("!merror") == (traceof(ctx).Error != 0) and within(traceof(ctx), gh("!nelapsed"), old(gh("$now")), gh("$now"))
    ensures decision: implies(documentedall(sac()), gh("discard") == decision(traceof(ctx), gh("!nelapsed")))
    ensures profile: traceof(ctx).ProfileCount == wrap("int", old(traceof(ctx).ProfileCount) + ite(gh("discard") == 1, traceof(ctx).Profile.pos, 0))
    ensures profilesize: traceof(ctx).ProfileSize == wrap("int", old(traceof(ctx).ProfileSize) + ite(gh("discard") == 1, old(length(stepsb(traceof(ctx).Profile.steps, 0, traceof(ctx).Profile.pos))), 0))
    ensures summary: implies(not dropped(traceof(ctx), gh("discard")), identity(xlog(), traceof(ctx)) and outcome(xlog(), traceof(ctx)) and origin(xlog(), traceof(ctx)) and texts(xlog(), traceof(ctx)) and totals(xlog(), traceof(ctx)) and xlog().Elapsed == gh("!nelapsed") and xlog().DiscardType == gh("discard") and xlog().ObjHash == glob("netio.ac").ObjHash)
    events cond(gh("discard") == 1 and traceof(ctx).Profile.pos > 0, profile(traceof(ctx).Profile.steps, traceof(ctx).Profile.pos, traceof(ctx)), EMPTY) + cond(dropped(traceof(ctx), gh("discard")), EMPTY, EV("sendpack", packbytes(box("*netdata.XlogPack", xlog()))))

func strace.endChildGoroutineService(ctx)
  for C14
  option helper
  option view trace
  option events-post
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: traceenv()
  case again:
    when ctx == nil or not traced(ctx) or traceof(ctx).Closed
    events EMPTY
  case first:
    when not (ctx == nil or not traced(ctx) or traceof(ctx).Closed)
    assumes sampler: samplerok()
    modifies traceof(ctx).Closed, traceof(ctx).ServiceHash, traceof(ctx).ProfileCount, traceof(ctx).ProfileSize, mapof(txids().table), list(txids().lst)
    modifies all("counter.Metering"), all("counter.ServiceBucket"), glob("counter.serviceMetering")
    modifies ghost("$now"), ghost("!sent"), ghost("$draw"), ghost("$drawmax"), ghost("discard"), ghost("!nmetered"), ghost("!nelapsed"), ghost("!merror"), ghost("!xlog")
    ensures closed: traceof(ctx).Closed
    ensures service: traceof(ctx).ServiceHash == texthash(traceof(ctx).ServiceName)
    ensures inactive: anykey(txids().table, lambda q: has(txids().table, q) == (q != box("int64", traceof(ctx).Txid) and old(has(txids().table, q))))
    ensures cache: lrainv(txids())
    ensures meters: metersok()
    ensures metered: gh("!nmetered") == old(gh("!nmetered")) + 1 and gh("!merror") == (traceof(ctx).Error != 0) and within(traceof(ctx), gh("!nelapsed"), old(gh("$now")), gh("$now"))
    ensures decision: implies(documentedall(sac()), gh("discard") == decision(traceof(ctx), gh("!nelapsed")))
    ensures profile: traceof(ctx).ProfileCount == wrap("int", old(traceof(ctx).ProfileCount) + ite(gh("discard") == 1, traceof(ctx).Profile.pos, 0))
    ensures profilesize: traceof(ctx).ProfileSize == wrap("int", old(traceof(ctx).ProfileSize) + ite(gh("discard") == 1, old(length(stepsb(traceof(ctx).Profile.steps, 0, traceof(ctx).Profile.pos))), 0))
    ensures summary: implies(not dropped(traceof(ctx), gh("discard")), identity(xlog(), traceof(ctx)) and outcome(xlog(), traceof(ctx)) and origin(xlog(), traceof(ctx)) and texts(xlog(), traceof(ctx)) and totals(xlog(), traceof(ctx)) and xlog().Elapsed == gh("!nelapsed") and xlog().DiscardType == gh("discard") and xlog().ObjHash == glob("netio.ac").ObjHash)
    events cond(gh("discard") == 1 and traceof(ctx).Profile.pos > 0, profile(traceof(ctx).Profile.steps, traceof(ctx).Profile.pos, traceof(ctx)), EMPTY) + cond(dropped(traceof(ctx), gh("discard")), EMPTY, EV("sendpack", packbytes(box("*netdata.XlogPack", xlog()))))

func strace.EndHttpService(ctx, req, res)
  for C14
  option view trace
  option events-post
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: traceenv()
  case again:
    when ctx == nil or not traced(ctx) or traceof(ctx).Closed
    events EMPTY
  case first:
    when not (ctx == nil or not traced(ctx) or traceof(ctx).Closed)
    assumes sampler: samplerok()
    ensures status: traceof(ctx).Status == ite(nonnil(res), wrap("int32", res.StatusCode), old(traceof(ctx).Status))
    modifies traceof(ctx).Status
    modifies traceof(ctx).Closed, traceof(ctx).ServiceHash, traceof(ctx).ProfileCount, traceof(ctx).ProfileSize, mapof(txids().table), list(txids().lst)
    modifies all("counter.Metering"), all("counter.ServiceBucket"), glob("counter.serviceMetering")
    modifies ghost("$now"), ghost("!sent"), ghost("$draw"), ghost("$drawmax"), ghost("discard"), ghost("!nmetered"), ghost("!nelapsed"), ghost("!merror"), ghost("!xlog")
    ensures closed: traceof(ctx).Closed
    ensures service: traceof(ctx).ServiceHash == texthash(traceof(ctx).ServiceName)
    ensures inactive: anykey(txids().table, lambda q: has(txids().table, q) == (q != box("int64", traceof(ctx).Txid) and old(has(txids().table, q))))
    ensures cache: lrainv(txids())
    ensures meters: metersok()
    ensures metered: gh("!nmetered") == old(gh("!nmetered")) + 1 and gh("!merror") == (traceof(ctx).Error != 0) and within(traceof(ctx), gh("!nelapsed"), old(gh("$now")), gh("$now"))
    ensures decision: implies(documentedall(sac()), gh("discard") == decision(traceof(ctx), gh("!nelapsed")))
    ensures profile: traceof(ctx).ProfileCount == wrap("int", old(traceof(ctx).ProfileCount) + ite(gh("discard") == 1, traceof(ctx).Profile.pos, 0))
    ensures profilesize: traceof(ctx).ProfileSize == wrap("int", old(traceof(ctx).ProfileSize) + ite(gh("discard") == 1, old(length(stepsb(traceof(ctx).Profile.steps, 0, traceof(ctx).Profile.pos))), 0))
    ensures summary: implies(not dropped(traceof(ctx), gh("discard")), identity(xlog(), traceof(ctx)) and outcome(xlog(), traceof(ctx)) and origin(xlog(), traceof(ctx)) and texts(xlog(), traceof(ctx)) and totals(xlog(), traceof(ctx)) and xlog().Elapsed == gh("!nelapsed") and xlog().DiscardType == gh("discard") and xlog().ObjHash == glob("netio.ac").ObjHash)
    events cond(gh("discard") == 1 and traceof(ctx).Profile.pos > 0, profile(traceof(ctx).Profile.steps, traceof(ctx).Profile.pos, traceof(ctx)), EMPTY) + cond(dropped(traceof(ctx), gh("discard")), EMPTY, EV("sendpack", packbytes(box("*netdata.XlogPack", xlog()))))

