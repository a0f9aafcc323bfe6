# Periodic reports (C24). The pack sent is described entry by entry; "svc" is the counter the service meter returned
inline def sentperf(): return as_(gh("!sent"), "*netdata.PerfCounterPack")
inline def perf(p, now, name, kind): return nonnil(p) and nonnil(p.Data) and nonnil(p.Data.Table) and p.ObjName == name and p.Timetype == kind
inline def decentry(p, name, n): return has(p.Data.Table, name) and isdec(p.Data.Table[name], n)
inline def fltentry(p, name, x): return has(p.Data.Table, name) and isf32(p.Data.Table[name], x)
inline def svcentries(p): return fltentry(p, "GoTPS", gh("svc").Tps) and decentry(p, "GoElapsedTime", gh("svc").Elapsed) and fltentry(p, "GoErrorRate", gh("svc").ErrorRate)
inline def goentries(p, c): return decentry(p, "Goroutine", c.GoroutineNum) and decentry(p, "GoCgoCall", c.CgoCallNum) and fltentry(p, "GoGcCount", c.GcPerSec) \
    and fltentry(p, "GoGcPause", c.GcPausePerSec) and decentry(p, "GoHeapUsed", c.HeapAlloc)

func counter.SendServiceCounter()
  for C24
  option events-post
  requires meters: metersok()
  requires agent: nonnil(glob("udpsender.ac"))
  modifies all("counter.Metering"), all("counter.ServiceBucket"), ghost("$now"), glob("counter.serviceMetering"), ghost("!sent"), ghost("svc")
  ensures kind: is_(gh("!sent"), "*netdata.PerfCounterPack") and perf(sentperf(), 0, glob("conf.configure").ObjName, 1)
  ensures figures: svcentries(sentperf())
  ensures window: gh("!svcperiod") == 30
  ensures only: length(sentperf().Data.Table) == 3
  events EV("sendpack", packbytes(gh("!sent")))

func counter.SendGoCounter()
  for C24
  option events-post
  requires agent: nonnil(glob("udpsender.ac"))
  modifies ghost("$now"), ghost("$rt.goroutines"), ghost("$rt.cgocalls"), ghost("$rt.HeapAlloc"), ghost("$rt.PauseTotalNs"), ghost("$rt.NumGC"), ghost("!sent"), glob("counter.prevGoCounter")
  ensures kind: is_(gh("!sent"), "*netdata.PerfCounterPack") and perf(sentperf(), 0, glob("conf.configure").ObjName, 1)
  ensures figures: goentries(sentperf(), glob("counter.prevGoCounter"))
  ensures rates: gorates(old(glob("counter.prevGoCounter")), glob("counter.prevGoCounter"))
  ensures only: length(sentperf().Data.Table) == 5
  events EV("sendpack", packbytes(gh("!sent")))

# Active services: elapsed milliseconds at the single clock reading of the call, against the two thresholds (at most 2000 services are looked at)
inline def msdiv(d): return ite(d >= 0, d // 1000000, 0 - (0 - d) // 1000000)
inline def tcof(v): return as_(v, "*netio.TraceContext")
inline def elapsedof(v): return msdiv(wrap("int64", gh("$first") - nanos(tcof(v).StartTime)))
inline def txids(): return glob("tctxmanager.txidMap")
inline def band(e, b): return ite(e <= glob("tctxmanager.ac").TraceActiveserviceYellowTime, 0, ite(e <= glob("tctxmanager.ac").TraceActiveserviceRedTime, 1, 2)) == b
inline def active(vs, n, b): return total(n, lambda i: ite(band(elapsedof(vs[i]), b), 1, 0))
inline def looked(n): return ite(n > 2000, 2000, n)

inline def meters(): return metersok() and nonnil(glob("countertask.activeCounter")) and vinv(glob("countertask.activeCounter").metering)

funcspec tctxmanager.stuck(tctx)
  requires tctx: nonnil(tctx)
  requires meters: meters()
  modifies others("netio.TraceContext.StartTime", "conf.Configure", "@", "[]interface{}", "lra.Cache.table", "counter.ValueMetering", "netdata.PerfCounterPack", "netdata.MapValue", "map map[string]netdata.Value", "netdata.DecimalValue", "netdata.Float32Value", "gocounter.GoCounter", "counter.ServiceCounter", "counter.ValueCounter"), ghost("$now"), ghost("!sent")
  ensures meters: meters()

func tctxmanager.GetActiveCount()
  for C24
  option events-off
  option remember activecounts
  requires cache: lrainv(txids()) and forkeys(txids().table, lambda q: lraval(txids(), q) != nil and is_(lraval(txids(), q), "*netio.TraceContext") and nonnil(tcof(lraval(txids(), q))))
  requires agent: nonnil(glob("tctxmanager.ac")) and nonnil(glob("netio.ac")) and nonnil(glob("udpsender.ac")) and meets(glob("tctxmanager.fEndStuckServiceForcibly"), "tctxmanager.stuck")
  requires meters: meters()
  modifies others("netio.TraceContext.StartTime", "conf.Configure", "@", "[]interface{}", "counter.ValueMetering", "netdata.PerfCounterPack", "netdata.MapValue", "map map[string]netdata.Value", "netdata.DecimalValue", "netdata.Float32Value", "gocounter.GoCounter", "counter.ServiceCounter", "counter.ValueCounter"), ghost("$now"), ghost("!sent"), ghost("txvals")
  invariant meters()
  ensures meters: meters()
  invariant-sum active(gh("txvals"), k, 0)
  invariant active(gh("txvals"), k, 0) >= 0 and active(gh("txvals"), k, 0) <= k
  invariant active(gh("txvals"), k, 1) >= 0 and active(gh("txvals"), k, 1) <= k
  invariant active(gh("txvals"), k, 2) >= 0 and active(gh("txvals"), k, 2) <= k
  invariant-sum active(gh("txvals"), k, 1)
  invariant-sum active(gh("txvals"), k, 2)
  ensures all: length(gh("txvals")) == old(length(txids().table)) and forall(0, length(gh("txvals")), lambda i: gh("txvals")[i] == old(lraval(txids(), enumkey(txids().table, i))))
  ensures green: result[0] == active(gh("txvals"), looked(length(gh("txvals"))), 0)
  ensures yellow: result[1] == active(gh("txvals"), looked(length(gh("txvals"))), 1)
  ensures red: result[2] == active(gh("txvals"), looked(length(gh("txvals"))), 2)

# The real-time report and the five-minute report
inline def cacheok(): return lrainv(txids()) and forkeys(txids().table, lambda q: lraval(txids(), q) != nil and is_(lraval(txids(), q), "*netio.TraceContext") and nonnil(tcof(lraval(txids(), q))))
inline def agentok(): return nonnil(glob("tctxmanager.ac")) and nonnil(glob("netio.ac")) and nonnil(glob("udpsender.ac")) and meets(glob("tctxmanager.fEndStuckServiceForcibly"), "tctxmanager.stuck")
inline def speeds(p, c): return has(p.Data.Table, "ActiveSpeed") and is_(p.Data.Table["ActiveSpeed"], "*netdata.ListValue") and length(as_(p.Data.Table["ActiveSpeed"], "*netdata.ListValue").Value) == 3 \
    and isdec(as_(p.Data.Table["ActiveSpeed"], "*netdata.ListValue").Value[0], c[0]) and isdec(as_(p.Data.Table["ActiveSpeed"], "*netdata.ListValue").Value[1], c[1]) and isdec(as_(p.Data.Table["ActiveSpeed"], "*netdata.ListValue").Value[2], c[2])
inline def report(result): return as_(result, "*netdata.PerfCounterPack")

func countertask.getAllCounterOnPack()
  for C24
  option helper
  option events-off
  assumes start: gh("!nsamples") == 0
  requires meters: meters()
  requires agent: agentok()
  requires cache: cacheok()
  modifies others("netio.TraceContext.StartTime", "conf.Configure", "[]interface{}"), ghost("$now"), ghost("$rt.goroutines"), ghost("$rt.cgocalls"), ghost("$rt.HeapAlloc"), ghost("$rt.PauseTotalNs"), ghost("$rt.NumGC"), ghost("!sent"), ghost("svc"), ghost("active"), ghost("activecounts"), ghost("txvals")
  ensures kind: is_(result, "*netdata.PerfCounterPack") and perf(report(result), 0, glob("conf.configure").ObjName, 1)
  ensures service: svcentries(report(result)) and gh("!svcperiod") == 30
  ensures go: goentries(report(result), glob("countertask.prevGoCounter"))
  ensures rates: gorates(old(glob("countertask.prevGoCounter")), glob("countertask.prevGoCounter"))
  ensures active: fltentry(report(result), "GoActiveService", gh("active").Avg) and gh("!activeperiod") == 30
  ensures speed: speeds(report(result), gh("activecounts"))
  ensures sampled: gh("!nsamples") == 1 and gh("!nseen") == 1 and gh("!sampled") == real(wrap("int64", wrap("int64", gh("activecounts")[0] + gh("activecounts")[1]) + gh("activecounts")[2]))
  ensures only: length(report(result).Data.Table) == 10

func countertask.getAll5MinCounterOnPack()
  for C24
  option helper
  requires meters: meters()
  modifies all("counter.Metering"), all("counter.ServiceBucket"), all("counter.ValueBucket"), ghost("$now"), glob("counter.serviceMetering"), ghost("svc"), ghost("active")
  ensures kind: is_(result, "*netdata.PerfCounterPack") and perf(report(result), 0, glob("conf.configure").ObjName, 3)
  ensures service: svcentries(report(result)) and gh("!svcperiod") == 300
  ensures active: fltentry(report(result), "GoActiveService", gh("active").Avg) and gh("!activeperiod") == 300
  ensures only: length(report(result).Data.Table) == 4

# The heartbeat: the name's text message first if the collector may not know it, then the object pack
inline def agentname(): return old(glob("conf.configure").ObjName)
inline def sentobj(): return as_(gh("!sent"), "*netdata.ObjectPack")

func agenttask.SendObjPack()
  for C24
  option events-post
  requires inv: lrainv(glob("netio.objNameSent")) and glob("netio.objNameSent").MaxEntries > 0
  requires agent: nonnil(glob("udpsender.ac"))
  requires untraced: not glob("udpsender.ac").TraceObjSend
  modifies mapof(glob("netio.objNameSent").table), list(glob("netio.objNameSent").lst), all("lra.entry.value"), chan(glob("udpsender.udpSender").udpChannel), ghost("!sent")
  ensures kind: is_(gh("!sent"), "*netdata.ObjectPack") and nonnil(sentobj()) and sentobj().ObjName == agentname() and sentobj().ObjHash == ite(agentname() == "", 0, -1 - crc32(agentname()))
  ensures identity: sentobj().ObjType == glob("conf.configure").ObjType and sentobj().Version == "0.0.0" and sentobj().Alive
  ensures known: implies(agentname() != "", known("netio.objNameSent", agentname()))
  events cond(agentname() == "" or old(known("netio.objNameSent", agentname())), EMPTY, textmsg("object", -1 - crc32(agentname()), agentname())) + EV("sendpack", packbytes(gh("!sent")))
