# Relations between transactions (C15): identifiers, callers and roots, outgoing API calls
# the Scouter text form of a 64-bit identifier: sign letter and magnitude in base 32 (decoding reads the magnitude and negates it after "z")
inline def xlogid(n): return ite(n < 0, "z", "x") + textof(ite(n < 0, wrap("int64", -n), n), 32)

func util.IntToXlogString32(num)
  for C15
  returns xlogid(num)

# what is registered to report a panic (netio.SendPanic) returns: it recovers from its own panics
funcspec common.report(message)
  events-as EMPTY

func common.Goid()
  for C15 C22
  option panics fork
  option streams-off
  assumes report: meets(glob("common.fSendPanic"), "common.report")
  returns _
  ensures number: true

func netio.NewTraceContext()
  for C15
  option view trace
  requires conf: nonnil(glob("netio.aconf")) and glob("netio.aconf").ProfileStepMaxKeepInMemoryCount > 0
  modifies ghost("$now"), ghost("pkid")
  returns _
  ensures new: fresh(result)
  ensures id: result.Txid == gh("pkid")
  ensures blank: result.Gxid == 0 and result.Caller == 0 and not result.IsChildTx and not result.Closed and result.Error == 0 and result.ApicallCount == 0 and result.ApicallTime == 0 and result.ServiceName == ""
  ensures started: nanos(result.StartTime) == gh("$now")
  ensures profile: fresh(result.Profile) and result.Profile.tctx == result and result.Profile.pos == 0 and fresh(result.Profile.steps) and length(result.Profile.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount

func tctxmanager.NewTraceContext(ctx)
  for C15
  option view trace
  requires ctx: nonnil(ctx)
  requires conf: nonnil(glob("netio.aconf")) and glob("netio.aconf").ProfileStepMaxKeepInMemoryCount > 0
  modifies ghost("$now"), ghost("pkid")
  ensures ctx: nonnil(result0) and traced(result0) and traceof(result0) == result1
  ensures new: fresh(result1) and result1.Txid == gh("pkid") and nanos(result1.StartTime) == gh("$now")
  ensures blank: result1.Gxid == 0 and result1.Caller == 0 and not result1.IsChildTx and not result1.Closed and result1.Error == 0 and result1.ApicallCount == 0 and result1.ApicallTime == 0 and result1.ServiceName == ""
  ensures profile: fresh(result1.Profile) and result1.Profile.tctx == result1 and result1.Profile.pos == 0 and fresh(result1.Profile.steps) and length(result1.Profile.steps) == glob("netio.aconf").ProfileStepMaxKeepInMemoryCount

inline def relenv(): return pcenv() and lrainv(txids())
# a new transaction is its own root
func strace.startService(ctx, serviceName, remoteAddr)
  for C15
  option helper
  option view trace
  option events-off
  requires ctx: nonnil(ctx)
  requires env: relenv()
  modifies mapof(txids().table), list(txids().lst), all("lra.entry.value"), ghost("$now"), ghost("pkid"), ghost("!sent")
  ensures ctx: nonnil(result0) and traced(result0) and traceof(result0) == result1
  ensures new: fresh(result1) and tctxok(result1) and fresh(result1.Profile) and fresh(result1.Profile.steps)
  ensures root: result1.Txid == gh("pkid") and result1.Gxid == result1.Txid and result1.Caller == 0 and not result1.IsChildTx
  ensures service: result1.ServiceName == serviceName and result1.ServiceHash == texthash(serviceName)
  ensures blank: not result1.Closed and result1.Error == 0 and result1.ApicallCount == 0 and result1.ApicallTime == 0
  ensures active: has(txids().table, box("int64", result1.Txid)) and lraval(txids(), box("int64", result1.Txid)) == box("*netio.TraceContext", result1)
  ensures cache: lrainv(txids())

func strace.StartService(ctx, serviceName, remoteIp)
  for C15
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), nonnil(traceof(ctx)))
  requires env: relenv()
  case traced:
    when nonnil(ctx) and traced(ctx)
    returns ctx
  case new:
    when ctx == nil or not traced(ctx)
    modifies mapof(txids().table), list(txids().lst), all("lra.entry.value"), ghost("$now"), ghost("pkid"), ghost("!sent")
    returns _
    ensures new: nonnil(result) and traced(result) and fresh(traceof(result))
    ensures root: traceof(result).Txid == gh("pkid") and traceof(result).Gxid == traceof(result).Txid and traceof(result).Caller == 0 and not traceof(result).IsChildTx
    ensures service: traceof(result).ServiceName == serviceName and traceof(result).ServiceHash == texthash(serviceName) and traceof(result).XType == 1
    ensures active: has(txids().table, box("int64", traceof(result).Txid)) and lraval(txids(), box("int64", traceof(result).Txid)) == box("*netio.TraceContext", traceof(result))

inline def child(t, p): return t.Caller == p.Txid and t.Gxid == ite(old(p.Gxid) == 0, p.Txid, old(p.Gxid)) and p.Gxid == t.Gxid
func strace.startChildGoroutineService(ctx, serviceName)
  for C15
  option helper
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case untraced:
    when ctx == nil or not traced(ctx)
    ensures same: result0 == ctx and result1 == nil
  case child:
    when nonnil(ctx) and traced(ctx)
    let p = traceof(ctx)
    modifies mapof(txids().table), list(txids().lst), all("lra.entry.value"), ghost("$now"), ghost("pkid"), ghost("!sent")
    modifies p.Gxid, p.Profile.pos, p.Profile.steps, elems(p.Profile.steps), p.Profile.currentLevel, p.ProfileCount, p.ProfileSize
    ensures ctx: nonnil(result0) and traced(result0) and traceof(result0) == result1
    ensures new: fresh(result1) and result1.Txid == gh("pkid") and result1.XType == 4
    ensures relation: child(result1, p)
    ensures service: result1.ServiceName == serviceName and result1.ServiceHash == texthash(serviceName)
    ensures recorded: is_(old(p.Profile.steps)[old(p.Profile.pos)], "*netdata.AsyncServiceStep") and as_(old(p.Profile.steps)[old(p.Profile.pos)], "*netdata.AsyncServiceStep").Txid == result1.Txid and as_(old(p.Profile.steps)[old(p.Profile.pos)], "*netdata.AsyncServiceStep").Hash == texthash(serviceName)
    ensures active: has(txids().table, box("int64", result1.Txid)) and lraval(txids(), box("int64", result1.Txid)) == box("*netio.TraceContext", result1)

func strace.inheritTctx(newTctx, parentTctx)
  for C15
  option helper
  option view trace
  option events-off
  requires trace: tctxok(newTctx) and nonnil(parentTctx) and newTctx != parentTctx and nonnil(glob("strace.ac"))
  requires env: relenv()
  let n = newTctx
  let p = parentTctx
  modifies deref(newTctx), n.Profile.pos, n.Profile.steps, elems(n.Profile.steps), n.Profile.currentLevel, ghost("$now"), ghost("!sent")
  ensures same: result == newTctx and n.Txid == old(n.Txid) and n.Profile == old(n.Profile) and n.Closed == old(n.Closed) and n.StartTime == old(n.StartTime)
  ensures service: n.ServiceName == old(n.ServiceName) and n.ServiceHash == old(n.ServiceHash)
  ensures relation: n.Caller == p.Txid and n.Gxid == p.Gxid and n.IsChildTx and n.Inherit
  ensures profile: tctxok(n)

func strace.StartNewInheritanceService(ctx, parentTctx)
  for C15
  option view trace
  option events-off
  requires trace: nonnil(parentTctx) and nonnil(glob("strace.ac"))
  requires env: relenv()
  let p = parentTctx
  modifies mapof(txids().table), list(txids().lst), all("lra.entry.value"), ghost("$now"), ghost("pkid"), ghost("!sent")
  ensures ctx: nonnil(result0) and traced(result0) and traceof(result0) == result1
  ensures new: fresh(result1) and result1.Txid == gh("pkid")
  ensures relation: result1.Caller == p.Txid and result1.Gxid == p.Gxid and result1.IsChildTx
  ensures service: result1.ServiceName == p.ServiceName and result1.ServiceHash == texthash(p.ServiceName)
  ensures active: has(txids().table, box("int64", result1.Txid)) and lraval(txids(), box("int64", result1.Txid)) == box("*netio.TraceContext", result1)

# ---- outgoing API calls
func strace.startApiCall(apiCallName, tctx, address)
  for C15
  option helper
  option view trace
  option events-off
  requires trace: tctxok(tctx)
  requires env: relenv()
  modifies tctx.Profile.currentLevel, tctx.Profile.parentLevel, ghost("$now"), ghost("pkid"), ghost("!sent")
  returns _
  ensures new: fresh(result) and result.Txid == gh("pkid")
  ensures call: result.Hash == texthash(apiCallName) and result.Address == address and (result.Opt == 1) == (address != "")
  ensures nested: tctx.Profile.parentLevel == old(tctx.Profile.currentLevel) and result.SingleStep.Index == old(tctx.Profile.currentLevel)

func strace.StartApiCall(ctx, apiCallName, address)
  for C15
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case untraced:
    when ctx == nil or not traced(ctx)
    returns nil
  case call:
    when nonnil(ctx) and traced(ctx)
    let t = traceof(ctx)
    modifies t.Profile.currentLevel, t.Profile.parentLevel, ghost("$now"), ghost("pkid"), ghost("!sent")
    returns _
    ensures new: fresh(result) and result.Txid == gh("pkid")
    ensures call: result.Hash == texthash(apiCallName) and result.Address == address and (result.Opt == 1) == (address != "")

func strace.StartApiCallWithPropagation(ctx, req, apiCallName, address)
  for C15
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires header: implies(nonnil(req), nonnil(req.Header)) and nonnil(glob("strace.ac"))
  requires env: relenv()
  case untraced:
    when ctx == nil or not traced(ctx)
    returns nil
  case call:
    when nonnil(ctx) and traced(ctx)
    let t = traceof(ctx)
    modifies t.Gxid, t.Profile.currentLevel, t.Profile.parentLevel, ghost("$now"), ghost("pkid"), ghost("!sent")
    returns _
    ensures new: fresh(result) and result.Txid == gh("pkid")
    ensures call: result.Hash == texthash(apiCallName) and result.Address == address and (result.Opt == 1) == (address != "")
    ensures root: t.Gxid == ite(old(t.Gxid) == 0, t.Txid, old(t.Gxid))
    ensures headers: implies(nonnil(req), header(req.Header, "X-Scouter-Gxid") == xlogid(t.Gxid) and header(req.Header, "X-Scouter-Caller") == xlogid(t.Txid) and header(req.Header, "X-Scouter-Callee") == xlogid(result.Txid))
    ensures single: implies(nonnil(req), headercount(req.Header, "X-Scouter-Gxid") == 1 and headercount(req.Header, "X-Scouter-Caller") == 1 and headercount(req.Header, "X-Scouter-Callee") == 1 and headercount(req.Header, "X-Scouter-Caller-Obj") == 1)
    ensures object: implies(nonnil(req), header(req.Header, "X-Scouter-Caller-Obj") == textof(glob("strace.ac").ObjHash, 10))

func strace.EndApiCall(ctx, step, err)
  for C15
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case nothing:
    when ctx == nil or step == nil or not traced(ctx)
    returns
  case end:
    when not (ctx == nil or step == nil or not traced(ctx))
    let t = traceof(ctx)
    let p = traceof(ctx).Profile
    modifies step.Elapsed, step.Error, t.ApicallCount, t.ApicallTime, t.Error, ghost("$now"), ghost("!sent")
    modifies p.pos, p.steps, elems(p.steps), p.parentLevel, t.ProfileCount, t.ProfileSize
    ensures one: t.ApicallCount == wrap("int32", old(t.ApicallCount) + 1)
    ensures time: t.ApicallTime == wrap("int32", old(t.ApicallTime) + step.Elapsed)
    ensures elapsed: within(t, wrap("int32", step.Elapsed + step.SingleStep.StartTime), old(gh("$now")), gh("$now"))
    ensures error: step.Error == ite(err == nil, old(step.Error), texthash(errtext(err)))
    ensures first: t.Error == ite(old(t.Error) != 0 or err == nil, old(t.Error), step.Error)
    ensures recorded: old(p.steps)[old(p.pos)] == box("*netdata.ApiCallStep", step) and p.parentLevel == old(step.SingleStep.Parent)
