# The exported step operations (C12): each completed step reaches the collector of the context's transaction, once

# the step recorded by this call: the collector's slot of the moment before
inline def slot(p): return old(p.steps)[old(p.pos)]
inline def opens(s, p): return addr(s, "SingleStep").Index == old(p.currentLevel) and addr(s, "SingleStep").Parent == old(p.parentLevel)

func strace.EndMethod(ctx, step)
  for C12
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case nothing:
    when ctx == nil or step == nil or not traced(ctx)
    returns
  case end:
    when not (ctx == nil or step == nil or not traced(ctx))
    let t = traceof(ctx)
    let p = traceof(ctx).Profile
    modifies step.Elapsed, ghost("$now"), ghost("!sent")
    modifies p.pos, p.steps, elems(p.steps), p.parentLevel, t.ProfileCount, t.ProfileSize
    ensures elapsed: within(t, wrap("int32", step.Elapsed + step.SingleStep.StartTime), old(gh("$now")), gh("$now"))
    ensures recorded: slot(p) == box("*netdata.MethodStep", step) and p.parentLevel == old(step.SingleStep.Parent)

func strace.AddStep(ctx, step)
  for C12
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires step: nonnil(step) and (is_(step, "*netdata.MethodStep") or is_(step, "*netdata.MessageStep") or is_(step, "*netdata.ApiCallStep") or is_(step, "*netdata.HashedMessageStep") or is_(step, "*netdata.AsyncServiceStep") or is_(step, "*netdata.PMessageStep") or is_(step, "*netdata.SingleStep"))
  requires env: relenv()
  case nothing:
    when ctx == nil or not traced(ctx)
    returns
  case add:
    when nonnil(ctx) and traced(ctx)
    option frame-off
    let p = traceof(ctx).Profile
    ensures recorded: slot(p) == step and p.currentLevel == wrap("int32", old(p.currentLevel) + 1)

func strace.AddMessageStep(ctx, message)
  for C12
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case nothing:
    when ctx == nil or not traced(ctx)
    returns
  case add:
    when nonnil(ctx) and traced(ctx)
    let t = traceof(ctx)
    let p = traceof(ctx).Profile
    modifies p.pos, p.steps, elems(p.steps), p.currentLevel, t.ProfileCount, t.ProfileSize, ghost("$now"), ghost("!sent")
    ensures kind: is_(slot(p), "*netdata.MessageStep") and fresh(as_(slot(p), "*netdata.MessageStep"))
    ensures text: as_(slot(p), "*netdata.MessageStep").Message == message
    ensures nested: opens(as_(slot(p), "*netdata.MessageStep"), p) and p.currentLevel == wrap("int32", old(p.currentLevel) + 1)

func strace.AddHashedMessageStep(ctx, message, value, elapsed)
  for C12
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case nothing:
    when ctx == nil or not traced(ctx)
    returns
  case add:
    when nonnil(ctx) and traced(ctx)
    let t = traceof(ctx)
    let p = traceof(ctx).Profile
    modifies p.pos, p.steps, elems(p.steps), p.currentLevel, t.ProfileCount, t.ProfileSize, ghost("$now"), ghost("!sent")
    ensures kind: is_(slot(p), "*netdata.HashedMessageStep") and fresh(as_(slot(p), "*netdata.HashedMessageStep"))
    ensures values: as_(slot(p), "*netdata.HashedMessageStep").Value == value and as_(slot(p), "*netdata.HashedMessageStep").Time == elapsed and as_(slot(p), "*netdata.HashedMessageStep").Hash == texthash(message)
    ensures nested: opens(as_(slot(p), "*netdata.HashedMessageStep"), p) and p.currentLevel == wrap("int32", old(p.currentLevel) + 1)

func strace.AddPMessageStep(ctx, level, message, elapsed, params)
  for C12
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case nothing:
    when ctx == nil or not traced(ctx)
    returns
  case add:
    when nonnil(ctx) and traced(ctx)
    let t = traceof(ctx)
    let p = traceof(ctx).Profile
    modifies p.pos, p.steps, elems(p.steps), p.currentLevel, t.ProfileCount, t.ProfileSize, ghost("$now"), ghost("!sent")
    ensures kind: is_(slot(p), "*netdata.PMessageStep") and fresh(as_(slot(p), "*netdata.PMessageStep"))
    ensures values: as_(slot(p), "*netdata.PMessageStep").Level == level and as_(slot(p), "*netdata.PMessageStep").Elapsed == elapsed and as_(slot(p), "*netdata.PMessageStep").Hash == texthash(message)
    ensures nested: opens(as_(slot(p), "*netdata.PMessageStep"), p) and p.currentLevel == wrap("int32", old(p.currentLevel) + 1)

func strace.addMessageStepIfParamExist(tctx, params)
  for C12
  option helper
  option view trace
  option events-off
  let p = tctx.Profile
  requires trace: tctxok(tctx)
  requires env: relenv()
  case none:
    when length(params) == 0
    returns
  case some:
    when length(params) > 0
    option frame-off
    invariant ok: tctxok(tctx) and tctx.Profile == p
    invariant k: k <= length(params)
    invariant parent: p.parentLevel == old(p.parentLevel)
    ensures ok: tctxok(tctx) and tctx.Profile == p and p.parentLevel == old(p.parentLevel)

func strace.startMethodWithParam0(tctx, funcName, methodName, params)
  for C12
  option helper
  option view trace
  option events-off
  let p = tctx.Profile
  requires trace: tctxok(tctx)
  requires env: relenv()
  returns _
  ensures new: fresh(result) and result.Hash == texthash(methodName)
  ensures nested: result.SingleStep.Parent == old(p.parentLevel) and result.SingleStep.Index == wrap("int32", p.currentLevel - 1)
  ensures inside: p.parentLevel == result.SingleStep.Index
  case none:
    when length(params) == 0
    modifies p.currentLevel, p.parentLevel, tctx.LastMethod, ghost("$now"), ghost("!sent")
    ensures next: p.currentLevel == wrap("int32", old(p.currentLevel) + 1)
  case some:
    when length(params) > 0
    option frame-off

func strace.StartCustomMethodWithParam(ctx, methodName, params)
  for C12
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case nothing:
    when ctx == nil or not traced(ctx)
    returns nil
  case none:
    when nonnil(ctx) and traced(ctx) and length(params) == 0
    let t = traceof(ctx)
    let p = traceof(ctx).Profile
    modifies p.currentLevel, p.parentLevel, t.LastMethod, ghost("$now"), ghost("!sent")
    returns _
    ensures new: fresh(result) and result.Hash == texthash(methodName)
    ensures nested: opens(result, p) and p.currentLevel == wrap("int32", old(p.currentLevel) + 1) and p.parentLevel == old(p.currentLevel)

func strace.StartMethod(ctx)
  for C12
  option view trace
  option events-off
  requires trace: implies(nonnil(ctx) and traced(ctx), tctxok(traceof(ctx)))
  requires env: relenv()
  case nothing:
    when ctx == nil or not traced(ctx)
    returns nil
  case none:
    when nonnil(ctx) and traced(ctx)
    let t = traceof(ctx)
    let p = traceof(ctx).Profile
    modifies p.currentLevel, p.parentLevel, t.LastMethod, ghost("$now"), ghost("!sent")
    returns _
    ensures new: fresh(result)
    ensures nested: opens(result, p) and p.currentLevel == wrap("int32", old(p.currentLevel) + 1) and p.parentLevel == old(p.currentLevel)
