# Instrumentation never disturbs the application (C22)
# ---- reporting the agent's own failure
func dump.StackTrace(count)
  for C22
  option streams-off
  requires count: count >= 0 and count < 100000
  returns _
  ensures text: true

# what common.RegisterSendPanicF is given: it handles its own failures (funcspec common.report)
func netio.SendPanic@barrier(message)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait

# ---- a new transaction context is never nil, if making it does not fail
func tctxmanager.NewTraceContext@mayfail(ctx)
  for C22
  option panics fork
  option faults any
  option mayfail
  option events-off
  option streams-off
  option frame-off
  ensures context: nonnil(result0)

func strace.startService@mayfail(ctx, serviceName, remoteAddr)
  for C22
  option helper
  option panics fork
  option faults any
  option mayfail
  option events-off
  option streams-off
  option frame-off
  assumes report: meets(glob("common.fSendPanic"), "common.report")
  ensures context: nonnil(result0)

# ---- entry points: whatever the arguments and whatever fails inside, nothing reaches the application and nothing waits
func strace.IsStream@barrier(ctx)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.SetAsStream@barrier(ctx)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.MarkAsError@barrier(ctx, errorMessage)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.MarkAsErrorForcibly@barrier(ctx, errorMessage)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.SetServiceNameForcibly@barrier(ctx, serviceName)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.AddStep@barrier(ctx, step)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.AddMessageStep@barrier(ctx, message)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.AddHashedMessageStep@barrier(ctx, message, value, elapsed)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.AddPMessageStep@barrier(ctx, level, message, elapsed, params)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartHttpService@barrier(ctx, req)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")
  returns _
  ensures context: nonnil(result)

func strace.EndHttpService@barrier(ctx, req, res)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartService@barrier(ctx, serviceName, remoteIp)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")
  returns _
  ensures context: nonnil(result)

func strace.EndService@barrier(ctx)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartNewInheritanceService@barrier(ctx, parentTctx)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")
  ensures context: nonnil(result0)

func strace.startChildGoroutineService@barrier(ctx, serviceName)
  for C22
  option helper
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.endChildGoroutineService@barrier(ctx)
  for C22
  option helper
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.endStuckServiceForcibly@barrier(tctx)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartMethod@barrier(ctx)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartMethodWithParam@barrier(ctx, params)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartCustomMethod@barrier(ctx, methodName)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartCustomMethodWithParam@barrier(ctx, methodName, params)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.EndMethod@barrier(ctx, step)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartApiCall@barrier(ctx, apiCallName, address)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.StartApiCallWithPropagation@barrier(ctx, req, apiCallName, address)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

func strace.EndApiCall@barrier(ctx, step, err)
  for C22
  option panics fork
  option faults any
  option events-off
  option streams-off
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")

# the application function of a traced goroutine is run exactly once, in a goroutine of its own
funcspec strace.traced(ctx)
  events EV("run")

func strace.GoWithTrace@barrier(ctx, serviceName, func4Goroutine)
  for C22
  option panics fork
  option faults any
  option spawn
  option frame-off
  option nowait
  assumes report: meets(glob("common.fSendPanic"), "common.report")
  assumes function: meets(func4Goroutine, "strace.traced")
  events EV("spawn") + EV("run")

# ---- without a transaction annotation calls change nothing and send nothing
inline def untraced(ctx): return ctx == nil or not traced(ctx)
func strace.IsStream@quiet(ctx)
  for C22
  case untraced:
    when untraced(ctx)
    returns false

func strace.SetAsStream@quiet(ctx)
  for C22
  case untraced:
    when untraced(ctx)
    returns false

func strace.MarkAsError@quiet(ctx, errorMessage)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.MarkAsErrorForcibly@quiet(ctx, errorMessage)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.SetServiceNameForcibly@quiet(ctx, serviceName)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.AddStep@quiet(ctx, step)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.AddMessageStep@quiet(ctx, message)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.AddHashedMessageStep@quiet(ctx, message, value, elapsed)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.AddPMessageStep@quiet(ctx, level, message, elapsed, params)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.endAnyService@quiet(ctx)
  for C22
  option helper
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.EndHttpService@quiet(ctx, req, res)
  for C22
  option view quiet
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.EndService@quiet(ctx)
  for C22
  option view quiet
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.startChildGoroutineService@quiet(ctx, serviceName)
  for C22
  option helper
  case untraced:
    when untraced(ctx)
    returns ctx, nil

func strace.endChildGoroutineService@quiet(ctx)
  for C22
  option view quiet
  option helper
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.StartMethod@quiet(ctx)
  for C22
  case untraced:
    when untraced(ctx)
    returns nil

func strace.StartMethodWithParam@quiet(ctx, params)
  for C22
  case untraced:
    when untraced(ctx)
    returns nil

func strace.StartCustomMethod@quiet(ctx, methodName)
  for C22
  option view quiet
  case untraced:
    when untraced(ctx)
    returns nil

func strace.StartCustomMethodWithParam@quiet(ctx, methodName, params)
  for C22
  case untraced:
    when untraced(ctx)
    returns nil

func strace.EndMethod@quiet(ctx, step)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

func strace.StartApiCall@quiet(ctx, apiCallName, address)
  for C22
  case untraced:
    when untraced(ctx)
    returns nil

func strace.StartApiCallWithPropagation@quiet(ctx, req, apiCallName, address)
  for C22
  case untraced:
    when untraced(ctx)
    returns nil

func strace.EndApiCall@quiet(ctx, step, err)
  for C22
  case untraced:
    when untraced(ctx)
    ensures done: true

# ---- a service started in a context that already has one keeps it
func strace.StartService@quiet(ctx, serviceName, remoteIp)
  for C22
  requires trace: implies(nonnil(ctx) and traced(ctx), nonnil(traceof(ctx)))
  case traced:
    when nonnil(ctx) and traced(ctx)
    returns ctx

func strace.StartHttpService@quiet(ctx, req)
  for C22
  requires trace: implies(nonnil(ctx) and traced(ctx), nonnil(traceof(ctx)))
  case traced:
    when nonnil(ctx) and traced(ctx)
    returns ctx
