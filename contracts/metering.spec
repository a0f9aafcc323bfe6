# Meters (C17): a ring of 301 buckets, one per second; the bucket of second t is the one at position t % 301.
guard counter.Metering.Mutex : counter.Metering.time counter.Metering.pos
guard counter.ServiceMetering.Mutex : counter.ServiceBucket.*
guard counter.ValueMetering.Mutex : counter.ValueBucket.*
inline def now(): return gh("$now") // 1000000000
inline def ringinv(m, T): return nonnil(m) and m.bucketSize == 301 and length(m.table) == 301 and 0 <= m.time and m.pos == m.time % 301 \
    and forall(0, 301, lambda q: is_(m.table[q], T) and nonnil(as_(m.table[q], T))) \
    and forall(0, 301, lambda q: forall(0, 301, lambda r: implies(m.table[q] == m.table[r], q == r)))
inline def sb(m, q): return as_(m.table[q], "*counter.ServiceBucket")
inline def vb(m, q): return as_(m.table[q], "*counter.ValueBucket")
inline def sinv(m): return ringinv(m, "*counter.ServiceBucket") and meets(m.clear, "clearservice")
inline def vinv(m): return ringinv(m, "*counter.ValueBucket") and meets(m.clear, "clearvalue")
# seconds between t and the next time position q comes up: 1 .. 301
inline def dist(q, t): return (q - t - 1) % 301 + 1

funcspec clearservice(b)
  option holds counter.ServiceMetering.Mutex
  requires kind: is_(b, "*counter.ServiceBucket") and nonnil(as_(b, "*counter.ServiceBucket"))
  modifies deref(as_(b, "*counter.ServiceBucket"))
  ensures cleared: as_(b, "*counter.ServiceBucket").count == 0 and as_(b, "*counter.ServiceBucket").elapsed == 0 and as_(b, "*counter.ServiceBucket").error == 0
funcspec clearvalue(b)
  option holds counter.ValueMetering.Mutex
  requires kind: is_(b, "*counter.ValueBucket") and nonnil(as_(b, "*counter.ValueBucket"))
  modifies deref(as_(b, "*counter.ValueBucket"))
  ensures cleared: as_(b, "*counter.ValueBucket").count == 0 and as_(b, "*counter.ValueBucket").value == 0

# the bucket contents after the clock moved from t0 to m.time: the seconds since t0 start empty
inline def rolled(m, q, t0, v): return ite(dist(q, t0) <= m.time - t0, 0, v)
inline def rolledr(m, q, t0, v): return ite(dist(q, t0) <= m.time - t0, real(0), v)

func (*counter.Metering).getPosition(m)
  for C17 C21
  option helper
  assumes clock: m.time <= now()
  modifies m.time, m.pos, ghost("$now")
  invariant time: m.time == old(m.time)
  invariant pos: m.pos == (old(m.time) + k) % 301
  ensures now: m.time == now() and m.time >= old(m.time)
  ensures pos: result == m.time % 301
  case service:
    option holds counter.ServiceMetering.Mutex
    when sinv(m)
    modifies all("counter.ServiceBucket")
    invariant count: forall(0, 301, lambda q: sb(m, q).count == ite(dist(q, old(m.time)) <= k, 0, old(sb(m, q).count)))
    invariant elapsed: forall(0, 301, lambda q: sb(m, q).elapsed == ite(dist(q, old(m.time)) <= k, 0, old(sb(m, q).elapsed)))
    invariant error: forall(0, 301, lambda q: sb(m, q).error == ite(dist(q, old(m.time)) <= k, 0, old(sb(m, q).error)))
    ensures inv: sinv(m)
    ensures count: forall(0, 301, lambda q: sb(m, q).count == rolled(m, q, old(m.time), old(sb(m, q).count)))
    ensures elapsed: forall(0, 301, lambda q: sb(m, q).elapsed == rolled(m, q, old(m.time), old(sb(m, q).elapsed)))
    ensures error: forall(0, 301, lambda q: sb(m, q).error == rolled(m, q, old(m.time), old(sb(m, q).error)))
  case value:
    option holds counter.ValueMetering.Mutex
    when vinv(m)
    modifies all("counter.ValueBucket")
    invariant count: forall(0, 301, lambda q: vb(m, q).count == ite(dist(q, old(m.time)) <= k, 0, old(vb(m, q).count)))
    invariant value: forall(0, 301, lambda q: vb(m, q).value == ite(dist(q, old(m.time)) <= k, real(0), old(vb(m, q).value)))
    ensures inv: vinv(m)
    ensures count: forall(0, 301, lambda q: vb(m, q).count == rolled(m, q, old(m.time), old(vb(m, q).count)))
    ensures value: forall(0, 301, lambda q: vb(m, q).value == rolledr(m, q, old(m.time), old(vb(m, q).value)))

# a sample is counted in the bucket of the second it was added in, every other bucket only ages
func (*counter.ServiceMetering).Add(g, elapsed, err)
  for C17 C21
  option one-section
  let m = g.metering
  requires inv: nonnil(g) and sinv(m)
  assumes clock: m.time <= now()
  modifies m.time, m.pos, all("counter.ServiceBucket"), ghost("$now")
  ensures inv: sinv(m)
  ensures now: m.time == now() and m.time >= old(m.time)
  ensures count: forall(0, 301, lambda q: sb(m, q).count == wrap("int", rolled(m, q, old(m.time), old(sb(m, q).count)) + ite(q == m.time % 301, 1, 0)))
  ensures elapsed: forall(0, 301, lambda q: sb(m, q).elapsed == wrap("int", rolled(m, q, old(m.time), old(sb(m, q).elapsed)) + ite(q == m.time % 301 and elapsed > 0, elapsed, 0)))
  ensures error: forall(0, 301, lambda q: sb(m, q).error == wrap("int", rolled(m, q, old(m.time), old(sb(m, q).error)) + ite(q == m.time % 301 and err, 1, 0)))

inline def win(period): return ite(period >= 301, 300, period)
func (*counter.ServiceMetering).GetAllCounter(g, period)
  for C17 C21 C24
  option remember svc
  sets ghost("!svcperiod") := period
  option one-section
  let m = g.metering
  let n = win(period)
  requires inv: nonnil(g) and sinv(m)
  requires period: period >= 1
  assumes clock: m.time <= now()
  modifies m.time, m.pos, all("counter.ServiceBucket"), ghost("$now")
  invariant-each int x == (m.time - k) % 301
  invariant-sum total(k, lambda i: sb(m, (m.time - i) % 301).count)
  invariant-sum total(k, lambda i: sb(m, (m.time - i) % 301).elapsed)
  invariant-sum total(k, lambda i: sb(m, (m.time - i) % 301).error)
  ensures some: nonnil(result)
  ensures inv: sinv(m)
  ensures now: m.time == now() and m.time >= old(m.time)
  ensures count: forall(0, 301, lambda q: sb(m, q).count == rolled(m, q, old(m.time), old(sb(m, q).count)))
  ensures elapsed: forall(0, 301, lambda q: sb(m, q).elapsed == rolled(m, q, old(m.time), old(sb(m, q).elapsed)))
  ensures error: forall(0, 301, lambda q: sb(m, q).error == rolled(m, q, old(m.time), old(sb(m, q).error)))
  ensures tps: result.Tps == real(wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).count))) / real(n)
  ensures mean: implies(wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).count)) > 0 and wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).elapsed)) >= 0, \
    result.Elapsed == wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).elapsed)) // wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).count)))
  ensures errors: implies(wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).count)) != 0, \
    result.ErrorRate == real(wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).error))) / real(wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).count))) * real(100))
  ensures idle: implies(wrap("int", total(n, lambda i: sb(m, (m.time - i) % 301).count)) == 0, result.Elapsed == 0 and result.ErrorRate == real(0))

func (*counter.ValueMetering).Add(g, value)
  for C17 C21
  option ghosttype !sampled float64
  sets ghost("!sampled") := value
  sets ghost("!nsamples") := gh("!nsamples") + 1
  option one-section
  let m = g.metering
  requires inv: nonnil(g) and vinv(m)
  assumes clock: m.time <= now()
  modifies m.time, m.pos, all("counter.ValueBucket"), ghost("$now")
  ensures inv: vinv(m)
  ensures now: m.time == now() and m.time >= old(m.time)
  ensures count: forall(0, 301, lambda q: vb(m, q).count == wrap("int32", rolled(m, q, old(m.time), old(vb(m, q).count)) + ite(q == m.time % 301, 1, 0)))
  ensures value: forall(0, 301, lambda q: vb(m, q).value == rolledr(m, q, old(m.time), old(vb(m, q).value)) + ite(q == m.time % 301, value, real(0)))

func (*counter.ValueMetering).GetAllCounter(g, period)
  for C17 C21 C24
  option remember active
  sets ghost("!activeperiod") := period
  sets ghost("!nseen") := gh("!nsamples")
  option one-section
  let m = g.metering
  let n = win(period)
  requires inv: nonnil(g) and vinv(m)
  requires period: period >= 1
  assumes clock: m.time <= now()
  modifies m.time, m.pos, all("counter.ValueBucket"), ghost("$now")
  invariant-each int x == (m.time - k) % 301
  invariant-sum total(k, lambda i: vb(m, (m.time - i) % 301).count)
  invariant-sum total(k, lambda i: vb(m, (m.time - i) % 301).value)
  ensures some: nonnil(result)
  ensures inv: vinv(m)
  ensures now: m.time == now() and m.time >= old(m.time)
  ensures count: forall(0, 301, lambda q: vb(m, q).count == rolled(m, q, old(m.time), old(vb(m, q).count)))
  ensures value: forall(0, 301, lambda q: vb(m, q).value == rolledr(m, q, old(m.time), old(vb(m, q).value)))
  ensures sum: result.Sum == total(n, lambda i: vb(m, (m.time - i) % 301).value)
  ensures mean: implies(wrap("int32", total(n, lambda i: vb(m, (m.time - i) % 301).count)) != 0, \
    result.Avg == result.Sum / real(wrap("int32", total(n, lambda i: vb(m, (m.time - i) % 301).count))))
  ensures idle: implies(wrap("int32", total(n, lambda i: vb(m, (m.time - i) % 301).count)) == 0, result.Avg == real(0))

inline def filled(t, k, T): return forall(0, k, lambda q: is_(t[q], T) and nonnil(as_(t[q], T))) and forall(0, k, lambda q: forall(0, k, lambda r: implies(t[q] == t[r], q == r)))
func counter.NewValueMeter()
  for C17
  modifies ghost("$now")
  invariant filled: filled(local("*counter.Metering").table, k, "*counter.ValueBucket")
  invariant empty: forall(0, k, lambda q: vb(local("*counter.Metering"), q).count == 0 and vb(local("*counter.Metering"), q).value == real(0))
  ensures inv: nonnil(result) and vinv(result.metering)
  ensures now: result.metering.time == now()
  ensures empty: forall(0, 301, lambda q: vb(result.metering, q).count == 0 and vb(result.metering, q).value == real(0))

inline def metersok(): return implies(done("counter.onceServiceMetering"), nonnil(glob("counter.serviceMetering")) and sinv(glob("counter.serviceMetering").metering))
func counter.GetServiceMeter()
  for C17
  modifies ghost("$now"), glob("counter.serviceMetering")
  requires inv: metersok()
  invariant filled: filled(local("*counter.Metering").table, k, "*counter.ServiceBucket")
  invariant empty: forall(0, k, lambda q: sb(local("*counter.Metering"), q).count == 0 and sb(local("*counter.Metering"), q).elapsed == 0 and sb(local("*counter.Metering"), q).error == 0)
  ensures inv: nonnil(result) and sinv(result.metering)
  ensures shared: result == glob("counter.serviceMetering")
  ensures once: implies(old(done("counter.onceServiceMetering")), result == old(glob("counter.serviceMetering")))
  ensures empty: implies(not old(done("counter.onceServiceMetering")), result.metering.time == now() and forall(0, 301, lambda q: sb(result.metering, q).count == 0 and sb(result.metering, q).elapsed == 0 and sb(result.metering, q).error == 0))
