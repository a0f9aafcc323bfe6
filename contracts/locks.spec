# Locking of the id generator and the runtime figures (C21); figures of the Go runtime (C24).
guard keygen.KeyGen.Mutex : math/rand.*

func keygen.Next()
  for C21
  option one-section
  option remember pkid
  assumes initialised: nonnil(glob("keygen.keygen")) and nonnil(glob("keygen.keygen").random)
  ensures id: result >= 0

inline def gorates(prev, c): return implies(prev.Timestamp == 0, c.GcPerSec == real(0) and c.GcPausePerSec == real(0)) and implies(prev.Timestamp != 0 and prev.Timestamp != c.Timestamp, \
    c.GcPerSec == real(wrap("int32", c.mNumGC - prev.mNumGC)) / real(wrap("int64", c.Timestamp - prev.Timestamp)) * real(1000000000) \
    and c.GcPausePerSec == real(wrap("int64", c.mPauseTotalNs - prev.mPauseTotalNs)) / real(wrap("int64", c.Timestamp - prev.Timestamp)) * real(1000))

func gocounter.GetGoCounter(prev)
  for C21 C24
  option one-section
  modifies ghost("$now"), ghost("$rt.goroutines"), ghost("$rt.cgocalls"), ghost("$rt.HeapAlloc"), ghost("$rt.PauseTotalNs"), ghost("$rt.NumGC")
  ensures time: result.Timestamp == gh("$now")
  ensures goroutines: result.GoroutineNum == gh("$rt.goroutines")
  ensures cgo: result.CgoCallNum == gh("$rt.cgocalls")
  ensures heap: result.HeapAlloc == wrap("int64", gh("$rt.HeapAlloc"))
  ensures pause: result.mPauseTotalNs == wrap("int64", gh("$rt.PauseTotalNs"))
  ensures gcs: result.mNumGC == wrap("int32", gh("$rt.NumGC"))
  ensures rates: gorates(prev, result)
