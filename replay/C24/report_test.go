// dir: scouterx/task/countertask with: udp_collector.go
package countertask

import (
	"fmt"
	"hash/crc32"
	"math"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter/gocounter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/agenttask"
)

func fail(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("FAILING-INPUT: "+f+"\n", a...)
	t.FailNow()
}

func num(v netdata.Value) float64 {
	switch x := v.(type) {
	case *netdata.DecimalValue:
		return float64(x.Value)
	case *netdata.Float32Value:
		return float64(x.Value)
	}
	return math.NaN()
}

// one pack, sent by f
func sent(t *testing.T, c *vColl, what string, f func()) netdata.Pack {
	c.drain()
	f()
	var ps []netdata.Pack
	for _, b := range c.drain() {
		if _, ok := vText(b); ok {
			continue
		}
		var p netdata.Pack
		var err error
		if len(b) > 0 && b[0] == 80 { // the agent's object pack
			p, err = netdata.NewObjectPack().Read(netdata.NewDataInputX(b[1:]))
		} else {
			p, err = netdata.NewDataInputX(b).ReadPack()
		}
		if err != nil {
			fail(t, "%s: sent % x", what, b)
		}
		ps = append(ps, p)
	}
	if len(ps) != 1 {
		fail(t, "%s: %d packs sent, want one", what, len(ps))
	}
	return ps[0]
}

func names(p *netdata.PerfCounterPack, want ...string) string {
	if p.Data == nil || len(p.Data.Table) != len(want) {
		return fmt.Sprint("entries ", p.Data)
	}
	for _, w := range want {
		if _, ok := p.Data.Table[w]; !ok {
			return "no entry " + w
		}
	}
	return ""
}
func service(p *netdata.PerfCounterPack, period int) string {
	c := counter.GetServiceMeter().GetAllCounter(period)
	for n, w := range map[string]float64{"GoTPS": float64(c.Tps), "GoElapsedTime": float64(c.Elapsed), "GoErrorRate": float64(c.ErrorRate)} {
		if g := num(p.Data.Table[n]); g != w && !(math.IsNaN(g) && math.IsNaN(w)) {
			return fmt.Sprintf("%s is %v, the meter's figure for %d s is %v", n, g, period, w)
		}
	}
	return ""
}
func goFigures(p *netdata.PerfCounterPack) string {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if g := num(p.Data.Table["Goroutine"]); math.Abs(g-float64(runtime.NumGoroutine())) > 8 {
		return fmt.Sprint("Goroutine is ", g, " of ", runtime.NumGoroutine())
	}
	if g := num(p.Data.Table["GoCgoCall"]); g > float64(runtime.NumCgoCall()) || g < 0 || runtime.NumCgoCall() > 1000 && g == 0 {
		return fmt.Sprint("GoCgoCall is ", g, " of ", runtime.NumCgoCall())
	}
	if g := num(p.Data.Table["GoHeapUsed"]); g < float64(m.HeapAlloc)/4 || g > float64(m.HeapAlloc)*4 {
		return fmt.Sprint("GoHeapUsed is ", g, " of ", m.HeapAlloc)
	}
	return ""
}
func retry(t *testing.T, what string, f func() string) {
	var e string
	for i := 0; i < 3; i++ {
		if e = f(); e == "" {
			return
		}
	}
	fail(t, "%s: %s", what, e)
}

func TestVerifReports(t *testing.T) {
	tctxmanager.RegisterEndStuckServiceForciblyFunc(func(*netio.TraceContext) {})
	c := vCollector()
	ac := conf.GetInstance()
	for i := 0; i < 4; i++ {
		go func() { select {} }()
	}
	hold := make([]byte, 40<<20)
	m := counter.GetServiceMeter()
	for round, n := range []int{0, 1, 7, 90} {
		for i := 0; i < n; i++ {
			m.Add(100*round+13*i, i%3 == 0)
		}
		// service report
		retry(t, fmt.Sprintf("service report after %d services", n), func() string {
			p, ok := sent(t, c, "SendServiceCounter", counter.SendServiceCounter).(*netdata.PerfCounterPack)
			if !ok || p.ObjName != ac.ObjName || p.Timetype != 1 {
				return fmt.Sprintf("%+v is no real-time report of %q", p, ac.ObjName)
			}
			if e := names(p, "GoTPS", "GoElapsedTime", "GoErrorRate"); e != "" {
				return e
			}
			return service(p, 30)
		})
		// the live report
		retry(t, fmt.Sprintf("report after %d services", n), func() string {
			p, ok := getAllCounterOnPack().(*netdata.PerfCounterPack)
			if !ok || p.ObjName != ac.ObjName || p.Timetype != 1 {
				return fmt.Sprintf("%+v is no real-time report of %q", p, ac.ObjName)
			}
			if e := names(p, "GoTPS", "GoElapsedTime", "GoErrorRate", "Goroutine", "GoCgoCall", "GoGcCount", "GoGcPause", "GoHeapUsed", "GoActiveService", "ActiveSpeed"); e != "" {
				return e
			}
			if e := goFigures(p); e != "" {
				return e
			}
			return service(p, 30)
		})
		retry(t, fmt.Sprintf("five-minute report after %d services", n), func() string {
			p, ok := getAll5MinCounterOnPack().(*netdata.PerfCounterPack)
			if !ok || p.ObjName != ac.ObjName || p.Timetype != 3 {
				return fmt.Sprintf("%+v is no five-minute report of %q", p, ac.ObjName)
			}
			if e := names(p, "GoTPS", "GoElapsedTime", "GoErrorRate", "GoActiveService"); e != "" {
				return e
			}
			return service(p, 300)
		})
	}
	runtime.KeepAlive(hold)
	// the runtime's figures: rates since the previous sample, zero for the first
	first := true
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		t0 := time.Now()
		p := sent(t, c, "SendGoCounter", counter.SendGoCounter).(*netdata.PerfCounterPack)
		if p.ObjName != ac.ObjName || p.Timetype != 1 {
			fail(t, "go report: %+v is no real-time report of %q", p, ac.ObjName)
		}
		if e := names(p, "Goroutine", "GoCgoCall", "GoGcCount", "GoGcPause", "GoHeapUsed"); e != "" {
			fail(t, "go report: %s", e)
		}
		if e := goFigures(p); e != "" {
			fail(t, "go report: %s", e)
		}
		if first && (num(p.Data.Table["GoGcCount"]) != 0 || num(p.Data.Table["GoGcPause"]) != 0) {
			fail(t, "first go report: GC figures %v %v, want 0", p.Data.Table["GoGcCount"], p.Data.Table["GoGcPause"])
		}
		first = false
		_ = t0
		_ = b
	}
	for i := 0; i < 4; i++ {
		p := gocounter.GetGoCounter(gocounter.GoCounter{})
		if p.GcPerSec != 0 || p.GcPausePerSec != 0 {
			fail(t, "first sample has rates %v %v", p.GcPerSec, p.GcPausePerSec)
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		p = gocounter.GetGoCounter(p)
		t0 := time.Now()
		for j := 0; j < 6*i; j++ {
			runtime.GC()
		}
		time.Sleep(250 * time.Millisecond)
		q := gocounter.GetGoCounter(p)
		runtime.ReadMemStats(&b)
		dt := time.Since(t0).Seconds()
		if w := float64(b.NumGC-a.NumGC) / dt; math.Abs(q.GcPerSec-w) > 0.3*w+4 {
			fail(t, "GC rate %v, want about %v (%d collections in %v s)", q.GcPerSec, w, b.NumGC-a.NumGC, dt)
		}
		if w := float64(b.PauseTotalNs-a.PauseTotalNs) / 1e6 / dt; math.Abs(q.GcPausePerSec-w) > 0.5*w+0.05 {
			fail(t, "GC pause %v ms/s, want about %v", q.GcPausePerSec, w)
		}
	}
	// heartbeat
	for i, name := range []string{ac.ObjName, ac.ObjName, "/host/one", "/host/two", "/host/one", ""} {
		typ := ac.ObjType
		if i == 3 {
			typ = "another"
		}
		p, ok := sent(t, c, "SendObjPack", func() { ac.ObjName, ac.ObjType = name, typ; agenttask.SendObjPack(); ac.ObjName, ac.ObjType = name, typ }).(*netdata.ObjectPack)
		if !ok || p.ObjName != ac.ObjName || p.ObjHash != int32(crc32.ChecksumIEEE([]byte(ac.ObjName))) || p.ObjType != ac.ObjType || p.Version != "0.0.0" || !p.Alive {
			fail(t, "heartbeat %+v, want name %q type %q version 0.0.0 alive", p, ac.ObjName, ac.ObjType)
		}
	}
}

func TestVerifActive(t *testing.T) {
	ac := conf.GetInstance()
	n := 0
	tctxmanager.RegisterEndStuckServiceForciblyFunc(func(x *netio.TraceContext) { n++ })
	yellow, red := ac.TraceActiveserviceYellowTime, ac.TraceActiveserviceRedTime
	var on []*netio.TraceContext
	// ages in ms; far from the thresholds by 1.5 s
	sets := [][]int{{}, {0}, {yellow - 1500}, {yellow + 1500}, {red - 1500}, {red + 1500}, {yellow + 1}, {yellow + 250}, {red + 1}, {red + 700}, {yellow - 700}, {yellow + 1500, red + 1500, 0, yellow + 1600, red + 9000, 10}, {400000, 0, 1, yellow + 1500}}
	big := make([]int, 1999)
	for i := range big {
		big[i] = []int{0, yellow + 2500, red + 2500}[i*7%3]
	}
	sets = append(sets, big, append(append([]int{}, big...), 0))
	for _, s := range sets {
		for _, x := range on {
			tctxmanager.End(x)
		}
		on = nil
		want := [3]int64{}
		for i, ms := range s {
			x := netio.NewTraceContext()
			x.Txid = int64(i + 1)
			x.StartTime = time.Now().Add(-time.Duration(ms) * time.Millisecond)
			tctxmanager.Start(x)
			on = append(on, x)
			switch {
			case ms <= yellow:
				want[0]++
			case ms <= red:
				want[1]++
			default:
				want[2]++
			}
		}
		if g := tctxmanager.GetActiveCount(); g != want {
			fail(t, "active services of ages %.200s ms (yellow over %d, red over %d) counted %v, want %v", fmt.Sprint(s), yellow, red, g, want)
		}
		if len(s) > 100 {
			continue
		}
		p, ok := getAllCounterOnPack().(*netdata.PerfCounterPack)
		if !ok {
			fail(t, "no report")
		}
		l, ok := p.Data.Table["ActiveSpeed"].(*netdata.ListValue)
		if !ok || len(l.Value) != 3 || num(l.Value[0]) != float64(want[0]) || num(l.Value[1]) != float64(want[1]) || num(l.Value[2]) != float64(want[2]) {
			fail(t, "active services of ages %v ms: report carries %v, want %v", s, p.Data.Table["ActiveSpeed"], want)
		}
	}
	for _, x := range on {
		tctxmanager.End(x)
	}
	// the reported number of active services is the mean over the samples of the window
	activeCounter = counter.NewValueMeter()
	tot := 0.0
	for k := 1; k <= 6; k++ {
		g := tctxmanager.GetActiveCount()
		tot += float64(g[0] + g[1] + g[2])
		p := getAllCounterOnPack().(*netdata.PerfCounterPack)
		if v := num(p.Data.Table["GoActiveService"]); math.Abs(v-tot/float64(k)) > 1e-3 {
			fail(t, "active services %v reported as %v, want %v", g, v, tot/float64(k))
		}
		for i := 0; i < k && k != 1; i++ {
			x := netio.NewTraceContext()
			x.Txid = int64(200000 + 10*k + i)
			x.StartTime = time.Now()
			tctxmanager.Start(x)
		}
	}
	_ = strings.Repeat
}
