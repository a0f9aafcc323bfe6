// dir: scouterx/strace with: udp_collector.go
package strace

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func vFail22(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("FAILING-INPUT: "+f+"\n", a...)
	t.FailNow()
}

type vBadCtx struct{ context.Context }

func (vBadCtx) Value(key interface{}) interface{} { panic("context value") }

type vBadErr struct{}

func (vBadErr) Error() string { panic("error text") }

type vBadStep struct{ *netdata.MessageStep }

func (vBadStep) SetIndex(int32) { panic("step") }

var vServiceStart context.Context

func vGuard(t *testing.T, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			vFail22(t, "%s: a panic reached the application: %v", what, r)
		}
	case <-time.After(20 * time.Second):
		vFail22(t, "%s: did not return within 20 s", what)
	}
}

func TestVerifDisturb(t *testing.T) {
	col := vCollector()
	bg := context.Background()
	good := StartService(bg, "verif", "127.0.0.1")
	gone := StartService(bg, "verif", "127.0.0.1")
	EndService(gone)
	broken, bt := tctxmanager.NewTraceContext(bg)
	bt.Profile = nil
	ctxs := []struct {
		n string
		c context.Context
	}{{"nil ctx", nil}, {"untraced ctx", bg}, {"traced ctx", good}, {"ended ctx", gone}, {"ctx whose transaction has no profile", broken}, {"ctx whose Value panics", vBadCtx{bg}}}
	steps := []struct {
		n string
		s netdata.Step
	}{{"nil step", nil}, {"nil *MessageStep", (*netdata.MessageStep)(nil)}, {"step that panics", vBadStep{}}, {"step", netdata.NewMessageStep("m", 1)}}
	reqs := []struct {
		n string
		r *http.Request
	}{{"nil request", nil}, {"empty request", &http.Request{}}, {"request", &http.Request{URL: &url.URL{Path: "/v"}, Header: http.Header{}, Method: "GET", RemoteAddr: "127.0.0.1:1"}}}
	for _, reporter := range []string{"netio.SendPanic", "none"} {
		if reporter == "none" {
			common.RegisterSendPanicF(nil)
		} else {
			common.RegisterSendPanicF(netio.SendPanic)
		}
		for _, c := range ctxs {
			w := c.n + ", reporter " + reporter
			x := c.c
			vGuard(t, "IsStream("+w+")", func() { IsStream(x) })
			vGuard(t, "SetAsStream("+w+")", func() { SetAsStream(x) })
			for _, m := range []string{"", "m", strings.Repeat("x", 70000)} {
				vGuard(t, "MarkAsError("+w+")", func() { MarkAsError(x, m) })
				vGuard(t, "MarkAsErrorForcibly("+w+")", func() { MarkAsErrorForcibly(x, m) })
				vGuard(t, "SetServiceNameForcibly("+w+")", func() { SetServiceNameForcibly(x, m) })
				vGuard(t, "AddMessageStep("+w+")", func() { AddMessageStep(x, m) })
				vGuard(t, "AddHashedMessageStep("+w+")", func() { AddHashedMessageStep(x, m, -1, -1) })
				vGuard(t, "AddPMessageStep("+w+")", func() { AddPMessageStep(x, netdata.PMSG_ERROR, m, 0); AddPMessageStep(x, 0, m, 0, m, m) })
				vGuard(t, "StartCustomMethod("+w+")", func() { StartCustomMethod(x, m) })
				vGuard(t, "StartCustomMethodWithParam("+w+")", func() { StartCustomMethodWithParam(x, m, nil, 1, vBadErr{}) })
				vGuard(t, "StartApiCall("+w+")", func() { StartApiCall(x, m, m) })
			}
			for _, s := range steps {
				vGuard(t, "AddStep("+w+", "+s.n+")", func() { AddStep(x, s.s) })
			}
			vGuard(t, "StartMethod("+w+")", func() { StartMethod(x) })
			vGuard(t, "StartMethodWithParam("+w+")", func() { StartMethodWithParam(x, nil, "a", vBadErr{}) })
			vGuard(t, "EndMethod("+w+", nil)", func() { EndMethod(x, nil) })
			vGuard(t, "EndMethod("+w+", unknown step)", func() { EndMethod(x, netdata.NewMethodStep()) })
			vGuard(t, "EndApiCall("+w+", nil step)", func() { EndApiCall(x, nil, errors.New("e")) })
			vGuard(t, "EndApiCall("+w+", error that panics)", func() { EndApiCall(x, netdata.NewApiCallStep(), vBadErr{}) })
			vGuard(t, "EndApiCall("+w+", nil error)", func() { EndApiCall(x, netdata.NewApiCallStep(), nil) })
			for _, r := range reqs {
				vGuard(t, "StartApiCallWithPropagation("+w+", "+r.n+")", func() { StartApiCallWithPropagation(x, r.r, "a", "b") })
				vGuard(t, "StartHttpService("+w+", "+r.n+")", func() {
					if StartHttpService(x, r.r) == nil {
						vFail22(t, "StartHttpService(%s, %s) handed back a nil context", w, r.n)
					}
				})
				if c.n != "traced ctx" {
					vGuard(t, "EndHttpService("+w+", "+r.n+")", func() { EndHttpService(x, r.r, &http.Response{}); EndHttpService(x, r.r, nil) })
				}
			}
			vGuard(t, "StartService("+w+")", func() {
				for _, n := range []string{"", "n"} {
					if StartService(x, n, n) == nil {
						vFail22(t, "StartService(%s) handed back a nil context", w)
					}
				}
			})
			for _, p := range []*netio.TraceContext{nil, {}, bt, tctxmanager.GetTraceContext(good)} {
				vGuard(t, "StartNewInheritanceService("+w+")", func() {
					if n, _ := StartNewInheritanceService(x, p); n == nil {
						vFail22(t, "StartNewInheritanceService(%s) handed back a nil context", w)
					}
				})
			}
			if c.n != "traced ctx" {
				vGuard(t, "EndService("+w+")", func() { EndService(x) })
			}
			// the function of a traced goroutine
			var n int32
			release := make(chan struct{})
			vGuard(t, "GoWithTrace("+w+")", func() {
				GoWithTrace(x, "g", func(context.Context) { atomic.AddInt32(&n, 1); <-release })
			})
			for i := 0; i < 200 && atomic.LoadInt32(&n) == 0; i++ {
				time.Sleep(5 * time.Millisecond)
			}
			close(release)
			time.Sleep(60 * time.Millisecond)
			if k := atomic.LoadInt32(&n); k != 1 {
				vFail22(t, "GoWithTrace(%s): the function ran %d times", w, k)
			}
		}
		for _, p := range []*netio.TraceContext{nil, {}, bt} {
			vGuard(t, "endStuckServiceForcibly, reporter "+reporter, func() { endStuckServiceForcibly(p) })
		}
	}
	common.RegisterSendPanicF(netio.SendPanic)
	vGuard(t, "SendPanic(long)", func() { netio.SendPanic(strings.Repeat("x", 200000)) })

	// nothing is sent and nothing changes without a transaction
	time.Sleep(300 * time.Millisecond)
	col.drain()
	before := tctxmanager.GetAllTctx()
	for k, x := range []context.Context{nil, bg, context.WithValue(bg, "k", "v")} {
		name := fmt.Sprintf("untraced-%d-%d", k, time.Now().UnixNano())
		ms, as := netdata.NewMethodStep(), netdata.NewApiCallStep()
		ms.Elapsed, as.Elapsed = 77, 78
		req := &http.Request{URL: &url.URL{Path: "/v"}, Header: http.Header{}, Method: "GET"}
		if IsStream(x) || SetAsStream(x) {
			vFail22(t, "untraced context %d is reported as a stream", k)
		}
		MarkAsError(x, name+"a"); MarkAsErrorForcibly(x, name+"b"); SetServiceNameForcibly(x, name+"c")
		AddStep(x, ms); AddMessageStep(x, name+"d"); AddHashedMessageStep(x, name+"e", 1, 1); AddPMessageStep(x, 1, name+"f", 1)
		if StartMethod(x) != nil || StartMethodWithParam(x, 1) != nil || StartCustomMethod(x, name+"g") != nil || StartCustomMethodWithParam(x, name+"g", 1) != nil || StartApiCall(x, name+"h", "") != nil || StartApiCallWithPropagation(x, req, name+"i", "") != nil {
			vFail22(t, "a step was started without a transaction (context %d)", k)
		}
		EndMethod(x, ms); EndApiCall(x, as, errors.New(name+"j")); EndService(x); EndHttpService(x, req, &http.Response{StatusCode: 3}); EndHttpService(x, req, nil)
		if len(req.Header) != 0 {
			vFail22(t, "headers were added without a transaction (context %d): %v", k, req.Header)
		}
		if ms.Elapsed != 77 || as.Elapsed != 78 || as.Error != 0 {
			vFail22(t, "a step was changed without a transaction (context %d)", k)
		}
	}
	time.Sleep(1200 * time.Millisecond)
	if p := vOther(col.drain()); len(p) != 0 {
		vFail22(t, "%d packs were sent by annotation calls without a transaction, first %T", len(p), p[0])
	}
	if after := tctxmanager.GetAllTctx(); len(after) != len(before) {
		vFail22(t, "the active transactions changed from %d to %d", len(before), len(after))
	}
	// a traced context keeps its transaction
	c := StartService(bg, "keep", "")
	if StartService(c, "other", "") != c || StartHttpService(c, reqs[2].r) != c || tctxmanager.GetTraceContext(c).ServiceName != "keep" {
		vFail22(t, "starting a service in a traced context replaced its transaction")
	}
}

func vOther(ps [][]byte) (out [][]byte) {
	for _, p := range ps {
		if x, ok := vText(p); !ok || string(x.Xtype) != vMark {
			out = append(out, p)
		}
	}
	return
}
