// dir: scouterx/strace
package strace

import (
	"context"
	"errors"
	"fmt"
	"hash/crc32"
	"math"
	"math/rand"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func vFail15(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("FAILING-INPUT: "+f+"\n", a...)
	t.FailNow()
}

// the decoder of the Scouter text form
func vDecode(s string) (int64, error) {
	if len(s) < 2 {
		return 0, errors.New("short")
	}
	n, err := strconv.ParseInt(s[1:], 32, 64)
	switch s[0] {
	case 'x':
		return n, err
	case 'z':
		return -n, err
	}
	return 0, errors.New("prefix")
}
func vHash15(s string) int32 {
	if s == "" {
		return 0
	}
	return int32(crc32.ChecksumIEEE([]byte(s)))
}

type vErr string

func (e vErr) Error() string { return string(e) }

func TestVerifRelations(t *testing.T) {
	c := conf.GetInstance()
	c.NetCollectorIP, c.NetCollectorUDPPort = "127.0.0.1", 9
	r := rand.New(rand.NewSource(15))
	ids := []int64{0, 1, -1, 31, 32, -32, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, 1 << 40}
	for i := 0; i < 2000; i++ {
		ids = append(ids, int64(r.Uint64())>>uint(r.Intn(64)))
	}
	for _, n := range ids {
		s := util.IntToXlogString32(n)
		d, err := vDecode(s)
		if err != nil || d != n || (s[0] == 'z') != (n < 0) || s != strings.ToLower(s) {
			vFail15(t, "identifier %d has the text form %q", n, s)
		}
	}
	seen := map[int64]bool{}
	for trial := 0; trial < 300; trial++ {
		name := fmt.Sprint("/svc", r.Intn(4))
		ctx := StartService(context.Background(), name, "10.1.1.1:1234")
		p := tctxmanager.GetTraceContext(ctx)
		if p.Gxid != p.Txid || p.Caller != 0 || p.IsChildTx || p.ServiceName != name || p.ServiceHash != vHash15(name) {
			vFail15(t, "new transaction %q: id %d root %d caller %d child %v service %q %d", name, p.Txid, p.Gxid, p.Caller, p.IsChildTx, p.ServiceName, p.ServiceHash)
		}
		if seen[p.Txid] {
			vFail15(t, "transaction id %d used twice", p.Txid)
		}
		seen[p.Txid] = true
		if StartService(ctx, "again", "") != ctx {
			vFail15(t, "a transaction was started inside a traced context")
		}
		switch r.Intn(4) {
		case 0:
			p.Gxid = 0
		case 1:
			p.Gxid = ids[r.Intn(len(ids))]
		}
		root := p.Gxid
		if root == 0 {
			root = p.Txid
		}
		was := p.Gxid
		p.IsChildTx = r.Intn(2) == 0
		what := func() string { return fmt.Sprintf("parent %d with root %d", p.Txid, was) }
		switch r.Intn(3) {
		case 0: // child in another goroutine
			got := make(chan *netio.TraceContext, 1)
			GoWithTrace(ctx, "child", func(g context.Context) { got <- tctxmanager.GetTraceContext(g) })
			ch := <-got
			if ch == nil || ch == p || ch.Caller != p.Txid || ch.Gxid != root || p.Gxid != root || ch.Txid == p.Txid {
				vFail15(t, "%s: child %+v", what(), ch)
			}
			found := vSteps15(p) == nil
			for _, s := range vSteps15(p) {
				if a, ok := s.(*netdata.AsyncServiceStep); ok && a.Txid == ch.Txid && a.Hash == vHash15("child") {
					found = true
				}
			}
			if !found {
				vFail15(t, "%s: the start of the child %d is not recorded", what(), ch.Txid)
			}
		case 1:
			if was == 0 {
				break
			}
			g, ch := StartNewInheritanceService(context.Background(), p)
			if tctxmanager.GetTraceContext(g) != ch || ch == p || ch.Caller != p.Txid || ch.Gxid != was || !ch.IsChildTx || ch.Txid == p.Txid || ch.ServiceName != p.ServiceName {
				vFail15(t, "%s: inherited %+v", what(), ch)
			}
			tctxmanager.End(ch)
		}
		// outgoing calls
		n, total := int32(0), int32(0)
		first := int32(0)
		if r.Intn(3) == 0 {
			first = 77
			p.Error = first
		}
		for i := r.Intn(5); i >= 0; i-- {
			addr := []string{"", "host:80"}[r.Intn(2)]
			var st *netdata.ApiCallStep
			call := fmt.Sprint("call", i)
			if r.Intn(2) == 0 {
				st = StartApiCall(ctx, call, addr)
			} else {
				req, _ := http.NewRequest("GET", "http://h/x", nil)
				if r.Intn(2) == 0 { // a request sent before, or forwarded
					for _, k := range []string{"X-Scouter-Gxid", "X-Scouter-Caller", "X-Scouter-Callee", "X-Scouter-Caller-Obj"} {
						req.Header.Set(k, "x5")
					}
				}
				if r.Intn(3) == 0 {
					p.Gxid = []int64{0, -5, math.MinInt64}[r.Intn(3)]
				}
				was = p.Gxid
				root = p.Gxid
				if root == 0 {
					root = p.Txid
				}
				st = StartApiCallWithPropagation(ctx, req, call, addr)
				h := func(k string) int64 {
					if len(req.Header.Values(k)) != 1 {
						vFail15(t, "%s: header %s is %q", what(), k, req.Header.Values(k))
					}
					d, err := vDecode(req.Header.Get(k))
					if err != nil {
						vFail15(t, "%s: header %s is %q", what(), k, req.Header.Get(k))
					}
					return d
				}
				if a, b, d := h("X-Scouter-Gxid"), h("X-Scouter-Caller"), h("X-Scouter-Callee"); st == nil || a != root || b != p.Txid || d != st.Txid || p.Gxid != root {
					vFail15(t, "%s: propagated root %d caller %d callee %d for call %+v", what(), a, b, d, st)
				}
				if req.Header.Get("X-Scouter-Caller-Obj") != fmt.Sprint(c.ObjHash) {
					vFail15(t, "%s: propagated object %q, want %d", what(), req.Header.Get("X-Scouter-Caller-Obj"), c.ObjHash)
				}
			}
			if st == nil || st.Txid == 0 || seen[st.Txid] || st.Hash != vHash15(call) || st.Address != addr || (st.Opt == 1) != (addr != "") {
				vFail15(t, "%s: call %q to %q gave %+v", what(), call, addr, st)
			}
			seen[st.Txid] = true
			back := int32(r.Intn(3) * 1500)
			st.StartTime -= back
			var err error
			if r.Intn(3) == 0 {
				err = vErr([]string{"", "boom", "bang"}[r.Intn(3)])
			}
			if trial%50 == 0 {
				time.Sleep(3 * time.Millisecond)
			}
			EndApiCall(ctx, st, err)
			n++
			total += st.Elapsed
			if st.Elapsed < back || st.Elapsed > back+1000 {
				vFail15(t, "%s: a call begun %d ms ago has elapsed %d", what(), back, st.Elapsed)
			}
			e := int32(0)
			if err != nil {
				e = vHash15(err.Error())
			}
			if first == 0 {
				first = e
			}
			if p.ApicallCount != n || p.ApicallTime != total || st.Error != e || p.Error != first {
				vFail15(t, "%s: after %d calls of %d ms the transaction has %d calls, %d ms, error %d (want %d), call error %d (want %d)", what(), n, total, p.ApicallCount, p.ApicallTime, p.Error, first, st.Error, e)
			}
		}
		tctxmanager.End(p)
	}
}

func vSteps15(p *netio.TraceContext) []netdata.Step {
	f := reflect.ValueOf(p.Profile).Elem().FieldByName("steps")
	if !f.IsValid() {
		return nil
	}
	return *(*[]netdata.Step)(unsafe.Pointer(f.UnsafeAddr()))
}
