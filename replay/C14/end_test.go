// dir: scouterx/strace with: udp_collector.go
package strace

import (
	"context"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand"
	"net/http"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func vFail14(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("FAILING-INPUT: "+f+"\n", a...)
	t.FailNow()
}

// a summary as "name=value" pairs, in the layout of the wire protocol
func vXlog(b []byte) (m map[string]string, txid int64) {
	d := netdata.NewDataInputX(b[1:])
	blob, err := d.ReadBlob()
	if err != nil {
		return nil, 0
	}
	in := netdata.NewDataInputX(blob)
	m = map[string]string{}
	dec := func(n string) { v, _ := in.ReadDecimal(); m[n] = fmt.Sprint(v) }
	str := func(n string) { v, _ := in.ReadString(); m[n] = v }
	u8 := func(n string) { v, _ := in.ReadUInt8(); m[n] = fmt.Sprint(v) }
	i64 := func(n string) int64 { v, _ := in.ReadInt64(); m[n] = fmt.Sprint(v); return v }
	dec("end")
	dec("obj")
	dec("service")
	txid = i64("txid")
	i64("caller")
	i64("gxid")
	dec("elapsed")
	dec("error")
	dec("cpu")
	dec("sqlcount")
	dec("sqltime")
	ip, _ := in.ReadBlob()
	m["ip"] = fmt.Sprint(ip)
	dec("kbytes")
	dec("status")
	dec("userid")
	dec("useragent")
	dec("referer")
	dec("group")
	dec("apicount")
	dec("apitime")
	str("country")
	dec("city")
	u8("xtype")
	dec("login")
	dec("desc")
	dec("webhash")
	dec("webtime")
	u8("dump")
	dec("thread")
	str("text1")
	str("text2")
	dec("q1")
	dec("q2")
	dec("q3")
	dec("q4")
	str("text3")
	str("text4")
	str("text5")
	dec("count")
	u8("b3")
	dec("size")
	u8("discard")
	u8("ignore")
	return m, txid
}

func vHash(s string) int32 {
	if s == "" {
		return 0
	}
	return int32(crc32.ChecksumIEEE([]byte(s)))
}

func vSetenv(k string, v interface{}) { os.Setenv(k, fmt.Sprint(v)) }

func TestVerifEnd(t *testing.T) {
	rand.Seed(5)
	r := rand.New(rand.NewSource(14))
	c := conf.GetInstance()
	col := vCollector()
	s := GetXlogSampler()
	time.Sleep(50 * time.Millisecond)
	XLOG, PROFILE := netdata.NewXlogPack().GetPackType(), netdata.NewXlogProfilePack().GetPackType()
	vSetenv("trace_http_client_ip_header_key", "")
	ended, errs, started := 0, 0, time.Now()
	for trial := 0; trial < 160; trial++ {
		// sampling: off, everything dropped, profile dropped, dropped by pattern
		mode := r.Intn(4)
		c.XlogSamplingEnabled, c.XlogSamplingOnlyProfile = mode == 1 || mode == 2, mode == 2
		c.XlogSamplingStep1RatePct, c.XlogSamplingStep2RatePct, c.XlogSamplingStep3RatePct, c.XlogSamplingOverRatePct = 0, 0, 0, 0
		c.XlogDiscardServicePatterns = ""
		if mode == 3 {
			c.XlogDiscardServicePatterns = "/drop*"
		}
		c.ProfileStepMaxKeepInMemoryCount, c.ProfileStepMaxCount = 2048, 1+r.Intn(8)
		vSetenv("xlog_sampling_enabled", c.XlogSamplingEnabled)
		vSetenv("xlog_sampling_only_profile", c.XlogSamplingOnlyProfile)
		for _, k := range []string{"step1", "step2", "step3", "over"} {
			vSetenv("xlog_sampling_"+k+"_rate_pct", 0)
		}
		vSetenv("xlog_discard_service_patterns", c.XlogDiscardServicePatterns)
		vSetenv("profile_step_max_count", c.ProfileStepMaxCount)
		s.Run()
		col.drain()

		name := []string{"/keep", "/drop/me", "/x<GET>", ""}[r.Intn(4)]
		ctx := StartService(context.Background(), name, "10.0.0.1:80")
		tc := tctxmanager.GetTraceContext(ctx)
		others := []context.Context{StartService(context.Background(), "other", "1.2.3.4"), StartService(context.Background(), name, "1.2.3.4")}
		steps := 1
		if r.Intn(2) == 0 {
			AddMessageStep(ctx, "hello")
			steps++
		}
		if r.Intn(2) == 0 {
			for i := r.Intn(9); i >= 0; i-- {
				AddHashedMessageStep(ctx, "m", int32(i), 3)
				steps++
			}
		}
		tc.XType = netdata.XlogType(r.Intn(5))
		switch r.Intn(3) {
		case 0:
			tc.Gxid = r.Int63()
		case 1:
			tc.Gxid = 0
		}
		tc.Caller = r.Int63()
		tc.Status, tc.SqlCount, tc.SqlTime, tc.ApicallCount, tc.ApicallTime = int32(r.Intn(600)), r.Int31(), -r.Int31(), r.Int31(), r.Int31()
		tc.Userid, tc.UserAgent, tc.Referer = r.Int63(), r.Int31(), -r.Int31()
		if r.Intn(3) == 0 {
			tc.Error = r.Int31() - r.Int31()
		}
		if r.Intn(3) == 0 {
			tc.ServiceName = "/renamed" + fmt.Sprint(trial)
		}
		if r.Intn(2) == 0 {
			tc.Login = fmt.Sprint("user", r.Intn(5))
		}
		if r.Intn(2) == 0 {
			tc.Desc = fmt.Sprint("desc", r.Intn(5))
		}
		tc.RemoteIp = []string{"", "1.2.3.4", "300.1.1.1", "10.0.0.255", "::1"}[r.Intn(5)]
		ip := map[string]string{"1.2.3.4": "[1 2 3 4]", "10.0.0.255": "[10 0 0 255]"}[tc.RemoteIp]
		if ip == "" {
			ip = "[0 0 0 0]"
		}
		tc.Text1, tc.Text2, tc.Text3, tc.Text4, tc.Text5 = "t1"+name, "t2", "", "t4", "t5"
		back := []int{0, 100, 3000, 100000}[r.Intn(4)]
		tc.StartTime = time.Now().Add(-time.Duration(back) * time.Millisecond)
		status := tc.Status

		n := 1 + r.Intn(4)
		var how []string
		for i := 0; i < n; i++ {
			switch k := r.Intn(5); k {
			case 0:
				EndService(ctx)
				how = append(how, "EndService")
			case 1:
				EndHttpService(ctx, nil, nil)
				how = append(how, "EndHttpService")
			case 2:
				if i == 0 {
					status = 204
				}
				EndHttpService(ctx, nil, &http.Response{StatusCode: 204 + i})
				how = append(how, "EndHttpService with response")
			case 3:
				endChildGoroutineService(ctx)
				how = append(how, "end of goroutine")
			case 4:
				endAnyServiceOfTraceContext(tc)
				how = append(how, "end of context")
			}
		}
		ended++
		if tc.Error != 0 {
			errs++
		}
		want := 1
		switch {
		case tc.Error != 0 || mode == 0:
		case mode == 3 && strings.HasPrefix(tc.ServiceName, "/drop"):
			want = 4
		case mode == 3:
		case mode == 1:
			want = 2
		case mode == 2:
			want = 3
		}
		what := fmt.Sprintf("service %q (started as %q), root %d of %d, error %d, sampling mode %d, %d steps, ended by %v", tc.ServiceName, name, tc.Gxid, tc.Txid, tc.Error, mode, steps, how)
		var xlogs []map[string]string
		got, size := 0, 0
		for _, p := range col.drain() {
			switch p[0] {
			case XLOG:
				m, id := vXlog(p)
				if m == nil || id != tc.Txid && (m["service"] != "0" || id != 0) && m["txid"] != fmt.Sprint(tc.Txid) {
					vFail14(t, "%s: a summary of transaction %d was sent", what, id)
				}
				xlogs = append(xlogs, m)
			case PROFILE:
				d := netdata.NewDataInputX(p[1:])
				d.ReadDecimal()
				d.ReadDecimal()
				d.ReadDecimal()
				d.ReadInt64()
				b, _ := d.ReadBlob()
				size += len(b)
				got += vCount14(b)
			}
		}
		sent := want == 1 || want == 3 || want == 2 && tc.Gxid != 0 && tc.Gxid != tc.Txid
		if sent != (len(xlogs) == 1) || len(xlogs) > 1 {
			vFail14(t, "%s: %d summaries sent", what, len(xlogs))
		}
		if want == 1 && got != steps || want != 1 && got != 0 {
			vFail14(t, "%s: %d profile steps sent", what, got)
		}
		if sent {
			m := xlogs[0]
			e := map[string]interface{}{"obj": c.ObjHash, "service": vHash(tc.ServiceName), "txid": tc.Txid, "caller": tc.Caller, "gxid": tc.Gxid, "error": tc.Error,
				"sqlcount": tc.SqlCount, "sqltime": tc.SqlTime, "ip": ip, "status": status, "userid": tc.Userid, "useragent": tc.UserAgent, "referer": tc.Referer,
				"apicount": tc.ApicallCount, "apitime": tc.ApicallTime, "xtype": tc.XType, "login": vHash(tc.Login), "desc": vHash(tc.Desc),
				"text1": tc.Text1, "text2": tc.Text2, "text3": tc.Text3, "text4": tc.Text4, "text5": tc.Text5, "count": got, "size": size, "discard": want}
			for k, v := range e {
				if m[k] != fmt.Sprint(v) {
					vFail14(t, "%s: the summary has %s = %s, want %v", what, k, m[k], v)
				}
			}
			var el int
			fmt.Sscan(m["elapsed"], &el)
			if el < back || el > back+10000 {
				vFail14(t, "%s: the summary has elapsed %d, want about %d", what, el, back)
			}
		}
		if !tc.Closed {
			vFail14(t, "%s: not closed", what)
		}
		if tctxmanager.GetTraceContextByTxid(tc.Txid) != nil {
			vFail14(t, "%s: still in the active list", what)
		}
		for _, o := range others {
			ot := tctxmanager.GetTraceContext(o)
			if tctxmanager.GetTraceContextByTxid(ot.Txid) != ot {
				vFail14(t, "%s: another transaction left the active list", what)
			}
			tctxmanager.End(ot)
		}
	}
	time.Sleep(1100 * time.Millisecond)
	if time.Since(started) < 100*time.Second {
		k := counter.GetServiceMeter().GetAllCounter(120)
		if n, e := int(k.Tps*120+0.5), int(k.ErrorRate*float32(ended)/100+0.5); n != ended || e != errs {
			vFail14(t, "%d transactions ended (each one or more times), %d of them in error: metered %d and %d", ended, errs, n, e)
		}
	}
}

func vCount14(b []byte) int {
	d := netdata.NewDataInputX(b)
	n := 0
	for {
		k, err := d.ReadUInt8()
		if err != nil {
			return n
		}
		d.ReadDecimal()
		d.ReadDecimal()
		d.ReadDecimal()
		d.ReadUInt8()
		switch k {
		case 3:
			d.ReadString()
		default:
			d.ReadDecimal()
			d.ReadDecimal()
			d.ReadDecimal()
		}
		n++
		if n > 100000 {
			return n
		}
	}
}

var _ = binary.BigEndian
var _ = netio.NewTraceContext
