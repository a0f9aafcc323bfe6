// dir: scouterx/netio with: udp_collector.go
package netio

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

type vStep struct{ kind, parent, index, hash, extra int32 }

func vDec(d *netdata.DataInputX) int32 { v, _ := d.ReadDecimal(); return int32(v) }

// the steps of a profile message: (identifiers ok, steps, well formed)
func vProfile(b []byte, t *TraceContext) (string, []vStep) {
	d := netdata.NewDataInputX(b[1:])
	d.ReadDecimal()
	obj, svc := vDec(d), vDec(d)
	txid, _ := d.ReadInt64()
	if txid != t.Txid || svc != t.ServiceHash || obj != conf.GetInstance().ObjHash {
		return fmt.Sprintf("identifiers obj=%d service=%d txid=%d, want %d %d %d", obj, svc, txid, conf.GetInstance().ObjHash, t.ServiceHash, t.Txid), nil
	}
	prof, err := d.ReadBlob()
	if err != nil {
		return "no profile", nil
	}
	return "", vSteps(prof)
}
func vSteps(prof []byte) []vStep {
	p := netdata.NewDataInputX(prof)
	var r []vStep
	for len(r) < 100000 {
		k, err := p.ReadUInt8()
		if err != nil {
			return r
		}
		s := vStep{kind: int32(k), parent: vDec(p), index: vDec(p)}
		p.ReadDecimal()
		p.ReadUInt8()
		if k == 3 {
			x, _ := p.ReadString()
			n, _ := strconv.Atoi(x)
			s.hash = int32(n)
		} else {
			s.hash = vDec(p)
			s.extra = vDec(p)
			p.ReadDecimal()
		}
		r = append(r, s)
	}
	return r
}

func vSet(mem, bulk int) {
	os.Setenv("profile_step_max_keep_in_memory_count", strconv.Itoa(mem))
	os.Setenv("profile_step_max_count", strconv.Itoa(bulk))
	c := conf.GetInstance()
	c.ProfileStepMaxKeepInMemoryCount, c.ProfileStepMaxCount = mem, bulk
}

func TestVerifProfile(t *testing.T) {
	col := vCollector()
	time.Sleep(50 * time.Millisecond)
	rnd := rand.New(rand.NewSource(7))
	for trial := 0; trial < 60; trial++ {
		mem, bulk, n := 1+rnd.Intn(9), 1+rnd.Intn(7), rnd.Intn(40)
		if trial < 12 { // boundaries: as many steps as fit one message, or the memory, and one more or less
			mem, bulk = []int{2048, 6, 6, 7}[trial%4], []int{4, 4, 6, 3}[trial%4]
			n = []int{0, 1, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13}[trial]
		}
		if trial%10 == 9 { // many messages at once
			mem, bulk, n = 20+rnd.Intn(60), 1+rnd.Intn(2), 40+rnd.Intn(120)
		}
		vSet(mem, bulk)
		ok := trial%9 != 5
		tc := NewTraceContext()
		tc.ServiceHash = int32(1000 + trial)
		tc.Txid = int64(77000000 + trial)
		col.drain()
		what := fmt.Sprintf("%d steps, memory %d, message %d, ok=%v: ", n, mem, bulk, ok)
		var done, want []vStep
		type open struct {
			s *netdata.MethodStep
			m vStep
		}
		var stack []open
		var idx int32
		parent := func() int32 {
			if len(stack) == 0 {
				return 0
			}
			return stack[len(stack)-1].m.index
		}
		for len(done) < n {
			h := int32(len(done)+1) * 3
			switch r := rnd.Intn(5); {
			case r == 0 && len(stack) < 5:
				s := netdata.NewMethodStep()
				m := vStep{1, parent(), idx, 0, 5}
				idx++
				s.Elapsed = 5
				tc.Profile.Push(s)
				stack = append(stack, open{s, m})
			case r <= 2 && len(stack) > 0:
				o := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				o.s.Hash, o.m.hash = h, h
				tc.Profile.Pop(o.s)
				done = append(done, o.m)
			case r == 3:
				s := netdata.NewMessageStep(strconv.Itoa(int(h)), 9)
				done = append(done, vStep{3, parent(), idx, h, 0})
				idx++
				tc.Profile.Add(s)
			case r == 4:
				s := netdata.NewHashedMessageStep(h, 0)
				s.Time = 6
				done = append(done, vStep{9, parent(), idx, h, 6})
				idx++
				tc.Profile.Add(s)
			}
		}
		tc.Profile.Close(ok)
		want = done
		if !ok {
			want = done[:len(done)/mem*mem]
		}
		got := map[int32]vStep{}
		total := 0
		for _, b := range col.drain() {
			if len(b) == 0 || b[0] != 26 {
				continue
			}
			why, ss := vProfile(b, tc)
			if why != "" {
				fail12(t, what+why)
			}
			if len(ss) == 0 {
				fail12(t, what+"an empty profile message was sent")
			}
			if len(ss) > bulk {
				fail12(t, what+fmt.Sprintf("a profile message holds %d steps", len(ss)))
			}
			for i, s := range ss {
				if _, dup := got[s.hash]; dup {
					fail12(t, what+fmt.Sprintf("step %v was sent twice", s))
				}
				got[s.hash] = s
				total++
				if i > 0 && s.hash != ss[i-1].hash+3 {
					fail12(t, what+fmt.Sprintf("a profile message holds steps %v out of completion order", ss))
				}
			}
		}
		for _, w := range want {
			if g, has := got[w.hash]; !has || g != w {
				fail12(t, what+fmt.Sprintf("completed step {kind parent index hash extra} %v was sent as %v (sent: %v), %d steps were sent", w, g, has, total))
			}
		}
		if total != len(want) {
			fail12(t, what+fmt.Sprintf("%d steps sent, want %d", total, len(want)))
		}
		if tc.ProfileCount != len(want) {
			fail12(t, what+fmt.Sprintf("profile count %d, sent %d", tc.ProfileCount, len(want)))
		}
	}
}

func fail12(t *testing.T, s string) {
	fmt.Println("FAILING-INPUT: " + s)
	t.FailNow()
}
