// dir: scouterx/strace with: udp_collector.go
package strace

import (
	"context"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

type vOp struct {
	kind, parent, index int32
	text                string
	hash, value         int32
	begun               int
}

func vDec12(d *netdata.DataInputX) int32 { v, _ := d.ReadDecimal(); return int32(v) }

func vOps(prof []byte) []vOp {
	p := netdata.NewDataInputX(prof)
	var r []vOp
	for len(r) < 100000 {
		k, err := p.ReadUInt8()
		if err != nil {
			return r
		}
		s := vOp{kind: int32(k), parent: vDec12(p), index: vDec12(p)}
		p.ReadDecimal()
		p.ReadUInt8()
		if k == 3 {
			s.text, _ = p.ReadString()
		} else {
			s.hash = vDec12(p)
			a, b := vDec12(p), vDec12(p)
			if k == 9 {
				s.value = a + 1000*b
			}
		}
		r = append(r, s)
	}
	return r
}

// the exported operations on a transaction: each completed step arrives once, in completion order, nested in its method
func TestVerifOperations(t *testing.T) {
	r := rand.New(rand.NewSource(12))
	c := conf.GetInstance()
	col := vCollector()
	time.Sleep(50 * time.Millisecond)
	PROFILE := netdata.NewXlogProfilePack().GetPackType()
	hash := func(s string) int32 { return int32(crc32.ChecksumIEEE([]byte(s))) }
	os.Setenv("xlog_sampling_enabled", "false")
	for trial := 0; trial < 60; trial++ {
		c.XlogSamplingEnabled = false
		mem, bulk := 1+r.Intn(9), 1+r.Intn(5)
		os.Setenv("profile_step_max_keep_in_memory_count", strconv.Itoa(mem))
		os.Setenv("profile_step_max_count", strconv.Itoa(bulk))
		c.ProfileStepMaxKeepInMemoryCount, c.ProfileStepMaxCount = mem, bulk
		col.drain()
		ctx := StartService(context.Background(), "/ops", "10.0.0.1:80")
		var want []vOp
		begun := 0 // the steps begun so far
		type open struct {
			s    *netdata.MethodStep
			at   int
			in   int
			name string
		}
		var stack []open
		in := func() int { // the number of the innermost open method
			if len(stack) == 0 {
				return -1
			}
			return stack[len(stack)-1].at
		}
		what := ""
		done := func(o vOp, at, in int) {
			o.begun, o.parent = at, int32(in)
			want = append(want, o)
		}
		for i := 0; i < 12; i++ {
			switch k := r.Intn(6); {
			case k == 0:
				m := []string{"", "x", "한글", "line\nline"}[r.Intn(4)]
				AddMessageStep(ctx, m)
				what += fmt.Sprintf("AddMessageStep(%q) ", m)
				done(vOp{kind: 3, text: m}, begun, in())
				begun++
			case k == 1:
				m, v := []string{"", "h"}[r.Intn(2)], int32(r.Intn(2)*7)
				AddHashedMessageStep(ctx, m, v, 0)
				what += fmt.Sprintf("AddHashedMessageStep(%q,%d) ", m, v)
				done(vOp{kind: 9, hash: hash(m), value: 1000 * v}, begun, in())
				begun++
			case k <= 3 && len(stack) < 4:
				n := fmt.Sprintf("m%d", begun)
				s := StartCustomMethod(ctx, n)
				what += "StartCustomMethod "
				if s == nil {
					fmt.Printf("FAILING-INPUT: %s: no step\n", what)
					t.FailNow()
				}
				s.StartTime += []int32{0, 0, 100000, -5, 1 << 30}[r.Intn(5)]
				what += fmt.Sprintf("(began at %d) ", s.StartTime)
				stack = append(stack, open{s, begun, in(), n})
				begun++
			case len(stack) > 0:
				o := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				EndMethod(ctx, o.s)
				what += "EndMethod "
				done(vOp{kind: 1, hash: hash(o.name)}, o.at, o.in)
			}
		}
		for len(stack) > 0 {
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			EndMethod(ctx, o.s)
			done(vOp{kind: 1, hash: hash(o.name)}, o.at, o.in)
		}
		EndService(ctx)
		var got []vOp
		fail := func(f string, a ...interface{}) {
			fmt.Printf("FAILING-INPUT: memory %d, message %d: %s: %s\n", mem, bulk, what, fmt.Sprintf(f, a...))
			t.FailNow()
		}
		for _, p := range col.drain() {
			if len(p) == 0 || p[0] != PROFILE {
				continue
			}
			d := netdata.NewDataInputX(p[1:])
			d.ReadDecimal()
			vDec12(d)
			vDec12(d)
			d.ReadInt64()
			prof, err := d.ReadBlob()
			if err != nil {
				fail("unreadable profile")
			}
			got = append(got, vOps(prof)...)
		}
		extra := len(got) - len(want)
		if extra < 0 {
			fail("%d steps completed, %d arrived", len(want), len(got))
		}
		// messages may change places on the way
		sort.Slice(got, func(i, j int) bool { return got[i].index < got[j].index })
		for _, w := range want {
			g := got[extra+w.begun]
			if g.kind != w.kind || g.text != w.text || g.hash != w.hash || g.value != w.value {
				fail("step %d arrived as %+v, want %+v", w.begun, g, w)
			}
			if p := int32(0); w.parent >= 0 {
				if p = got[extra+int(w.parent)].index; g.parent != p {
					fail("step %d has parent %d, want %d", w.begun, g.parent, p)
				}
			} else if g.parent != 0 {
				fail("step %d has parent %d, want none", w.begun, g.parent)
			}
		}
	}
}
