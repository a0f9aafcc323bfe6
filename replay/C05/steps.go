// dir: scouterx/common/netdata with: netdata_ref.go
package netdata

import (
	"bytes"
	"math/rand"
	"testing"
)

func rstep(r *rand.Rand) (Step, []byte) {
	i32 := func() int32 { return int32(rint(r)) }
	par, idx, st := i32(), i32(), i32()
	head := func(t byte) []byte { return rcat([]byte{t}, rdec(int64(par)), rdec(int64(idx)), rdec(int64(st)), []byte{0}) }
	d := func(vs ...int32) []byte {
		var b []byte
		for _, v := range vs {
			b = append(b, rdec(int64(v))...)
		}
		return b
	}
	var s Step
	var w []byte
	switch r.Intn(8) {
	case 0:
		x := NewMethodStep()
		x.Hash, x.Elapsed, x.CpuTime = i32(), i32(), i32()
		x.StartTime = st
		s, w = x, rcat(head(1), d(x.Hash, x.Elapsed, x.CpuTime))
	case 1:
		x := NewMessageStep(rstr(r), st)
		s, w = x, rcat(head(3), rtext(x.Message))
	case 2:
		x := NewApiCallStep()
		x.StartTime = st
		x.Txid, x.Hash, x.Elapsed, x.CpuTime, x.Error, x.Opt, x.Address = rint(r), i32(), i32(), i32(), i32(), uint8(r.Intn(4)), rstr(r)
		if r.Intn(2) == 0 {
			x.Opt = uint8(r.Intn(256))
		}
		w = rcat(head(6), rdec(x.Txid), d(x.Hash, x.Elapsed, x.CpuTime, x.Error), []byte{x.Opt})
		if x.Opt == 1 {
			w = rcat(w, rtext(x.Address))
		}
		s = x
	case 3:
		x := NewHashedMessageStep(i32(), st)
		x.Time, x.Value = i32(), i32()
		s, w = x, rcat(head(9), d(x.Hash, x.Time, x.Value))
	case 4:
		x := NewDumpStep()
		x.StartTime = st
		n := r.Intn(6)
		if r.Intn(6) == 0 {
			n = 200 + r.Intn(200)
		}
		x.Stacks = make([]int32, n)
		b := rbe(2, int64(n))
		for i := range x.Stacks {
			x.Stacks[i] = i32()
			b = append(b, rbe(4, int64(x.Stacks[i]))...)
		}
		x._threadId, x._threadName, x._threadState, x._lockOwnerId, x._lockName, x._lockOwnerName = rint(r), rstr(r), rstr(r), rint(r), rstr(r), rstr(r)
		s, w = x, rcat(head(12), b, rbe(8, x._threadId), rtext(x._threadName), rtext(x._threadState), rbe(8, x._lockOwnerId), rtext(x._lockName), rtext(x._lockOwnerName))
	case 5:
		x := NewAsyncServiceStep()
		x.StartTime = st
		x.Txid, x.Hash, x.Elapsed = rint(r), i32(), i32()
		s, w = x, rcat(head(14), rdec(x.Txid), d(x.Hash, x.Elapsed), []byte{1})
	case 6:
		x := NewPMessageStep(st)
		x.Elapsed, x.Level = i32(), PMessageLevel(r.Intn(256))
		h := i32()
		var ps []string
		var txt []byte
		for i := r.Intn(4); i > 0; i-- {
			ps = append(ps, rstr(r))
			txt = append(append(txt, ps[len(ps)-1]...), 3)
		}
		x.SetMessage(h, ps...)
		s, w = x, rcat(head(17), d(h, x.Elapsed, int32(x.Level)), rtext(string(txt)))
	default:
		x := new(SingleStep)
		x.StartTime = st
		s, w = x, head(0)
	}
	s.SetParent(par)
	s.SetIndex(idx)
	return s, w
}

func TestVerifC05(t *testing.T) {
	for seed := int64(0); seed < 3000 && !t.Failed(); seed++ {
		r := rand.New(rand.NewSource(seed))
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Errorf("FAILING-INPUT: seed %d: panic %v", seed, e)
				}
			}()
			s, w := rstep(r)
			o := NewDataOutputX(nil)
			o.WriteStep(s)
			if !bytes.Equal(o.Bytes(), w) {
				t.Errorf("FAILING-INPUT: seed %d: step %T %.300v encodes to %.200x, expected %.200x", seed, s, s, o.Bytes(), w)
			}
			var all []byte
			var ss []Step
			for i := r.Intn(12); i > 0; i-- {
				if r.Intn(4) == 0 {
					ss = append(ss, nil)
					continue
				}
				s, w := rstep(r)
				ss = append(ss, s)
				all = append(all, w...)
			}
			if got := StepsToBytes(ss); !bytes.Equal(got, all) {
				t.Errorf("FAILING-INPUT: seed %d: %d steps encode to %d bytes %.100x, expected %d bytes %.100x", seed, len(ss), len(got), got, len(all), all)
			}
		}()
	}
	if StepsToBytes(nil) != nil {
		t.Errorf("FAILING-INPUT: nil steps encode to something")
	}
}
