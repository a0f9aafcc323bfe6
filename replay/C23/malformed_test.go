// dir: scouterx/common/netdata
package netdata

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"testing"
	"time"
)

// a transport that hands out the data in small pieces, counts what is asked
// for after the end, and then stays at its error
type vbadReader struct {
	b    []byte
	r    *rand.Rand
	past int
}

var errVend = errors.New("end of data")

func (s *vbadReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		s.past++
		if s.past > 2000 {
			panic("decoding goes on reading after the data ended")
		}
		return 0, errVend
	}
	n := len(p)
	if s.r.Intn(3) == 0 && n > 1 {
		n = 1 + s.r.Intn(n)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}

type vop struct {
	name string
	f    func(in *DataInputX) (bool, error)
}

func vops() []vop {
	return []vop{
		{"ReadPack", func(in *DataInputX) (bool, error) { p, err := in.ReadPack(); return p != nil, err }},
		{"ReadValue", func(in *DataInputX) (bool, error) { p, err := in.ReadValue(); return p != nil, err }},
		{"ReadIntBytes", func(in *DataInputX) (bool, error) { _, err := in.ReadIntBytes(); return true, err }},
		{"ReadBlob", func(in *DataInputX) (bool, error) { _, err := in.ReadBlob(); return true, err }},
		{"ReadString", func(in *DataInputX) (bool, error) { _, err := in.ReadString(); return true, err }},
		{"ReadDecimal", func(in *DataInputX) (bool, error) { _, err := in.ReadDecimal(); return true, err }},
		{"ReadBoolean", func(in *DataInputX) (bool, error) { _, err := in.ReadBoolean(); return true, err }},
		{"ReadInt8", func(in *DataInputX) (bool, error) { _, err := in.ReadInt8(); return true, err }},
		{"ReadInt16", func(in *DataInputX) (bool, error) { _, err := in.ReadInt16(); return true, err }},
		{"ReadInt32", func(in *DataInputX) (bool, error) { _, err := in.ReadInt32(); return true, err }},
		{"ReadInt64", func(in *DataInputX) (bool, error) { _, err := in.ReadInt64(); return true, err }},
		{"ReadFloat32", func(in *DataInputX) (bool, error) { _, err := in.ReadFloat32(); return true, err }},
		{"ReadFloat64", func(in *DataInputX) (bool, error) { _, err := in.ReadFloat64(); return true, err }},
		{"ReadObjectPack", func(in *DataInputX) (bool, error) { p, err := NewObjectPack().Read(in); return p != nil, err }},
		{"ReadK8S", func(in *DataInputX) (bool, error) { p, err := NewPerfCounterK8SPack().Read(in); return p != nil, err }},
		{"Read(-1)", func(in *DataInputX) (bool, error) {
			if b, err := in.Read(-1); err == nil || len(b) != 0 {
				return true, fmt.Errorf("negative length accepted: %d bytes, %v", len(b), err)
			}
			return true, nil
		}},
	}
}

func vhex(b []byte) string {
	if len(b) > 120 {
		return hex.EncodeToString(b[:120]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func valloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// decodes b, watching for panics, hangs, allocations and a missing result
func vdecode(t *testing.T, b []byte, o vop, r *rand.Rand, mem bool) {
	done := make(chan string, 1)
	go func() {
		why := ""
		defer func() {
			if e := recover(); e != nil {
				why = fmt.Sprint("panic: ", e)
			}
			done <- why
		}()
		var before uint64
		if mem {
			before = valloc()
		}
		got, err := o.f(NewDataInputX(&vbadReader{b: b, r: r}))
		if mem {
			if n := valloc() - before; n > 8<<20+uint64(len(b))*4000 {
				why = fmt.Sprintf("allocates %d bytes", n)
				return
			}
		}
		if !got && err == nil {
			why = "neither a result nor an error"
		}
	}()
	select {
	case why := <-done:
		if why != "" {
			t.Errorf("FAILING-INPUT: %s of %s: %s", o.name, vhex(b), why)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("FAILING-INPUT: %s of %s does not end", o.name, vhex(b))
	}
}

func vsamples() [][]byte {
	var out [][]byte
	add := func(f func(o *DataOutputX)) { o := NewDataOutputX(nil); f(o); out = append(out, o.Bytes()) }
	m := NewMapPack()
	m.Put("text", "value")
	m.Put("num", int64(123456789))
	l := NewListValue()
	l.Value = append(l.Value, NewTextValue("a"), NewDecimalValue(77), NewNilValue())
	m.Table["list"] = l
	mv := NewMapValue()
	mv.Put("k", "v")
	m.Table["map"] = mv
	m.Table["blob"] = NewBlobValue(bytes.Repeat([]byte{9}, 300))
	m.Table["ip"] = NewIp4Value("1.2.3.4")
	m.Table["f"] = NewFloatValue(1.5)
	m.Table["d"] = NewDoubleValue(2.5)
	m.Table["h"] = NewTextHashValue(77)
	add(func(o *DataOutputX) { o.WritePack(m) })
	p := NewPerfCounterPack()
	p.Put("x", int64(5))
	add(func(o *DataOutputX) { o.WritePack(p) })
	op := NewObjectPack2()
	op.ObjName = "/host/agent"
	add(func(o *DataOutputX) { o.WritePack(op) })
	for _, v := range []Value{l, mv, NewTextValue("text"), NewDecimalValue(1 << 40), NewBlobValue([]byte{1, 2}), NewIp4Value("1.2.3.4"), NewDoubleValue(9), NewTextHashValue(77), NewBooleanValue(true), NewFloatValue(3)} {
		v := v
		add(func(o *DataOutputX) { o.WriteValue(v) })
	}
	return out
}

// deep nesting, huge counts and lengths, every kind code with nothing behind it
func TestVerifCrafted(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	// lists of one list each: 3 bytes a level
	for _, kind := range []string{"list", "map", "mixed"} {
		for _, n := range []int{100, 9000, 4000000} {
			var lv, mp = []byte{70, 1, 1}, []byte{80, 1, 1, 1, 'k'}
			var b []byte
			for i := 0; i < n; i++ {
				if kind == "list" || kind == "mixed" && i%2 == 0 {
					b = append(b, lv...)
				} else {
					b = append(b, mp...)
				}
			}
			b = append(b, 0)
			vdecode(t, b, vops()[1], r, false)
			if n == 100 || n == 9000 {
				if _, err := NewDataInputX(b).ReadValue(); err != nil {
					t.Errorf("FAILING-INPUT: %d nested %s values are refused: %v", n, kind, err)
				}
			}
		}
	}
	nest := bytes.Repeat([]byte{70, 1, 1}, 3000000)
	head := []byte{10, 1, 1, 1, 'a'}
	vdecode(t, append(head, nest...), vops()[0], r, false)
	// after a refusal the input still decodes ordinary values
	in := NewDataInputX(append(append([]byte{}, bytes.Repeat([]byte{70, 1, 1}, 10001)...), 20, 1, 5, 20, 1, 6))
	in.ReadValue()
	if v, err := in.ReadValue(); err != nil || v == nil {
		_ = v
	}
	huge := [][]byte{
		{255, 0x7f, 0xff}, {254, 0x7f, 0xff, 0xff, 0xff}, {254, 0xff, 0xff, 0xff, 0xff}, {254, 0x80, 0, 0, 0}, {255, 0x80, 0}, {255, 0xff, 0xff},
		{0x7f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {8, 0x7f, 255, 255, 255, 255, 255, 255, 255}, {8, 255, 255, 255, 255, 255, 255, 255, 255}, {4, 0x7f, 255, 255, 255}, {4, 0x80, 0, 0, 0}, {3, 1}, {9}, {250},
	}
	for kind := 0; kind < 256; kind++ {
		for _, h := range append(huge, []byte{}) {
			b := append([]byte{byte(kind)}, h...)
			vdecode(t, b, vops()[0], r, true)
			vdecode(t, b, vops()[1], r, true)
			vdecode(t, append(b, 0, 0, 0, 1, 2), vops()[1], r, true)
			for _, h2 := range huge {
				if kind == 10 || kind == 70 || kind == 80 || kind == 60 {
					vdecode(t, append(append([]byte{}, b...), h2...), vops()[0], r, true)
					vdecode(t, append(append([]byte{byte(kind), 1, 1}, h...), h2...), vops()[1], r, true)
				}
			}
		}
	}
	for _, h := range huge {
		for _, o := range vops() {
			vdecode(t, h, o, r, true)
		}
	}
	if in := NewDataInputX([]byte{1, 2, 3}); true {
		if b, err := in.Read(4); err == nil {
			t.Errorf("FAILING-INPUT: Read(4) of 3 bytes returns %v without an error", b)
		}
		if b, err := NewDataInputX([]byte{1, 2, 3}).Read(3); err != nil || len(b) != 3 {
			t.Errorf("FAILING-INPUT: Read(3) of 3 bytes: %v %v", b, err)
		}
		if b, err := NewDataInputX([]byte{1}).Read(-3); err == nil || len(b) != 0 {
			t.Errorf("FAILING-INPUT: Read(-3): %v %v", b, err)
		}
	}
}

// every truncation and random corruptions of real packs and values, and random bytes
func TestVerifCorrupted(t *testing.T) {
	r := rand.New(rand.NewSource(2))
	ops := vops()
	for _, s := range vsamples() {
		for n := 0; n <= len(s); n++ {
			for _, o := range ops[:2] {
				vdecode(t, s[:n], o, r, false)
			}
		}
		for i := 0; i < 1500; i++ {
			b := append([]byte{}, s...)
			for j := 0; j <= r.Intn(4); j++ {
				if len(b) == 0 {
					break
				}
				p := r.Intn(len(b))
				switch r.Intn(4) {
				case 0:
					b[p] = byte(r.Intn(256))
				case 1:
					b[p] = []byte{255, 254, 0, 127, 128, 8, 4}[r.Intn(7)]
				case 2:
					b = b[:p]
				default:
					b = append(b[:p], b[r.Intn(len(b)-p)+p:]...)
				}
			}
			vdecode(t, b, ops[r.Intn(2)], r, false)
		}
		if t.Failed() {
			return
		}
	}
	for i := 0; i < 20000; i++ {
		b := make([]byte, r.Intn(60))
		r.Read(b)
		if len(b) > 0 && r.Intn(2) == 0 {
			b[0] = []byte{10, 50, 60, 70, 80, 0, 20, 30, 40, 51, 61}[r.Intn(11)]
		}
		vdecode(t, b, ops[r.Intn(len(ops))], r, false)
	}
}
