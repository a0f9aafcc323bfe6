// dir: scouterx/common/netdata with: netdata_ref.go
package netdata

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
)

type vrefReader struct {
	b []byte
	r *rand.Rand
}

func (s *vrefReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, fmt.Errorf("end")
	}
	n := 1 + s.r.Intn(9)
	if s.r.Intn(2) == 0 || n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}

func vtry(t *testing.T, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("FAILING-INPUT: %s: panic %v", what, e)
		}
	}()
	f()
}

func vround(t *testing.T, what string, v Value, r *rand.Rand) {
	vtry(t, what, func() {
		want := rcanon(v)
		o := NewDataOutputX(nil)
		o.WriteInt8(77)
		if _, err := o.WriteValue(v); err != nil {
			t.Errorf("FAILING-INPUT: %s: WriteValue(%.200s): %v", what, want, err)
		}
		o.WriteInt8(78)
		b := o.Bytes()
		if int(o.Size()) != len(b) {
			t.Errorf("FAILING-INPUT: %s: size %d reported for %d bytes of %.200s", what, o.Size(), len(b), want)
		}
		p := &rparse{b[1:]}
		if got := p.val(); got != want || len(p.b) != 1 {
			t.Errorf("FAILING-INPUT: %s: %.200s is encoded as %.200s, %d bytes left over", what, want, got, len(p.b)-1)
		}
		in := NewDataInputX(&vrefReader{b, r})
		in.ReadInt8()
		w, err := in.ReadValue()
		if err != nil || rcanon(w) != want {
			t.Errorf("FAILING-INPUT: %s: %.200s decodes to %.200s (%v)", what, want, rcanon(w), err)
			return
		}
		if x, _ := in.ReadInt8(); x != 78 {
			t.Errorf("FAILING-INPUT: %s: decoding %.200s does not consume exactly its bytes", what, want)
		}
	})
}

func TestVerifC03(t *testing.T) {
	for seed := int64(0); seed < 400 && !t.Failed(); seed++ {
		r := rand.New(rand.NewSource(seed))
		vround(t, fmt.Sprint("seed ", seed), rtree(r, 4), r)
	}
	r := rand.New(rand.NewSource(1))
	for _, n := range []int{0, 1, 2, 127, 128, 129, 255, 256, 257, 32767, 32768, 33000} {
		l, m := NewListValue(), NewMapValue()
		for i := 0; i < n; i++ {
			switch i % 5 {
			case 0:
				l.Add(nil)
				m.Put(fmt.Sprint(i), NewNilValue())
			case 1:
				l.AddInt32(int32(-i))
				m.Put(fmt.Sprint(i), i)
			case 2:
				l.AddBoolean(true)
				m.Put(fmt.Sprint(i), true)
			case 3:
				l.AddString(fmt.Sprint(i))
				m.Put(fmt.Sprint(i), fmt.Sprint(i))
			default:
				l.AddFloat(float32(i))
				m.Put(fmt.Sprint(i), float32(i))
			}
		}
		vround(t, fmt.Sprint("list of ", n), l, r)
		vround(t, fmt.Sprint("map of ", n), m, r)
	}
	var deep Value = NewDecimalValue(5)
	for i := 0; i < 200; i++ {
		if i%2 == 0 {
			deep = NewListValue().Add(deep)
		} else {
			m := NewMapValue()
			m.Put("k", deep)
			deep = m
		}
	}
	vround(t, "depth 200", deep, r)
	vround(t, "no value", nil, r)
	m := NewMapValue()
	m.Table["none"] = nil
	vround(t, "map with missing value", m, r)
	for i := 0; i < 300 && !t.Failed(); i++ {
		native(t, r)
	}
}

func native(t *testing.T, r *rand.Rand) {
	i64 := rint(r)
	s := rstr(r)
	f := r.Float32()
	type c struct {
		v interface{}
		w string
	}
	sub := NewListValue().AddInt64(i64)
	for _, x := range []c{{s, rcanon(&TextValue{s})}, {int32(i64), fmt.Sprint("d", int32(i64))}, {i64, fmt.Sprint("d", i64)}, {int(i64), fmt.Sprint("d", i64)}, {uint32(i64), fmt.Sprint("d", uint32(i64))},
		{uint(i64), fmt.Sprint("d", i64)}, {uint64(i64), fmt.Sprint("d", i64)}, {true, "btrue"}, {false, "bfalse"}, {f, rcanon(&Float32Value{f})}, {sub, rcanon(sub)}} {
		vtry(t, fmt.Sprintf("Put %T", x.v), func() {
			m, p := NewMapValue(), NewMapPack()
			m.Put("other", 1)
			m.Put("k", "old")
			m.Put("k", x.v)
			p.Put("k", x.v)
			if got := rcanon(m.Table["k"]); got != x.w || len(m.Table) != 2 || rcanon(m.Table["other"]) != "d1" {
				t.Errorf("FAILING-INPUT: MapValue.Put(k, %T %.100v) stores %.100s", x.v, x.v, got)
			}
			if got := rcanon(p.Table["k"]); got != x.w {
				t.Errorf("FAILING-INPUT: MapPack.Put(k, %T %.100v) stores %.100s", x.v, x.v, got)
			}
			if !m.ContainesKey("k") || m.ContainesKey("nope") || m.IsEmpty() || !NewMapValue().IsEmpty() || m.GetString("nope") != "" || m.GetInt64("nope") != 0 || m.GetBoolean("nope") {
				t.Errorf("FAILING-INPUT: map key queries after Put(k, %T)", x.v)
			}
			if !p.ContainsKey("k") || p.ContainsKey("nope") || p.IsEmpty() || !NewMapPack().IsEmpty() || p.GetString("nope") != "" || p.GetInt64("nope") != 0 || p.GetBoolean("nope") {
				t.Errorf("FAILING-INPUT: pack key queries after Put(k, %T)", x.v)
			}
			switch y := x.v.(type) {
			case string:
				if m.GetString("k") != y || p.GetString("k") != y {
					t.Errorf("FAILING-INPUT: GetString after Put(%q)", y)
				}
			case bool:
				if m.GetBoolean("k") != y || p.GetBoolean("k") != y {
					t.Errorf("FAILING-INPUT: GetBoolean after Put(%v)", y)
				}
			case int64:
				if m.GetInt64("k") != y || m.GetInt32("k") != int32(y) || m.GetInt16("k") != int16(y) || m.GetInt8("k") != int8(y) ||
					p.GetInt64("k") != y || p.GetInt32("k") != int32(y) || p.GetInt16("k") != int16(y) || p.GetInt8("k") != int8(y) {
					t.Errorf("FAILING-INPUT: GetInt after Put(%v)", y)
				}
			}
		})
	}
	vtry(t, "list", func() {
		l := NewListValue().AddInt64(i64).AddInt32(int32(i64)).AddFloat(f).AddString(s).AddBoolean(true).Add(sub).Add(nil)
		if l.Size() != 7 || l.GetInt64(0) != i64 || l.GetInt32(1) != int32(i64) || l.GetFloat(2) != f || l.GetString(3) != s || !l.GetBoolean(4) || rcanon(l.Value[5]) != rcanon(sub) || l.Value[6] != nil {
			t.Errorf("FAILING-INPUT: list of %v %v %.100q: %.300s", i64, f, s, rcanon(l))
		}
		if k := NewListValueWithValue([]Value{sub, nil}); k.Size() != 2 || rcanon(k.Value[0]) != rcanon(sub) {
			t.Errorf("FAILING-INPUT: NewListValueWithValue")
		}
	})
	ip := make([]byte, 4)
	r.Read(ip)
	v := NewIp4Value(fmt.Sprintf("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3]))
	if !bytes.Equal(v.Value, ip) {
		t.Errorf("FAILING-INPUT: Ip4Value of %v holds %v", ip, v.Value)
	}
}
