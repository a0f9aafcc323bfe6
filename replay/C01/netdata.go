// dir: scouterx/common/netdata
package netdata

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strings"
	"testing"
)

type slowReader struct {
	b []byte
	n int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := s.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	t.Errorf("FAILING-INPUT: "+f, a...)
}

func vtrip(t *testing.T, name string, w func(*DataOutputX) error, r func(*DataInputX) (interface{}, error), want interface{}) {
	t.Helper()
	defer func() {
		if e := recover(); e != nil {
			vfail(t, "%s panics for %.60v: %v", name, want, e)
		}
	}()
	for _, chunk := range []int{1 << 30, 1, 7} {
		out := NewDataOutputX(nil)
		if err := w(out); err != nil {
			vfail(t, "%s(%.60v): write error %v", name, want, err)
			return
		}
		b := append(append([]byte{}, out.Bytes()...), 0xAA)
		var in *DataInputX
		var rest func() int
		if chunk == 1<<30 {
			in = NewDataInputX(b)
			rest = func() int { x, _ := io.ReadAll(in.reader); return len(x) }
		} else {
			s := &slowReader{b, chunk}
			in = NewDataInputX(s)
			rest = func() int { return len(s.b) }
		}
		got, err := r(in)
		if err != nil {
			vfail(t, "%s(%.60v): read error %v (transport chunk %d)", name, want, err, chunk)
			return
		}
		g, ok1 := got.([]byte)
		x, ok2 := want.([]byte)
		same := false
		if ok1 && ok2 {
			same = bytes.Equal(g, x)
		} else {
			same = got == want
		}
		if !same {
			vfail(t, "%s(%.60v) read back as %.60v (transport chunk %d)", name, want, got, chunk)
			return
		}
		if n := rest(); n != 1 {
			vfail(t, "%s(%.60v): %d bytes left instead of 1", name, want, n)
			return
		}
	}
}

func vints() []int64 {
	v := []int64{0, 1, -1, 2, 10, 100, math.MaxInt64, math.MinInt64}
	for i := uint(0); i < 64; i++ {
		x := int64(1) << i
		v = append(v, x, x-1, x+1, -x, -x-1, -x+1)
	}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 500; i++ {
		v = append(v, int64(r.Uint64())>>uint(r.Intn(64)))
	}
	return v
}

func vlens() []int {
	v := []int{32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 99999, 100000}
	for i := 0; i < 300; i++ {
		v = append(v, i)
	}
	return v
}

func TestVerifC01(t *testing.T) {
	for _, v := range vints() {
		v := v
		vtrip(t, "Int8", func(o *DataOutputX) error { _, e := o.WriteInt8(int8(v)); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadInt8(); return x, e }, int8(v))
		vtrip(t, "UInt8", func(o *DataOutputX) error { _, e := o.WriteUInt8(uint8(v)); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadUInt8(); return x, e }, uint8(v))
		vtrip(t, "Int16", func(o *DataOutputX) error { _, e := o.WriteInt16(int16(v)); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadInt16(); return x, e }, int16(v))
		vtrip(t, "Int32", func(o *DataOutputX) error { _, e := o.WriteInt32(int32(v)); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadInt32(); return x, e }, int32(v))
		vtrip(t, "Int64", func(o *DataOutputX) error { _, e := o.WriteInt64(v); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadInt64(); return x, e }, v)
		vtrip(t, "Decimal", func(o *DataOutputX) error { _, e := o.WriteDecimal(v); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadDecimal(); return x, e }, v)
		vtrip(t, "Decimal32", func(o *DataOutputX) error { _, e := o.WriteDecimal32(int32(v)); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadDecimal(); return x, e }, int64(int32(v)))
		f := float32(v) * 0.37
		vtrip(t, "Float32", func(o *DataOutputX) error { _, e := o.WriteFloat32(f); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadFloat32(); return x, e }, f)
		d := float64(v) * 0.37
		vtrip(t, "Float64", func(o *DataOutputX) error { _, e := o.WriteFloat64(d); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadFloat64(); return x, e }, d)
	}
	for _, b := range []bool{true, false} {
		b := b
		vtrip(t, "Boolean", func(o *DataOutputX) error { _, e := o.WriteBoolean(b); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadBoolean(); return x, e }, b)
	}
	for _, n := range append(vlens(), 100001, 150000, 1<<20) {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i>>8)
		}
		vtrip(t, fmt.Sprintf("Blob of %d bytes", n), func(o *DataOutputX) error { return o.WriteBlob(b) }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadBlob(); return x, e }, b)
		vtrip(t, fmt.Sprintf("IntBytes of %d bytes", n), func(o *DataOutputX) error { return o.WriteIntBytes(b) }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadIntBytes(); return x, e }, b)
		s := strings.Repeat("a", n)
		if n > 2 {
			s = string(b[:2]) + s[2:]
		}
		want := s
		if n > 100000 {
			want = "huge string omitted..."
		}
		vtrip(t, fmt.Sprintf("String of %d bytes", n), func(o *DataOutputX) error { _, e := o.WriteString(s); return e }, func(i *DataInputX) (interface{}, error) { x, e := i.ReadString(); return x, e }, want)
	}
	// sequences
	vtrip(t, "sequence", func(o *DataOutputX) error { o.WriteInt8(3); o.WriteDecimal(-70000); o.WriteString("x"); o.WriteBoolean(true); _, e := o.WriteInt64(5); return e },
		func(i *DataInputX) (interface{}, error) {
			a, _ := i.ReadInt8()
			b, _ := i.ReadDecimal()
			c, _ := i.ReadString()
			d, _ := i.ReadBoolean()
			e, er := i.ReadInt64()
			return fmt.Sprint(a, b, c, d, e), er
		}, fmt.Sprint(int8(3), int64(-70000), "x", true, int64(5)))
}
