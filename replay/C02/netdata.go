// dir: scouterx/common/netdata
package netdata

import (
	"bytes"
	"math"
	"math/rand"
	"testing"
)

func vbe(n int, v int64) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> uint(8*(n-1-i)))
	}
	return b
}
func vdec(v int64) []byte {
	switch {
	case v == 0:
		return []byte{0}
	case v >= math.MinInt8 && v <= math.MaxInt8:
		return append([]byte{1}, vbe(1, v)...)
	case v >= math.MinInt16 && v <= math.MaxInt16:
		return append([]byte{2}, vbe(2, v)...)
	case v >= math.MinInt32 && v <= math.MaxInt32:
		return append([]byte{4}, vbe(4, v)...)
	}
	return append([]byte{8}, vbe(8, v)...)
}
func vblob(b []byte) []byte {
	n := len(b)
	switch {
	case n == 0:
		return []byte{0}
	case n <= 253:
		return append([]byte{byte(n)}, b...)
	case n <= 65535:
		return append(append([]byte{255}, vbe(2, int64(n))...), b...)
	}
	return append(append([]byte{254}, vbe(4, int64(n))...), b...)
}

func TestVerifC02(t *testing.T) {
	chk := func(name string, v interface{}, w func(*DataOutputX), want []byte) {
		defer func() {
			if e := recover(); e != nil {
				t.Errorf("FAILING-INPUT: %s(%.40v) panics: %v", name, v, e)
			}
		}()
		o := NewDataOutputX(nil)
		w(o)
		w(o)
		want = append(append([]byte{}, want...), want...)
		if !bytes.Equal(o.Bytes(), want) {
			t.Errorf("FAILING-INPUT: %s(%.40v) twice emits %.40x, expected %.40x", name, v, o.Bytes(), want)
		}
		if int(o.Size()) != len(want) || o.GetWriteSize() != o.Size() {
			t.Errorf("FAILING-INPUT: %s(%.40v) twice reports size %d, emitted %d", name, v, o.Size(), len(want))
		}
	}
	vs := []int64{0, 1, -1, math.MaxInt64, math.MinInt64}
	for i := uint(0); i < 64; i++ {
		x := int64(1) << i
		vs = append(vs, x, x-1, x+1, -x, -x-1, -x+1)
	}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 500; i++ {
		vs = append(vs, int64(r.Uint64())>>uint(r.Intn(64)))
	}
	for _, v := range vs {
		v := v
		chk("WriteInt8", v, func(o *DataOutputX) { o.WriteInt8(int8(v)) }, vbe(1, v))
		chk("WriteUInt8", v, func(o *DataOutputX) { o.WriteUInt8(uint8(v)) }, vbe(1, v))
		chk("WriteInt16", v, func(o *DataOutputX) { o.WriteInt16(int16(v)) }, vbe(2, v))
		chk("WriteInt32", v, func(o *DataOutputX) { o.WriteInt32(int32(v)) }, vbe(4, v))
		chk("WriteInt64", v, func(o *DataOutputX) { o.WriteInt64(v) }, vbe(8, v))
		chk("WriteUInt64", v, func(o *DataOutputX) { o.WriteUInt64(uint64(v)) }, vbe(8, v))
		chk("WriteDecimal", v, func(o *DataOutputX) { o.WriteDecimal(v) }, vdec(v))
		chk("WriteDecimal32", v, func(o *DataOutputX) { o.WriteDecimal32(int32(v)) }, vdec(int64(int32(v))))
		f := float32(v) * 0.37
		chk("WriteFloat32", f, func(o *DataOutputX) { o.WriteFloat32(f) }, vbe(4, int64(math.Float32bits(f))))
		d := float64(v) * 0.37
		chk("WriteFloat64", d, func(o *DataOutputX) { o.WriteFloat64(d) }, vbe(8, int64(math.Float64bits(d))))
	}
	chk("WriteBoolean", true, func(o *DataOutputX) { o.WriteBoolean(true) }, []byte{1})
	chk("WriteBoolean", false, func(o *DataOutputX) { o.WriteBoolean(false) }, []byte{0})
	ls := []int{32766, 32767, 32768, 65534, 65535, 65536, 70000, 99999, 100000, 100001, 150000}
	for i := 0; i < 300; i++ {
		ls = append(ls, i)
	}
	for _, n := range ls {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i>>8)
		}
		chk("Write", n, func(o *DataOutputX) { o.Write(b) }, b)
		chk("WriteBlob", n, func(o *DataOutputX) { o.WriteBlob(b) }, vblob(b))
		chk("WriteIntBytes", n, func(o *DataOutputX) { o.WriteIntBytes(b) }, append(vbe(4, int64(n)), b...))
		s := b
		if n > 100000 {
			s = []byte("huge string omitted...")
		}
		chk("WriteString", n, func(o *DataOutputX) { o.WriteString(string(b)) }, vblob(s))
		if n <= 32767 {
			a := make([]int32, n)
			w := vbe(2, int64(n))
			for i := range a {
				a[i] = int32(i*40503 - 7)
				w = append(w, vbe(4, int64(a[i]))...)
			}
			chk("WriteInt32Array", n, func(o *DataOutputX) { o.WriteInt32Array(a) }, w)
		}
	}
}
