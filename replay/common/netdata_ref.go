package netdata

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
)

// independent reference encoding of the Scouter wire format
func rbe(n int, v int64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(v))
	return b[8-n:]
}
func rdec(v int64) []byte {
	for _, n := range []int{0, 1, 2, 4} {
		if n == 0 && v == 0 || n > 0 && v >= -(1<<uint(8*n-1)) && v < 1<<uint(8*n-1) {
			return append([]byte{byte(n)}, rbe(n, v)...)
		}
	}
	return append([]byte{8}, rbe(8, v)...)
}
func rblob(b []byte) []byte {
	n := len(b)
	switch {
	case n <= 253:
		return append([]byte{byte(n)}, b...)
	case n <= 65535:
		return append(append([]byte{255}, rbe(2, int64(n))...), b...)
	}
	return append(append([]byte{254}, rbe(4, int64(n))...), b...)
}
func rtext(s string) []byte {
	if len(s) > 100000 {
		s = "huge string omitted..."
	}
	return rblob([]byte(s))
}
func rbool(b bool) []byte {
	if b {
		return []byte{1}
	}
	return []byte{0}
}
func rcat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// canonical text of a value tree
func rcanon(v Value) string {
	switch t := v.(type) {
	case nil, *NilValue:
		return "nil"
	case *BooleanValue:
		return fmt.Sprint("b", t.Value)
	case *DecimalValue:
		return fmt.Sprint("d", t.Value)
	case *Float32Value:
		return fmt.Sprint("f", math.Float32bits(t.Value))
	case *DoubleValue:
		return fmt.Sprint("D", math.Float64bits(t.Value))
	case *TextValue:
		return fmt.Sprintf("t%d:%x", len(t.Value), t.Value)
	case *TextHashValue:
		return fmt.Sprint("h", t.Value)
	case *BlobValue:
		return fmt.Sprintf("B%x", t.Value)
	case *Ip4Value:
		return fmt.Sprintf("i%x", t.Value)
	case *ListValue:
		r := "["
		for _, e := range t.Value {
			r += rcanon(e) + ","
		}
		return r + "]"
	case *MapValue:
		return rcanonmap(t.Table)
	}
	return fmt.Sprintf("?%T", v)
}
func rcanonmap(m map[string]Value) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%x=%s", k, rcanon(v)))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

// independent parser: canonical text of the encoded value, strict about the layout
type rparse struct{ b []byte }

func (p *rparse) take(n int) []byte {
	if n < 0 || n > len(p.b) {
		panic(fmt.Sprintf("reference parser: %d bytes expected, %d left", n, len(p.b)))
	}
	r := p.b[:n]
	p.b = p.b[n:]
	return r
}
func (p *rparse) be(n int) int64 {
	r := int64(0)
	for i, c := range p.take(n) {
		if i == 0 {
			r = int64(int8(c))
		} else {
			r = r<<8 | int64(c)
		}
	}
	return r
}
func (p *rparse) dec() int64 {
	s := p.b
	v := p.be(int(p.take(1)[0]))
	w := rdec(v)
	if string(s[:len(s)-len(p.b)]) != string(w) {
		panic(fmt.Sprintf("decimal %d encoded as %x", v, s[:len(s)-len(p.b)]))
	}
	return v
}
func (p *rparse) blob() []byte {
	s := p.b
	n := int64(p.take(1)[0])
	if n == 255 {
		n = p.be(2) & 0xffff
	} else if n == 254 {
		n = p.be(4)
	}
	r := p.take(int(n))
	if string(s[:len(s)-len(p.b)]) != string(rblob(r)) {
		panic("blob prefix")
	}
	return r
}
func (p *rparse) val() string {
	switch c := p.take(1)[0]; c {
	case 0:
		return "nil"
	case 10:
		c := p.take(1)[0]
		if c > 1 {
			panic("boolean")
		}
		return fmt.Sprint("b", c == 1)
	case 20:
		return fmt.Sprint("d", p.dec())
	case 30:
		return fmt.Sprint("f", uint32(p.be(4)))
	case 40:
		return fmt.Sprint("D", uint64(p.be(8)))
	case 50:
		b := p.blob()
		return fmt.Sprintf("t%d:%x", len(b), b)
	case 51:
		return fmt.Sprint("h", p.be(4))
	case 60:
		return fmt.Sprintf("B%x", p.blob())
	case 61:
		return fmt.Sprintf("i%x", p.take(4))
	case 70:
		n := p.dec()
		r := "["
		for i := int64(0); i < n; i++ {
			r += p.val() + ","
		}
		return r + "]"
	case 80:
		return p.mapbody()
	default:
		panic(fmt.Sprint("type code ", c))
	}
}
func (p *rparse) mapbody() string {
	n := p.dec()
	var ks []string
	for i := int64(0); i < n; i++ {
		k := p.blob()
		ks = append(ks, fmt.Sprintf("%x=%s", k, p.val()))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

var rlens = []int{0, 1, 2, 10, 127, 128, 253, 254, 255, 256, 300, 32767, 32768, 40000, 65535, 65536, 70000, 100000}

func rstr(r *rand.Rand) string {
	n := r.Intn(20)
	if r.Intn(12) == 0 {
		n = rlens[r.Intn(len(rlens))]
	}
	b := make([]byte, n)
	r.Read(b)
	return string(b)
}
func rint(r *rand.Rand) int64 {
	if r.Intn(5) == 0 {
		return int64(r.Intn(5)) - 2
	}
	v := int64(1)<<uint(r.Intn(63)) + int64(r.Intn(3)) - 1
	if r.Intn(2) == 0 {
		v = -v
	}
	if r.Intn(3) == 0 {
		v = int64(r.Uint64())
	}
	return v
}
func rtree(r *rand.Rand, d int) Value {
	n := 11
	if d <= 0 {
		n = 9
	}
	switch r.Intn(n) {
	case 0:
		return NewNilValue()
	case 1:
		return NewBooleanValue(r.Intn(2) == 0)
	case 2:
		return NewDecimalValue(rint(r))
	case 3:
		return NewFloatValue(float32(r.NormFloat64()) * float32(math.Pow(10, float64(r.Intn(30)-15))))
	case 4:
		return NewDoubleValue(r.NormFloat64())
	case 5:
		return NewTextValue(rstr(r))
	case 6:
		return NewTextHashValue(int32(rint(r)))
	case 7:
		return NewBlobValue([]byte(rstr(r)))
	case 8:
		return NewIp4Value(fmt.Sprintf("%d.%d.%d.%d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256)))
	case 9:
		l := NewListValue()
		k := r.Intn(5)
		if r.Intn(10) == 0 {
			k = 100 + r.Intn(60)
		}
		for i := 0; i < k; i++ {
			if r.Intn(8) == 0 {
				l.Add(nil)
			} else {
				l.Add(rtree(r, d-1))
			}
		}
		return l
	}
	return rmap(r, d)
}
func rmap(r *rand.Rand, d int) *MapValue {
	m := NewMapValue()
	k := r.Intn(5)
	if r.Intn(10) == 0 {
		k = 100 + r.Intn(60)
	}
	for i := 0; i < k; i++ {
		if r.Intn(8) == 0 {
			m.Table[rstr(r)] = nil
		} else {
			m.Table[rstr(r)] = rtree(r, d-1)
		}
	}
	return m
}
