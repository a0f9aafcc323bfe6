// dir: scouterx/netio/udpclient
package udpclient

import (
	"bytes"
	"container/list"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"testing"
	"time"
)

type vsrv struct{ c *net.UDPConn }

// the datagrams a call sent (the call has returned: loopback delivery is synchronous); a marker datagram ends them
func (s vsrv) take(t *testing.T, mark *net.UDPConn) (r [][]byte) {
	mark.Write([]byte("END"))
	b := make([]byte, 70000)
	for {
		s.c.SetReadDeadline(time.Now().Add(5 * time.Second))
		n, err := s.c.Read(b)
		if err != nil {
			return r
		}
		if string(b[:n]) == "END" {
			return r
		}
		r = append(r, append([]byte(nil), b[:n]...))
	}
}

func vfrags(d [][]byte, b []byte, max int) (rest [][]byte, why string) {
	want := (len(b) + max - 1) / max
	var got []byte
	var id int64
	for i := 0; i < want; i++ {
		if i >= len(d) {
			return nil, fmt.Sprintf("%d fragments, %d expected", i, want)
		}
		x := d[i]
		if len(x) < 21 || string(x[:4]) != "CAFM" {
			return nil, fmt.Sprintf("fragment %d is %.30x", i, x)
		}
		k := int64(binary.BigEndian.Uint64(x[8:]))
		if i == 0 {
			id = k
		}
		tot, num := int(int16(binary.BigEndian.Uint16(x[16:]))), int(int16(binary.BigEndian.Uint16(x[18:])))
		if k != id || tot != want || num != i {
			return nil, fmt.Sprintf("fragment %d: id %d (first %d) total %d number %d; expected total %d", i, k, id, tot, num, want)
		}
		p := x[20:]
		l, h := int(p[0]), 1
		switch {
		case p[0] == 255 && len(p) > 3:
			l, h = int(binary.BigEndian.Uint16(p[1:])), 3
		case p[0] == 254 && len(p) > 5:
			l, h = int(binary.BigEndian.Uint32(p[1:])), 5
		}
		if len(p) != h+l || l > max || l == 0 {
			return nil, fmt.Sprintf("fragment %d payload of %d bytes, blob length %d, maximum %d", i, len(p), l, max)
		}
		got = append(got, p[h:]...)
	}
	if !bytes.Equal(got, b) {
		return nil, "fragments do not concatenate to the buffer"
	}
	return d[want:], ""
}

func TestVerifC10(t *testing.T) {
	sc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer sc.Close()
	sc.SetReadBuffer(8 << 20)
	s := vsrv{sc}
	u := New("127.0.0.1", sc.LocalAddr().(*net.UDPAddr).Port)
	mark, err := net.DialUDP("udp", nil, sc.LocalAddr().(*net.UDPAddr))
	if err != nil {
		t.Skip(err)
	}
	r := rand.New(rand.NewSource(1))
	fail := func(in string, d [][]byte, why string) {
		h := ""
		for i, x := range d {
			if i < 6 {
				h += fmt.Sprintf(" [%d bytes %.24x]", len(x), x)
			}
		}
		t.Errorf("FAILING-INPUT: %s: %s; %d datagrams:%s", in, why, len(d), h)
	}
	call := func(in string, f func()) {
		defer func() {
			if e := recover(); e != nil {
				t.Errorf("FAILING-INPUT: %s: panic %v", in, e)
			}
		}()
		f()
	}
	mk := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	one := func(b []byte, max int) {
		in := fmt.Sprintf("WriteBuffer of %d bytes, maximum %d", len(b), max)
		u.SetUDPMaxBytes(max)
		c := append([]byte(nil), b...)
		call(in, func() { u.WriteBuffer(b) })
		d := s.take(t, mark)
		if len(b) <= max {
			if len(d) != 1 || !bytes.Equal(d[0], append([]byte("CAFE"), c...)) {
				fail(in, d, "not one datagram of the marker and the buffer")
			}
		} else if rest, why := vfrags(d, c, max); why != "" {
			fail(in, d, why)
		} else if len(rest) != 0 {
			fail(in, d, "extra datagrams")
		}
	}
	for i := 0; i < 600 && !t.Failed(); i++ {
		max := 1 + r.Intn(60)
		one(mk(r.Intn(5)*max+r.Intn(max+1)+r.Intn(2)), max)
	}
	for _, max := range []int{200, 252, 253, 254, 255, 256, 300, 1000, 20000, 40000} {
		for _, n := range []int{0, 1, max - 1, max, max + 1, 2*max - 1, 2 * max, 2*max + 1, 3 * max} {
			if !t.Failed() {
				one(mk(n), max)
			}
		}
	}
	for n := 100; n <= 32767 && !t.Failed(); n = n*3 + r.Intn(5) {
		if n < 3000 {
			one(mk(n), 1)
		}
	}
	lists := func(sizes []int, max int) {
		in := fmt.Sprintf("WriteBufferList of sizes %v, maximum %d", sizes, max)
		if len(in) > 300 {
			in = in[:300] + fmt.Sprintf("... (%d buffers), maximum %d", len(sizes), max)
		}
		u.SetUDPMaxBytes(max)
		l := list.New()
		var bs [][]byte
		for _, n := range sizes {
			b := mk(n)
			bs = append(bs, append([]byte(nil), b...))
			l.PushBack(b)
		}
		call(in, func() { u.WriteBufferList(l) })
		d := s.take(t, mark)
		all := d
		var small, big [][]byte
		for _, b := range bs {
			if len(b) > max {
				big = append(big, b)
			} else {
				small = append(small, b)
			}
		}
		for len(d) > 0 {
			x := d[0]
			if len(x) >= 4 && string(x[:4]) == "CAFM" {
				if len(big) == 0 {
					fail(in, all, "unexpected fragments")
					return
				}
				rest, why := vfrags(d, big[0], max)
				if why != "" {
					fail(in, all, "large buffer: "+why)
					return
				}
				d, big = rest, big[1:]
				continue
			}
			d = d[1:]
			if len(x) < 6 || string(x[:4]) != "CAFN" {
				fail(in, all, "unexpected datagram")
				return
			}
			n := int(int16(binary.BigEndian.Uint16(x[4:])))
			p := x[6:]
			if len(p) > max {
				fail(in, all, fmt.Sprintf("batch of %d bytes exceeds the maximum", len(p)))
				return
			}
			if n < 1 || n > len(small) {
				fail(in, all, fmt.Sprintf("batch counts %d buffers, %d are left", n, len(small)))
				return
			}
			if w := bytes.Join(small[:n], nil); !bytes.Equal(w, p) {
				fail(in, all, fmt.Sprintf("a batch counting %d buffers has %d bytes, these buffers have %d (or other bytes)", n, len(p), len(w)))
				return
			}
			small = small[n:]
		}
		if len(big) > 0 {
			fail(in, all, fmt.Sprintf("%d large buffers were not sent", len(big)))
		}
		for _, b := range small {
			if len(b) > 0 {
				fail(in, all, fmt.Sprintf("%d buffers were not sent", len(small)))
				break
			}
		}
	}
	for i := 0; i < 1500 && !t.Failed(); i++ {
		max := 1 + r.Intn(40)
		sizes := make([]int, r.Intn(9))
		for j := range sizes {
			switch r.Intn(4) {
			case 0:
				sizes[j] = 1 + r.Intn(2*max+2)
			case 1:
				sizes[j] = max - r.Intn(2)
			default:
				sizes[j] = 1 + r.Intn(max/2+1)
			}
			if sizes[j] == 0 {
				sizes[j] = 1
			}
		}
		lists(sizes, max)
	}
	for _, n := range []int{127, 128, 129, 255, 256, 257, 300, 1000, 32767} {
		sizes := make([]int, n)
		for j := range sizes {
			sizes[j] = 1
		}
		if !t.Failed() {
			lists(sizes, 60000)
		}
	}
	u.Conn = nil
	call("WriteBuffer without a connection", func() { u.WriteBuffer(mk(100)); u.WriteBufferList(list.New()) })
}
