// dir: scouterx/netio/udpsender
package udpsender

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
)

func TestVerifC11(t *testing.T) {
	sc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer sc.Close()
	sc.SetReadBuffer(8 << 20)
	mark, err := net.DialUDP("udp", nil, sc.LocalAddr().(*net.UDPAddr))
	if err != nil {
		t.Skip(err)
	}
	b := make([]byte, 70000)
	// payload bytes in the order they were sent, up to the marker
	payload := func() (r []byte) {
		mark.Write([]byte("END"))
		for {
			sc.SetReadDeadline(time.Now().Add(5 * time.Second))
			n, err := sc.Read(b)
			if err != nil || string(b[:n]) == "END" {
				return
			}
			switch {
			case n >= 4 && string(b[:4]) == "CAFE":
				r = append(r, b[4:n]...)
			case n >= 6 && string(b[:4]) == "CAFN":
				r = append(r, b[6:n]...)
			case n >= 21 && string(b[:4]) == "CAFM":
				p := b[20:n]
				switch p[0] {
				case 255:
					p = p[3 : 3+int(binary.BigEndian.Uint16(p[1:]))]
				case 254:
					p = p[5 : 5+int(binary.BigEndian.Uint32(p[1:]))]
				default:
					p = p[1 : 1+int(p[0])]
				}
				r = append(r, p...)
			}
		}
	}
	r := rand.New(rand.NewSource(1))
	saved := ac.UDPMaxBytes
	defer func() { ac.UDPMaxBytes = saved }()
	newSender := func(cap, max int) *UDPSender {
		ac.UDPMaxBytes = max
		u := udpclient.New("127.0.0.1", sc.LocalAddr().(*net.UDPAddr).Port)
		u.SetUDPMaxBytes(max)
		return &UDPSender{udpChannel: make(chan []byte, cap), running: true, udpClient: u}
	}
	for i := 0; i < 1200 && !t.Failed(); i++ {
		max := 8 + r.Intn(60)
		n := r.Intn(14)
		s := newSender(20, max)
		var want []byte
		var sizes []int
		for j := 0; j < n; j++ {
			l := 1 + r.Intn(max/3+1)
			switch r.Intn(6) {
			case 0:
				l = max - 1 + r.Intn(3)
			case 1:
				l = 1 + r.Intn(3*max)
			}
			x := make([]byte, l)
			r.Read(x)
			sizes = append(sizes, l)
			want = append(want, x...)
			s.AddBuffer(x)
		}
		if g := s.getQueueSize(); g != n {
			t.Errorf("FAILING-INPUT: %d buffers added to an empty queue of 20: %d queued", n, g)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Errorf("FAILING-INPUT: sending buffers of sizes %v, maximum %d: panic %v", sizes, max, e)
				}
			}()
			switch {
			case i%24 == 3 && n > 0:
				done := make(chan bool)
				go func() { s.run(); close(done) }()
				for k := 0; k < 2000 && s.getQueueSize() > 0; k++ {
					time.Sleep(time.Millisecond)
				}
				s.running = false
				select {
				case <-done:
				case <-time.After(3 * time.Second):
					t.Errorf("FAILING-INPUT: the sending loop does not finish: sizes %v, maximum %d", sizes, max)
				}
			case n > 1:
				s.send(n)
			case n == 1:
				s.udpClient.WriteBuffer(<-s.udpChannel)
			}
		}()
		if got := payload(); !bytes.Equal(got, want) {
			t.Errorf("FAILING-INPUT: queued buffers of sizes %v, maximum %d: the socket received %d bytes, %d were queued (or in another order)", sizes, max, len(got), len(want))
		}
		s.udpClient.Conn.Close()
	}
	// a full queue drops and does not block
	for _, cap := range []int{0, 1, 3} {
		s := newSender(cap, 100)
		done := make(chan bool)
		go func() {
			for j := 0; j < cap+3; j++ {
				s.AddBuffer([]byte{byte(j)})
				s.AddPack(netdata.NewTextPack())
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatalf("FAILING-INPUT: adding to a full queue of capacity %d blocks", cap)
		}
		if g := s.getQueueSize(); g != cap {
			t.Errorf("FAILING-INPUT: queue of capacity %d holds %d after %d additions", cap, g, 2*cap+6)
		}
		for j := 0; j < cap; j++ {
			x := <-s.udpChannel
			w := []byte{byte(j / 2)}
			if j%2 == 1 {
				o, _ := netdata.NewDataOutputX(nil).WritePack(netdata.NewTextPack())
				w = o.Bytes()
			}
			if !bytes.Equal(x, w) {
				t.Errorf("FAILING-INPUT: entry %d of the queue is %x, expected %x", j, x, w)
			}
		}
		s.udpClient.Conn.Close()
	}
	_ = fmt.Sprint
}
