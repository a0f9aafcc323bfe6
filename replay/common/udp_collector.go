package netio

import (
	"encoding/binary"
	"net"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata/texttype"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
)

// a collector on the loopback network: every pack received, in order
type vColl struct {
	mu    sync.Mutex
	packs [][]byte
	frags map[int64]map[int16][]byte
	n     int
}

func vCollector() *vColl {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	c.SetReadBuffer(16 << 20)
	// the configuration is re-read from the environment now and then
	os.Setenv("net_collector_ip", "127.0.0.1")
	os.Setenv("net_collector_udp_port", strconv.Itoa(c.LocalAddr().(*net.UDPAddr).Port))
	cf := conf.GetInstance()
	cf.NetCollectorIP = "127.0.0.1"
	cf.NetCollectorUDPPort = c.LocalAddr().(*net.UDPAddr).Port
	v := &vColl{frags: map[int64]map[int16][]byte{}}
	go func() {
		b := make([]byte, 70000)
		for {
			n, _, err := c.ReadFromUDP(b)
			if err != nil {
				return
			}
			v.got(append([]byte(nil), b[:n]...))
		}
	}()
	udpsender.GetInstance()
	return v
}
func (v *vColl) got(b []byte) {
	v.mu.Lock()
	defer v.mu.Unlock()
	switch string(b[:4]) {
	case "CAFE":
		v.packs = append(v.packs, b[4:])
	case "CAFN":
		n := int(binary.BigEndian.Uint16(b[4:]))
		d := netdata.NewDataInputX(b[6:])
		for i := 0; i < n; i++ {
			p := vSplit(d, b[6:])
			v.packs = append(v.packs, p)
		}
	case "CAFM":
		id := int64(binary.BigEndian.Uint64(b[8:]))
		total, num := int16(binary.BigEndian.Uint16(b[16:])), int16(binary.BigEndian.Uint16(b[18:]))
		d := netdata.NewDataInputX(b[20:])
		x, _ := d.ReadBlob()
		if v.frags[id] == nil {
			v.frags[id] = map[int16][]byte{}
		}
		v.frags[id][num] = x
		if len(v.frags[id]) == int(total) {
			var all []byte
			for i := int16(0); i < total; i++ {
				all = append(all, v.frags[id][i]...)
			}
			v.packs = append(v.packs, all)
		}
	}
}

// the next pack of a batch: only the kinds the agent queues
func vSplit(d *netdata.DataInputX, all []byte) []byte {
	code, _ := d.ReadInt8()
	out := netdata.NewDataOutputX(nil)
	out.WriteInt8(code)
	switch code {
	case 50:
		a, _ := d.ReadString()
		h, _ := d.ReadInt32()
		b, _ := d.ReadString()
		out.WriteString(a)
		out.WriteInt32(h)
		out.WriteString(b)
	}
	return out.Bytes()
}

const vMark = "verif-mark"

// everything received since the last call
func (v *vColl) drain() [][]byte {
	v.n++
	udpsender.GetInstance().AddPack(&netdata.TextPack{Xtype: texttype.TextType(vMark), Hash: int32(v.n), Text: "x"})
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		time.Sleep(20 * time.Millisecond)
		v.mu.Lock()
		ok := false
		for _, p := range v.packs {
			if x, y := vText(p); y && string(x.Xtype) == vMark && x.Hash == int32(v.n) {
				ok = true
			}
		}
		v.mu.Unlock()
		if ok {
			break
		}
	}
	time.Sleep(60 * time.Millisecond)
	v.mu.Lock()
	defer v.mu.Unlock()
	var r [][]byte
	for _, p := range v.packs {
		if x, y := vText(p); y && string(x.Xtype) == vMark {
			continue
		}
		r = append(r, p)
	}
	v.packs = nil
	return r
}
func vText(p []byte) (*netdata.TextPack, bool) {
	if len(p) == 0 || p[0] != 50 {
		return nil, false
	}
	d := netdata.NewDataInputX(p[1:])
	t := &netdata.TextPack{}
	s, _ := d.ReadString()
	t.Xtype = texttype.TextType(s)
	t.Hash, _ = d.ReadInt32()
	t.Text, _ = d.ReadString()
	return t, true
}
