// dir: scouterx/netio/tcpclient
package tcpclient

import (
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

type verifPeer struct {
	conn net.Conn
	done chan error
	cl   *TCPClient
}

func verifSession(t *testing.T, hash int32) *verifPeer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	c0, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	peer, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	ac.NetCollectorTcpSoTimeoutMs = 60000
	ac.ObjHash = hash
	cl := &TCPClient{conn: c0.(*net.TCPConn), objHash: hash}
	p := &verifPeer{conn: peer, done: make(chan error, 1), cl: cl}
	go func() {
		defer func() {
			if r := recover(); r != nil {
				p.done <- fmt.Errorf("panic: %v", r)
			}
		}()
		p.done <- cl.Process()
	}()
	peer.SetDeadline(time.Now().Add(20 * time.Second))
	return p
}
func (p *verifPeer) send(cmd string, param netdata.Pack) {
	o := netdata.NewDataOutputX(nil)
	o.WriteString(cmd)
	o.WritePack(param)
	b := o.Bytes()
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, uint32(len(b)))
	p.conn.Write(append(h, b...))
}
func (p *verifPeer) take(n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(p.conn, b); err != nil {
		return nil
	}
	return b
}

// reply: streamed blocks (blob) or one result pack, then the end marker
func (p *verifPeer) reply(blocks bool) (res netdata.Pack, data []byte, why string) {
	for n := 0; ; n++ {
		f := p.take(1)
		if f == nil {
			return nil, nil, "no complete reply"
		}
		if f[0] == 4 {
			return
		}
		if f[0] != 3 {
			return nil, nil, fmt.Sprintf("marker %d", f[0])
		}
		if blocks {
			l := p.take(1)
			if l == nil {
				return nil, nil, "block cut short"
			}
			m := int(l[0])
			if l[0] == 255 {
				m = int(binary.BigEndian.Uint16(p.take(2)))
			} else if l[0] == 254 {
				m = int(binary.BigEndian.Uint32(p.take(4)))
			}
			data = append(data, p.take(m)...)
			continue
		}
		if n > 0 {
			return nil, nil, "more than one result"
		}
		l := p.take(4)
		if l == nil {
			return nil, nil, "result cut short"
		}
		b := p.take(int(binary.BigEndian.Uint32(l)))
		var err error
		res, err = netdata.NewDataInputX(b).ReadPack()
		if err != nil {
			return nil, nil, "result does not decode"
		}
	}
}
func verifParam(kv ...string) netdata.Pack {
	m := netdata.NewMapPack()
	for i := 0; i+1 < len(kv); i += 2 {
		m.Put(kv[i], kv[i+1])
	}
	return m
}

func TestVerifSession(t *testing.T) {
	home, _ := ioutil.TempDir("", "verif")
	defer os.RemoveAll(home)
	os.Setenv("SCOUTER_AGENT_HOME", home)
	os.Setenv("SCOUTER_CONFIG", filepath.Join(home, "none.conf"))
	os.MkdirAll(filepath.Join(home, "dump"), 0755)
	os.MkdirAll(filepath.Join(home, "binary_dump"), 0755)
	text := strings.Repeat("0123456789abcdef\n", 700)
	ioutil.WriteFile(filepath.Join(home, "dump", "go_dump_1.log"), []byte(text), 0644)
	ioutil.WriteFile(filepath.Join(home, "binary_dump", "go_cpu_1.pprof"), []byte(text), 0644)
	fail := func(f string, a ...interface{}) {
		fmt.Printf("FAILING-INPUT: "+f+"\n", a...)
		t.Fail()
	}
	// the opening
	for _, h := range []int32{0, 1, -7, 0x7fffffff} {
		p := verifSession(t, h)
		b := p.take(8)
		if b == nil || binary.BigEndian.Uint32(b) != 0xCAFE1002 || int32(binary.BigEndian.Uint32(b[4:])) != h {
			fail("object %d: the session opens with % x", h, b)
		}
		p.conn.Close()
		select {
		case <-p.done:
		case <-time.After(5 * time.Second):
			fail("object %d: the session goes on after the connection was closed", h)
		}
		if t.Failed() {
			return
		}
	}
	bad := netdata.NewMapPack()
	bad.Put("txid", "not a number")
	bad.Put("fileName", int64(3))
	bad.Put("delfileName", int64(3))
	bad.Put("name", int64(3))
	bad.Put("setConfig", int64(3))
	steps := []struct {
		cmd    string
		param  netdata.Pack
		keys   string
		absent string
		blocks bool
	}{
		{"KEEP_ALIVE", verifParam(), "", "", false},
		{"NO_SUCH_COMMAND", verifParam("x", "y"), "", "", false},
		{"", verifParam(), "", "", false},
		{"OBJECT_RESET_CACHE", verifParam("mine", "1"), "mine", "", false},
		{"OBJECT_ACTIVE_SERVICE_LIST", verifParam(), "id elapsed service txid complete", "", false},
		{"OBJECT_THREAD_DETAIL", verifParam(), "State", "", false},
		{"LIST_CONFIGURE_WAS", verifParam(), "key value default", "", false},
		{"CONFIGURE_DESC", verifParam(), "net_collector_ip", "", false},
		{"CONFIGURE_VALUE_TYPE", verifParam(), "net_collector_ip", "", false},
		{"GET_CONFIGURE_WAS", verifParam(), "agentConfig configKey", "", false},
		{"OBJECT_DUMP_FILE_LIST", verifParam(), "name size last_modified", "", false},
		{"OBJECT_LIST_HEAP_DUMP", verifParam(), "name size", "last_modified", false},
		{"OBJECT_DUMP_FILE_DETAIL", verifParam("name", "go_dump_1.log"), "", "", true},
		{"OBJECT_DOWNLOAD_HEAP_DUMP", verifParam("fileName", "go_cpu_1.pprof"), "", "", true},
		{"OBJECT_DELETE_HEAP_DUMP", verifParam("delfileName", "go_cpu_1.pprof"), "success msg", "", false},
		{"OBJECT_DUMP_FILE_DETAIL", verifParam("name", "missing"), "", "", true},
		{"TRIGGER_BLOCK_PROFILE", verifParam(), "", "", false},
		{"TRIGGER_MUTEX_PROFILE", verifParam(), "", "", false},
		{"OBJECT_CALL_BLOCK_PROFILE", verifParam(), "success msg", "", false},
		{"OBJECT_CALL_MUTEX_PROFILE", verifParam(), "success msg", "", false},
		{"OBJECT_CALL_CPU_PROFILE", verifParam(), "success msg", "", false},
		{"TRIGGER_THREAD_DUMP", verifParam(), "name", "", false},
		{"SET_CONFIGURE_WAS", &netdata.TextPack{Text: "x"}, "result", "", false},
		{"OBJECT_DELETE_HEAP_DUMP", &netdata.TextPack{}, "", "", false},
		{"OBJECT_THREAD_DETAIL", bad, "*", "", false},
		{"OBJECT_DELETE_HEAP_DUMP", bad, "*", "", false},
		{"OBJECT_DUMP_FILE_DETAIL", bad, "", "", true},
		{"KEEP_ALIVE", verifParam(), "", "", false},
	}
	p := verifSession(t, 77)
	p.take(8)
	for n, s := range steps {
		p.conn.SetDeadline(time.Now().Add(10 * time.Second))
		p.send(s.cmd, s.param)
		res, data, why := p.reply(s.blocks)
		if why != "" {
			fail("command %d (%q): %s", n, s.cmd, why)
			break
		}
		if s.keys == "*" {
			continue
		}
		m, ok := res.(*netdata.MapPack)
		if s.keys == "" && res != nil {
			fail("command %d (%q) is answered by a result it does not have", n, s.cmd)
		}
		if s.keys != "" && !ok {
			fail("command %d (%q) is answered without its result", n, s.cmd)
			break
		}
		for _, k := range strings.Fields(s.keys) {
			if _, has := m.Table[k]; !has {
				fail("command %d (%q): the result lacks %q", n, s.cmd, k)
			}
		}
		if m != nil && s.absent != "" {
			if _, has := m.Table[s.absent]; has {
				fail("command %d (%q): the result is another command's", n, s.cmd)
			}
		}
		if s.cmd == "CONFIGURE_VALUE_TYPE" && m != nil {
			if _, dec := m.Table["net_collector_ip"].(*netdata.DecimalValue); !dec {
				fail("command %d (%q): the result is another command's", n, s.cmd)
			}
		}
		if s.cmd == "CONFIGURE_DESC" && m != nil {
			if _, tx := m.Table["net_collector_ip"].(*netdata.TextValue); !tx {
				fail("command %d (%q): the result is another command's", n, s.cmd)
			}
		}
		if s.blocks && len(s.param.(*netdata.MapPack).Table) == 1 && s.param.(*netdata.MapPack).GetString("name") != "missing" && string(data) != text {
			fail("command %d (%q): streamed %d bytes, the file has %d", n, s.cmd, len(data), len(text))
		}
	}
	// nothing more comes
	p.conn.SetDeadline(time.Now().Add(300 * time.Millisecond))
	if b := p.take(1); b != nil {
		fail("the last command is answered twice: % x", b)
	}
	p.conn.Close()
	select {
	case <-p.done:
	case <-time.After(5 * time.Second):
		fail("the session goes on after the connection was closed")
	}
	// a command is received while the object id changes: it is answered, then the session ends
	p = verifSession(t, 5)
	p.take(8)
	ac.ObjHash = 6
	p.send("OBJECT_ACTIVE_SERVICE_LIST", verifParam())
	if _, _, why := p.reply(false); why != "" {
		fail("command received while the object id changes: %s", why)
	}
	select {
	case <-p.done:
	case <-time.After(5 * time.Second):
		fail("the session of the former object id goes on")
	}
	p.conn.Close()
	// a frame that does not decode ends the session unanswered
	ac.ObjHash = 5
	p = verifSession(t, 5)
	p.take(8)
	p.conn.Write([]byte{0, 0, 0, 3, 1, 'x', 250})
	p.send("KEEP_ALIVE", verifParam())
	if b := p.take(1); b != nil {
		fail("after a frame that does not decode the session goes on: % x", b)
	}
	select {
	case <-p.done:
	case <-time.After(5 * time.Second):
		fail("the session goes on after a frame that does not decode")
	}
	p.conn.Close()
}
