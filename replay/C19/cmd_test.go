// dir: scouterx/netio/tcpclient
package tcpclient

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestVerifDumpCommands(t *testing.T) {
	top, err := ioutil.TempDir("", "govdump")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(top)
	os.Setenv("SCOUTER_AGENT_HOME", top)
	logger.Error = log.New(ioutil.Discard, "", 0)
	dir := filepath.Join(top, "binary_dump")
	os.MkdirAll(dir, 0755)
	run := func(cmd, key string) ([]byte, netdata.Pack) {
		p := netdata.NewMapPack()
		for _, k := range []string{"fileName", "delfileName", "name"} {
			p.Put(k, "other.pprof")
		}
		p.Put(key, "x.pprof")
		out := netdata.NewDataOutputX(nil)
		r := handle(cmd, p, nil, out)
		return out.Bytes(), r
	}
	for _, n := range []string{"x.pprof", "other.pprof"} {
		ioutil.WriteFile(filepath.Join(dir, n), []byte("this is "+n), 0644)
	}
	b, _ := run("OBJECT_DOWNLOAD_HEAP_DUMP", "fileName")
	if !bytes.Contains(b, []byte("this is x.pprof")) {
		fmt.Printf("FAILING-INPUT: OBJECT_DOWNLOAD_HEAP_DUMP fileName=x.pprof: reply %q\n", b)
		t.Fail()
	}
	run("OBJECT_DELETE_HEAP_DUMP", "delfileName")
	_, e1 := os.Stat(filepath.Join(dir, "x.pprof"))
	_, e2 := os.Stat(filepath.Join(dir, "other.pprof"))
	if e1 == nil || e2 != nil {
		fmt.Printf("FAILING-INPUT: OBJECT_DELETE_HEAP_DUMP delfileName=x.pprof: x.pprof still there: %v, other.pprof removed: %v\n", e1 == nil, e2 != nil)
		t.Fail()
	}
}
