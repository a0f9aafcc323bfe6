// dir: scouterx/netio/udpsender
package udpsender

import (
	"fmt"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

// the queue to the collector is full
func TestVerifQueue(t *testing.T) {
	conf.GetInstance()
	u := &UDPSender{udpChannel: make(chan []byte, 1)}
	done := make(chan int, 1)
	at := time.Now()
	go func() {
		for i := 0; i < 3; i++ {
			u.AddPack(&netdata.TextPack{Text: "x"})
			u.AddBuffer([]byte("x"))
		}
		done <- 1
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
	}
	if d := time.Since(at); d > 800*time.Millisecond {
		fmt.Printf("FAILING-INPUT: queueing into a full queue took %v\n", d)
		t.Fail()
	}
}
