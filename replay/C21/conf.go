// dir: scouterx/conf flags: race
package conf

import (
	"fmt"
	"io/ioutil"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/magiconair/properties"
)

type vrun struct{}

func (vrun) Run() {}

func TestVerifConfRace(t *testing.T) {
	dir, err := ioutil.TempDir("", "verifconf")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("SCOUTER_AGENT_HOME", dir)
	os.Setenv("SCOUTER_CONFIG", dir+"/none.conf")
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		c := &Configure{}
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						t.Errorf("FAILING-INPUT: concurrent configuration access panicked: %v", r)
					}
				}()
				p := properties.NewProperties()
				for n := 0; n < 120; n++ {
					switch (n + g) % 9 {
					case 0:
						c.Refresh()
					case 1:
						AddToConfObserver(fmt.Sprint(n%5), vrun{})
					case 2:
						AddObjChangedObserver(vrun{})
					case 3:
						confChangeNotify()
					case 4:
						objChangeNotify()
					case 5:
						GetConfigureDescMap()
					case 6:
						boolOf(p, fmt.Sprint("b", n), true, "")
					case 7:
						intOf(p, fmt.Sprint("i", n), 1, "")
					case 8:
						stringOf(p, fmt.Sprint("s", n), "", "")
						stringOfType(p, fmt.Sprint("t", n), "", vtValue, "")
					}
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		fmt.Printf("FAILING-INPUT: concurrent configuration access never finishes (deadlock)\n")
		os.Exit(1)
	}
}
