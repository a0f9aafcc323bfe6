// dir: scouterx/counter flags: race
package counter

import (
	"fmt"
	"os"
	"sync"
	"testing"
	"time"
)

func TestVerifMeterRace(t *testing.T) {
	done := make(chan bool)
	go func() {
		s, v := GetServiceMeter(), NewValueMeter()
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for n := 0; n < 1500; n++ {
					switch (n + g) % 4 {
					case 0:
						s.Add(3, false)
					case 1:
						v.Add(2)
					case 2:
						s.GetAllCounter(30)
					case 3:
						v.GetAllCounter(30)
					}
				}
			}(g)
		}
		wg.Wait()
		w := NewValueMeter()
		t0 := time.Now().Unix()
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 5000; n++ {
					w.Add(1)
				}
			}()
		}
		wg.Wait()
		if r := w.GetAllCounter(300); time.Now().Unix()-t0 < 200 && r.Sum != 40000 {
			t.Errorf("FAILING-INPUT: 40000 concurrent Add(1): sum %v", r.Sum)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		fmt.Printf("FAILING-INPUT: concurrent use of the meters never finishes (deadlock)\n")
		os.Exit(1)
	}
}
