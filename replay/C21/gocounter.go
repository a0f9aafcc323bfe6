// dir: scouterx/counter/gocounter flags: race
package gocounter

import (
	"fmt"
	"os"
	"sync"
	"testing"
	"time"
)

func TestVerifGoCounterRace(t *testing.T) {
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var c GoCounter
				for n := 0; n < 50; n++ {
					c = GetGoCounter(c)
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(25 * time.Second):
		fmt.Printf("FAILING-INPUT: concurrent GetGoCounter never finishes (deadlock)\n")
		os.Exit(1)
	}
}
