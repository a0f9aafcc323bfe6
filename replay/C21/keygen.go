// dir: scouterx/common/util/keygen flags: race
package keygen

import (
	"fmt"
	"os"
	"sync"
	"testing"
	"time"
)

func TestVerifKeygenRace(t *testing.T) {
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						t.Errorf("FAILING-INPUT: concurrent Next panicked: %v", r)
					}
				}()
				for n := 0; n < 5000; n++ {
					Next()
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(25 * time.Second):
		fmt.Printf("FAILING-INPUT: concurrent Next never finishes (deadlock)\n")
		os.Exit(1)
	}
}
