// dir: scouterx/common/structure/lra flags: race
package lra

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"
	"time"
)

func TestVerifRace(t *testing.T) {
	done := make(chan bool)
	go func() {
		c := New(4)
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(s int64) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						t.Errorf("FAILING-INPUT: concurrent operations panicked: %v", r)
					}
				}()
				r := rand.New(rand.NewSource(s))
				for n := 0; n < 2500; n++ {
					k := r.Intn(9)
					switch r.Intn(8) {
					case 0, 1:
						c.Add(k, k)
						c.Remove(r.Intn(9))
					case 2:
						c.Size()
					case 3:
						c.Empty()
					case 4:
						c.Contains(k)
						c.Get(k)
					case 5:
						c.GetValues()
					case 6:
						if r.Intn(8) == 0 {
							c.Clear()
						}
					}
					if s := c.Size(); s > 4 {
						t.Errorf("FAILING-INPUT: %d entries in a cache of 4 under concurrent use", s)
						return
					}
				}
			}(int64(g))
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(25 * time.Second):
		fmt.Printf("FAILING-INPUT: concurrent operations on one cache never finish (deadlock)\n")
		os.Exit(1)
	}
}

func TestVerifDeadlock(t *testing.T) {
	c := New(64)
	for i := 0; i < 64; i++ {
		c.Add(i, i)
	}
	ops := []func(int){
		func(i int) { c.Size() },
		func(i int) { c.Empty() },
		func(i int) { c.Contains(i % 64) },
		func(i int) { c.GetValues() },
		func(i int) { c.Get(i % 64) },
	}
	for q, op := range ops {
		done := make(chan bool)
		go func() {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(2)
				go func() {
					defer wg.Done()
					for i := 0; i < 3000; i++ {
						op(i)
					}
				}()
				go func() {
					defer wg.Done()
					for i := 0; i < 3000; i++ {
						c.Add(i%70, i)
					}
				}()
			}
			wg.Wait()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(25 * time.Second):
			fmt.Printf("FAILING-INPUT: readers (operation %d) and writers of one cache never finish (deadlock)\n", q)
		os.Exit(1)
		}
	}
}
