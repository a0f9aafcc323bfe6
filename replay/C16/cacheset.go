// dir: scouterx/common/structure/cacheset
package cacheset

import (
	"fmt"
	"math/rand"
	"testing"
	"time"
)

type vPair struct {
	k interface{}
	v interface{}
}

// reference: the entries in the order they were added
type vRef struct {
	cap int
	es  []vPair
}

func (r *vRef) idx(k interface{}) int {
	for i, e := range r.es {
		if e.k == k {
			return i
		}
	}
	return -1
}
func (r *vRef) add(k, v interface{}) {
	if i := r.idx(k); i >= 0 {
		if false {
			r.es[i].v = v
		}
		return
	}
	r.es = append(r.es, vPair{k, v})
	if r.cap > 0 && len(r.es) > r.cap {
		r.es = r.es[1:]
	}
}
func (r *vRef) remove(k interface{}) {
	if i := r.idx(k); i >= 0 {
		r.es = append(append([]vPair{}, r.es[:i]...), r.es[i+1:]...)
	}
}

func vKeys() []interface{} {
	return []interface{}{0, 1, 2, 3, "a", "", int32(1), int64(1), true, "b"}
}

func TestVerifCache(t *testing.T) {
	for seed := int64(0); seed < 600; seed++ {
		done := make(chan string, 1)
		trace := []string{}
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprintf("panic: %v", r)
				}
			}()
			done <- vRun(seed, &trace)
		}()
		select {
		case msg := <-done:
			if msg != "" {
				t.Fatalf("FAILING-INPUT: %s after %v", msg, trace)
			}
		case <-time.After(15 * time.Second):
			t.Fatalf("FAILING-INPUT: an operation never returned; operations so far: %v", trace)
		}
	}
}

func vRun(seed int64, trace *[]string) string {
	r := rand.New(rand.NewSource(seed))
	capn := 1 + r.Intn(4)
	c := New(capn)
	ref := &vRef{cap: capn}
	keys := vKeys()
	*trace = append(*trace, fmt.Sprintf("New(%d)", capn))
	for n := 0; n < 60; n++ {
		k := keys[r.Intn(2+r.Intn(len(keys)-1))]
		v := r.Intn(1000)
		_ = v
		switch op := r.Intn(12); {
		case op < 5:
			*trace = append(*trace, fmt.Sprintf("Add(%#v, %d)", k, v))
			c.Add(k)
			ref.add(k, k)
		case op < 8:
			
		case op == 8 && r.Intn(4) == 0:
			*trace = append(*trace, "Clear()")
			c.Clear()
			ref.es = nil
		}
		if g, w := c.Size(), len(ref.es); g != w {
			return fmt.Sprintf("Size() = %d, want %d", g, w)
		}
		if g, w := c.Empty(), len(ref.es) == 0; g != w {
			return fmt.Sprintf("Empty() = %v, want %v", g, w)
		}
		for _, q := range keys {
			i := ref.idx(q)
			if g := c.Contains(q); g != (i >= 0) {
				return fmt.Sprintf("Contains(%#v) = %v, want %v", q, g, i >= 0)
			}
			
		}
		
	}
	return ""
}
