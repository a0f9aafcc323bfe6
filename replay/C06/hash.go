// dir: scouterx/common/util
package util

import (
	"hash/crc32"
	"math/rand"
	"testing"
)

func TestVerifC06(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	try := func(b []byte) {
		defer func() {
			if e := recover(); e != nil {
				t.Errorf("FAILING-INPUT: Hash of %d bytes %.40x: panic %v", len(b), b, e)
			}
		}()
		want := int32(crc32.ChecksumIEEE(b))
		c := append([]byte(nil), b...)
		if g := Hash(b); g != want {
			t.Errorf("FAILING-INPUT: Hash of %d bytes %.40x = %d, CRC-32 is %d", len(b), b, g, want)
		}
		if string(c) != string(b) {
			t.Errorf("FAILING-INPUT: Hash changed its argument %.40x", c)
		}
		for i := 0; i < 2; i++ {
			if g := HashString(string(c)); g != want {
				t.Errorf("FAILING-INPUT: HashString of %d bytes %.40x = %d, CRC-32 is %d", len(b), b, g, want)
			}
		}
	}
	try(nil)
	for i := 0; i < 256; i++ {
		try([]byte{byte(i)})
		for j := 0; j < 256; j += 1 + r.Intn(7) {
			try([]byte{byte(i), byte(j)})
		}
	}
	for i := 0; i < 4000 && !t.Failed(); i++ {
		n := r.Intn(70)
		switch r.Intn(40) {
		case 0:
			n = r.Intn(5000)
		case 1:
			n = 1<<uint(5+r.Intn(13)) + r.Intn(3) - 1
		}
		b := make([]byte, n)
		r.Read(b)
		try(b)
	}
}
