// dir: scouterx/common/util
package util

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

func refip(s string) [4]byte {
	p := strings.Split(s, ".")
	var r [4]byte
	if len(p) != 4 {
		return r
	}
	for i, x := range p {
		if x == "" {
			return [4]byte{}
		}
		n := 0
		for _, c := range []byte(x) {
			if c < '0' || c > '9' {
				return [4]byte{}
			}
			n = n*10 + int(c-'0')
			if n > 255 {
				return [4]byte{}
			}
		}
		r[i] = byte(n)
	}
	return r
}
func TestVerifC07(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	parts := []string{"", "0", "1", "9", "10", "99", "100", "127", "128", "199", "200", "249", "250", "254", "255", "256", "260", "300", "511", "999", "1000", "4294967296", "18446744073709551616", "18446744073709551617", "-1", "+1", "01", "0x1", "1e1", " 1", "1 ", "a", "１", "1_0", "255\x00"}
	type done struct {
		s    string
		got  []byte
		want [4]byte
	}
	var all []done
	for i := 0; i < 30000 && !t.Failed(); i++ {
		n := 4
		if r.Intn(6) == 0 {
			n = r.Intn(7)
		}
		var p []string
		for j := 0; j < n; j++ {
			if r.Intn(5) != 0 {
				p = append(p, fmt.Sprint(r.Intn(256)))
			} else {
				p = append(p, parts[r.Intn(len(parts))])
			}
		}
		s := strings.Join(p, ".")
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Errorf("FAILING-INPUT: IpToBytes(%q): panic %v", s, e)
				}
			}()
			all = append(all, done{s, IpToBytes(s), refip(s)})
			d := all[len(all)-1]
			if len(d.got) != 4 || string(d.got) != string(d.want[:]) {
				t.Errorf("FAILING-INPUT: IpToBytes(%q) = %v, want %v", s, d.got, d.want)
			}
		}()
	}
	for _, d := range all {
		if string(d.got) != string(d.want[:]) {
			t.Errorf("FAILING-INPUT: the result of IpToBytes(%q) changed to %v after later conversions", d.s, d.got)
			return
		}
	}
}
