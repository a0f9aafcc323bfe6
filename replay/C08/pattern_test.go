// dir: scouterx/common/util
package util

import (
	"fmt"
	"strings"
	"testing"
)

// does p match t when '*' stands for any text
func vGlob(p, t string) bool {
	if p == "" {
		return t == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(t); i++ {
			if vGlob(p[1:], t[i:]) {
				return true
			}
		}
		return false
	}
	return t != "" && p[0] == t[0] && vGlob(p[1:], t[1:])
}

func vWords(max int) []string {
	r := []string{""}
	for i := 0; i < len(r); i++ {
		if len(r[i]) < max {
			r = append(r, r[i]+"a", r[i]+"b")
		}
	}
	return r
}

func TestVerifPatterns(t *testing.T) {
	texts := append(vWords(6), "/shop/item<GET>", "/shop/item/7<GET>", "/shop<POST>", strings.Repeat("ab", 40))
	parts := vWords(3)[1:]
	var ps []string
	ps = append(ps, "*", "**")
	for _, a := range append(append([]string{}, parts...), "/shop", "<GET>", strings.Repeat("ab", 40)) {
		ps = append(ps, a, a+"*", "*"+a, "*"+a+"*")
		for _, b := range append(append([]string{}, parts...), "item", "<GET>") {
			ps = append(ps, a+"*"+b, a+"*"+b+"*", "*"+a+"*"+b, "*"+a+"*"+b+"*")
		}
	}
	for _, p := range ps {
		m := NewCommaSeparatedChainedStrMatcher(p)
		for _, x := range texts {
			if got, want := m.IsMatch(x), x != "" && vGlob(p, x); got != want {
				fmt.Printf("FAILING-INPUT: pattern %q, name %q: match=%v, want %v\n", p, x, got, want)
				t.FailNow()
			}
		}
	}
	lists := [][]string{{"a*", "*b"}, {"b", "a", "ab"}, {"", "ab*"}, {"a*", "", "*"}, {"ba", "*a*b*", "b*"}, {"x", "y", "aab"}}
	for _, l := range lists {
		m := NewCommaSeparatedChainedStrMatcher(strings.Join(l, ","))
		for _, x := range texts {
			want := false
			for _, p := range l {
				want = want || x != "" && vGlob(p, x)
			}
			if got := m.IsMatch(x); got != want {
				fmt.Printf("FAILING-INPUT: patterns %q, name %q: match=%v, want %v\n", l, x, got, want)
				t.FailNow()
			}
		}
	}
}
