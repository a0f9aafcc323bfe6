// dir: scouterx/netio with: udp_collector.go
package netio

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"strings"
	"testing"
)

func TestVerifTextDictionary(t *testing.T) {
	c := vCollector()
	kinds := []struct {
		name string
		f    func(string) int32
	}{{"service", SendServiceName}, {"hmsg", SendHashedMessage}, {"object", SendObjName}, {"referer", SendReferer}, {"ua", SendUserAgent},
		{"method", SendMethod}, {"apicall", SendApicall}, {"error", SendError}, {"login", SendLogin}, {"desc", SendDesc}, {"stackelem", SendStackElement}}
	fail := func(f string, a ...interface{}) {
		fmt.Printf("FAILING-INPUT: "+f+"\n", a...)
		t.FailNow()
	}
	texts := []string{"", "a", "b", "/service<GET>", "한글 이름", strings.Repeat("long ", 3000), "plumless", "buckeroo", " padded ", "\x9d\x0a\xd9\x6d", "line\nbreak", "MiXed Case", "x?q=1", "http://h/p?a=b#c", "trailing/"}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 60; i++ {
		texts = append(texts, fmt.Sprint("name-", r.Int63()))
	}
	known := make([]map[int32]bool, len(kinds))
	step := func(ops [][2]int) {
		var want []string
		var log []string
		for _, o := range ops {
			k, x := o[0], texts[o[1]]
			h := kinds[k].f(x)
			log = append(log, fmt.Sprintf("%s(%.40q)", kinds[k].name, x))
			w := int32(crc32.ChecksumIEEE([]byte(x)))
			if h != w {
				fail("kind %s text %.60q: identifier %d, want %d", kinds[k].name, x, h, w)
			}
			if x == "" {
				continue
			}
			if known[k] == nil {
				known[k] = map[int32]bool{}
			}
			if !known[k][w] {
				want = append(want, fmt.Sprintf("%s|%d|%s", kinds[k].name, w, x))
				known[k][w] = true
			}
		}
		var got []string
		for _, p := range c.drain() {
			if x, ok := vText(p); ok {
				got = append(got, fmt.Sprintf("%s|%d|%s", string(x.Xtype), x.Hash, x.Text))
			} else {
				fail("after %v a message that is no text message was sent: % x", log, p)
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			fail("after %.1500s the messages sent are %.600q, want %.600q", strings.Join(log, " "), got, want)
		}
	}
	c.drain()
	for round := 0; round < 3; round++ {
		for k := range kinds {
			known[k] = nil
		}
		ResetTextSent()
		for k := range kinds {
			step([][2]int{{k, 1}, {k, 1}, {k, 0}, {k, 2}, {k, 1}, {k, 3}, {k, 4}, {k, 5}, {k, 4}, {k, 6}, {k, 7}})
			var all [][2]int
			for i := range texts {
				all = append(all, [2]int{k, i}, [2]int{k, i})
			}
			step(all)
		}
		var ops [][2]int
		for i := 0; i < 300; i++ {
			ops = append(ops, [2]int{r.Intn(len(kinds)), r.Intn(len(texts))})
		}
		step(ops)
	}
}
