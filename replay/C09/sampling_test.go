// dir: scouterx/strace
package strace

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
)

// one sampling group, as configured
type vGroup struct {
	on    bool
	pats  string
	steps [3]int32
	rates [4]int
	only  bool
}

func vMatch(pats, name string) bool { // exact names, prefix*, *suffix, *middle* and *
	if name == "" {
		return false
	}
	for _, p := range strings.Split(pats, ",") {
		p = strings.TrimSpace(p)
		q := strings.Trim(p, "*")
		switch {
		case p == "":
		case q == "":
			return true
		case strings.HasPrefix(p, "*") && strings.HasSuffix(p, "*"):
			if strings.Contains(name, q) {
				return true
			}
		case strings.HasPrefix(p, "*"):
			if strings.HasSuffix(name, q) {
				return true
			}
		case strings.HasSuffix(p, "*"):
			if strings.HasPrefix(name, q) {
				return true
			}
		default:
			if p == name {
				return true
			}
		}
	}
	return false
}

func TestVerifSampling(t *testing.T) {
	r := rand.New(rand.NewSource(9))
	c := conf.GetInstance()
	s := GetXlogSampler()
	pats := []string{"", "/a", "/a*", "*x", "*mid*", "/b,/c*", "/a,*x", "*", "/q,/r"}
	names := []string{"", "/a", "/ab", "/b", "/cx", "zmidz", "/q", "other", "/a/mid/x"}
	rates := []int{0, 100, 0, 100, 30, 99, 1}
	for trial := 0; trial < 4000; trial++ {
		excl, disc := "", ""
		if r.Intn(3) == 0 {
			excl = pats[r.Intn(len(pats))]
		}
		if r.Intn(3) == 0 {
			disc = pats[r.Intn(len(pats))]
		}
		var g [4]vGroup
		for i := range g {
			a := int32(r.Intn(50))
			b := a + int32(r.Intn(50))
			d := b + int32(r.Intn(50))
			g[i] = vGroup{r.Intn(2) == 0, pats[r.Intn(len(pats))], [3]int32{a, b, d}, [4]int{}, r.Intn(2) == 0}
			for j := range g[i].rates {
				g[i].rates[j] = rates[r.Intn(len(rates))]
			}
		}
		c.XlogSamplingExcludePatterns, c.XlogDiscardServicePatterns = excl, disc
		c.XlogPatternedSamplingEnabled, c.XlogPatternedSamplingServicePatterns, c.XlogPatternedSamplingOnlyProfile = g[0].on, g[0].pats, g[0].only
		c.XlogPatternedSamplingStep1Ms, c.XlogPatternedSamplingStep2Ms, c.XlogPatternedSamplingStep3Ms = g[0].steps[0], g[0].steps[1], g[0].steps[2]
		c.XlogPatternedSamplingStep1RatePct, c.XlogPatternedSamplingStep2RatePct, c.XlogPatternedSamplingStep3RatePct, c.XlogPatternedSamplingOverRatePct = g[0].rates[0], g[0].rates[1], g[0].rates[2], g[0].rates[3]
		c.XlogPatterned2SamplingEnabled, c.XlogPatterned2SamplingServicePatterns, c.XlogPatterned2SamplingOnlyProfile = g[1].on, g[1].pats, g[1].only
		c.XlogPatterned2SamplingStep1Ms, c.XlogPatterned2SamplingStep2Ms, c.XlogPatterned2SamplingStep3Ms = g[1].steps[0], g[1].steps[1], g[1].steps[2]
		c.XlogPatterned2SamplingStep1RatePct, c.XlogPatterned2SamplingStep2RatePct, c.XlogPatterned2SamplingStep3RatePct, c.XlogPatterned2SamplingOverRatePct = g[1].rates[0], g[1].rates[1], g[1].rates[2], g[1].rates[3]
		c.XlogPatterned3SamplingEnabled, c.XlogPatterned3SamplingServicePatterns, c.XlogPatterned3SamplingOnlyProfile = g[2].on, g[2].pats, g[2].only
		c.XlogPatterned3SamplingStep1Ms, c.XlogPatterned3SamplingStep2Ms, c.XlogPatterned3SamplingStep3Ms = g[2].steps[0], g[2].steps[1], g[2].steps[2]
		c.XlogPatterned3SamplingStep1RatePct, c.XlogPatterned3SamplingStep2RatePct, c.XlogPatterned3SamplingStep3RatePct, c.XlogPatterned3SamplingOverRatePct = g[2].rates[0], g[2].rates[1], g[2].rates[2], g[2].rates[3]
		c.XlogSamplingEnabled, c.XlogSamplingOnlyProfile = g[3].on, g[3].only
		c.XlogSamplingStep1Ms, c.XlogSamplingStep2Ms, c.XlogSamplingStep3Ms = g[3].steps[0], g[3].steps[1], g[3].steps[2]
		c.XlogSamplingStep1RatePct, c.XlogSamplingStep2RatePct, c.XlogSamplingStep3RatePct, c.XlogSamplingOverRatePct = g[3].rates[0], g[3].rates[1], g[3].rates[2], g[3].rates[3]
		s.Run()
		for k := 0; k < 6; k++ {
			name := names[r.Intn(len(names))]
			el := int32(r.Intn(160))
			if k < 3 {
				el = g[r.Intn(4)].steps[k]
			}
			tc := &netio.TraceContext{ServiceName: name}
			if r.Intn(8) == 0 {
				tc.Error = 5 - 10*int32(r.Intn(2))
			}
			want := netdata.XLOG_DISCARD_NONE
			rate := 100
			switch {
			case tc.Error != 0:
			case vMatch(disc, name):
				want = netdata.XLOG_DISCARD_ALL_FORCE
			case g[3].on && vMatch(excl, name):
			default:
				for i := range g {
					if g[i].on && (i == 3 || vMatch(g[i].pats, name)) {
						b := 0
						for b < 3 && el >= g[i].steps[b] {
							b++
						}
						rate = g[i].rates[b]
						want = netdata.XLOG_DISCARD_ALL
						if g[i].only {
							want = netdata.XLOG_DISCARD_PROFILE
						}
						break
					}
				}
			}
			what := func() string {
				return fmt.Sprintf("service %q, elapsed %d, error %d, exclude %q, discard %q, groups %+v", name, el, tc.Error, excl, disc, g)
			}
			if want == netdata.XLOG_DISCARD_NONE || want == netdata.XLOG_DISCARD_ALL_FORCE || rate == 0 || rate == 100 {
				if rate == 100 && want != netdata.XLOG_DISCARD_ALL_FORCE {
					want = netdata.XLOG_DISCARD_NONE
				}
				for j := 0; j < 5; j++ {
					if d := findXLogDiscard(tc, el); d != want {
						fail09(t, what()+fmt.Sprintf(": decision %d, expected %d", d, want))
					}
				}
				continue
			}
			kept, n := 0, 2000
			if trial%40 != 0 {
				n = 20
			}
			for j := 0; j < n; j++ {
				d := findXLogDiscard(tc, el)
				if d == netdata.XLOG_DISCARD_NONE {
					kept++
				} else if d != want {
					fail09(t, what()+fmt.Sprintf(": decision %d, expected none or %d", d, want))
				}
			}
			if n == 2000 && (kept == 0 || kept == n || kept < n*rate/100-150 || kept > n*rate/100+150) {
				fail09(t, what()+fmt.Sprintf(": kept %d of %d at rate %d", kept, n, rate))
			}
		}
	}
}
func fail09(t *testing.T, s string) {
	fmt.Println("FAILING-INPUT: " + s)
	t.FailNow()
}
