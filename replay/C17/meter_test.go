// dir: scouterx/counter
package counter

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"
)

// age lets g seconds pass: the recorded seconds move g into the past
func ageMetering(m *Metering, g int) {
	n := m.bucketSize
	t := make([]interface{}, n)
	for i := 0; i < n; i++ {
		t[(((i-g)%n)+n)%n] = m.table[i]
	}
	m.table = t
	m.time -= g
	m.pos = ((m.time % n) + n) % n
}

type verifSample struct {
	at      int
	elapsed int
	err     bool
	value   float64
}

func TestVerifServiceMeter(t *testing.T) {
	gaps := []int{0, 0, 0, 1, 1, 2, 5, 29, 30, 31, 150, 299, 300, 301, 302, 400, 1000}
	periods := []int{1, 2, 5, 30, 299, 300, 301, 302, 500}
	for trial := 0; trial < 6000; trial++ {
		r := rand.New(rand.NewSource(int64(trial)))
		m := newVerifServiceMeter()
		var model []verifSample
		now := 0
		t0 := time.Now().Unix()
		hist := ""
		bad := ""
		for op := 0; op < 12 && bad == ""; op++ {
			switch r.Intn(3) {
			case 0:
				g := gaps[r.Intn(len(gaps))]
				ageMetering(m.metering, g)
				now += g
				hist += fmt.Sprintf(" +%ds", g)
			case 1:
				for k := r.Intn(3); k >= 0; k-- {
					e := r.Intn(2000000) - 5
					if r.Intn(4) == 0 {
						e = -r.Intn(100)
					}
					er := r.Intn(2) == 0
					m.Add(e, er)
					if e < 0 {
						e = 0
					}
					model = append(model, verifSample{at: now, elapsed: e, err: er})
					hist += fmt.Sprintf(" Add(%d,%v)", e, er)
				}
			case 2:
				p := periods[r.Intn(len(periods))]
				c := m.GetAllCounter(p)
				hist += fmt.Sprintf(" GetAllCounter(%d)", p)
				w := p
				if w > 300 {
					w = 300
				}
				n, el, er := 0, 0, 0
				for _, s := range model {
					if s.at > now-w {
						n++
						el += s.elapsed
						if s.err {
							er++
						}
					}
				}
				tps := float32(n) / float32(w)
				mean, rate := 0, float32(0)
				if n > 0 {
					mean = el / n
					rate = float32(er) / float32(n) * 100
				}
				if math.Abs(float64(c.Tps-tps)) > 1e-5 || c.Elapsed != mean || math.Abs(float64(c.ErrorRate-rate)) > 1e-3 {
					bad = fmt.Sprintf("%s gave tps=%v elapsed=%d errors=%v%%, want tps=%v elapsed=%d errors=%v%%", hist, c.Tps, c.Elapsed, c.ErrorRate, tps, mean, rate)
				}
			}
		}
		if time.Now().Unix() != t0 {
			continue // the real clock moved meanwhile
		}
		if bad != "" {
			fmt.Println("FAILING-INPUT: service meter:" + bad)
			t.Fatal(bad)
		}
	}
}

func newVerifServiceMeter() *ServiceMetering {
	s := GetServiceMeter()
	for _, b := range s.metering.table {
		sb := b.(*ServiceBucket)
		sb.count, sb.elapsed, sb.error = 0, 0, 0
	}
	s.metering.time = getTimestamp()
	s.metering.pos = s.metering.time % s.metering.bucketSize
	return s
}

func TestVerifServiceMeterShared(t *testing.T) {
	if GetServiceMeter() == nil || GetServiceMeter() != GetServiceMeter() {
		fmt.Println("FAILING-INPUT: GetServiceMeter does not return one shared meter")
		t.Fatal()
	}
	for _, b := range newVerifServiceMeter().metering.table {
		if *b.(*ServiceBucket) != (ServiceBucket{}) {
			t.Fatal()
		}
	}
}

func TestVerifValueMeter(t *testing.T) {
	gaps := []int{0, 0, 0, 1, 1, 2, 5, 29, 30, 31, 150, 299, 300, 301, 302, 400, 1000}
	periods := []int{1, 2, 5, 30, 299, 300, 301, 302, 500}
	for trial := 0; trial < 6000; trial++ {
		r := rand.New(rand.NewSource(int64(trial)))
		m := NewValueMeter()
		var model []verifSample
		now := 0
		t0 := time.Now().Unix()
		hist := ""
		bad := ""
		for op := 0; op < 12 && bad == ""; op++ {
			switch r.Intn(3) {
			case 0:
				g := gaps[r.Intn(len(gaps))]
				ageMetering(m.metering, g)
				now += g
				hist += fmt.Sprintf(" +%ds", g)
			case 1:
				for k := r.Intn(3); k >= 0; k-- {
					v := float64(r.Intn(9)-4) / 2
					m.Add(v)
					model = append(model, verifSample{at: now, value: v})
					hist += fmt.Sprintf(" Add(%v)", v)
				}
			case 2:
				p := periods[r.Intn(len(periods))]
				c := m.GetAllCounter(p)
				hist += fmt.Sprintf(" GetAllCounter(%d)", p)
				w := p
				if w > 300 {
					w = 300
				}
				n, sum, avg := 0, 0.0, 0.0
				for _, s := range model {
					if s.at > now-w {
						n++
						sum += s.value
					}
				}
				if n > 0 {
					avg = sum / float64(n)
				}
				if math.Abs(c.Sum-sum) > 1e-9 || math.Abs(c.Avg-avg) > 1e-9 {
					bad = fmt.Sprintf("%s gave sum=%v avg=%v, want sum=%v avg=%v", hist, c.Sum, c.Avg, sum, avg)
				}
			}
		}
		if time.Now().Unix() != t0 {
			continue
		}
		if bad != "" {
			fmt.Println("FAILING-INPUT: value meter:" + bad)
			t.Fatal(bad)
		}
	}
}
