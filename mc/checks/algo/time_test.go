package algo

import (
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/panjf2000/ants/v2"
	"verifmc/explore"
)

// slow evaluates with pauses.
type slow struct {
	*timing
	slot int
}

type timing struct {
	mu          sync.Mutex
	pause       func(slot int) time.Duration
	first, last time.Time
}

func (s slow) Calculate(d fitness.PointsData) float64 {
	s.mu.Lock()
	if s.first.IsZero() {
		s.first = time.Now()
	}
	p := s.pause(s.slot)
	s.mu.Unlock()
	time.Sleep(p)
	v := 0.
	for i, q := range d.Points {
		v -= (q.X - 0.3) * (q.X - 0.3) * float64(i+1)
	}
	s.mu.Lock()
	s.last = time.Now()
	s.mu.Unlock()
	return v
}

// timeItem explores how long the mutations and evaluations of each generation take, in a bubble with a clock of its
// own: the time reported for a generation reaches at least from the start of its first evaluation to the end of its last
// one, and at most from the beginning of the step to its end.
func timeItem(a acfg) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%s, times", a), Run: func(c *explore.Ctx) {
		scale := []time.Duration{time.Microsecond, time.Millisecond, 7 * time.Minute}[c.Choose(3)]
		type plan struct{ slowest, mutating int }
		plans := []plan{}
		for g := 0; g <= a.gens; g++ {
			plans = append(plans, plan{c.Choose(a.size + 1), c.Choose(2)})
		}
		if c.Skipped() {
			return
		}
		bad := ""
		h := explore.NewH()
		synctest.Test(c.T, func(t *testing.T) {
			ants.SubmitHook = nil
			tm := &timing{}
			fns := 0
			gen := 0
			tm.pause = func(slot int) time.Duration {
				p := time.Duration(slot+1) * scale / 64
				if slot == plans[gen].slowest {
					p += 5 * scale
				}
				return p
			}
			w := &world{mutate: func(call int, points group) []mutation.Mutation {
				time.Sleep(time.Duration(plans[gen].mutating) * scale)
				p := points[call%len(points)]
				n := np{X: p.X*0.9 + 0.03, Y: p.Y}
				return []mutation.Mutation{{Old: p, New: n, Index: call % len(points)}}
			}}
			w.inner = evaluator.NewMany(func() fitness.Function { fns++; return slow{tm, fns - 1} }, a.size)
			al := a.construct(w, func(k int) group { return offset(starts("scattered", a.points), k) })
			for gen = 1; gen <= a.gens; gen++ {
				tm.first = time.Time{}
				begin := time.Now()
				al.Step()
				took, got, least := time.Since(begin), al.Stats().TimeForGen, tm.last.Sub(tm.first)
				h = h.I(int(got))
				if (got < least || got > took) && bad == "" {
					bad = fmt.Sprintf("generation %d took %v, %v of it from its first evaluation to its last one; reported are %v", gen, took, least, got)
				}
				c.Logf("generation %d: took %v, reported %v", gen, took, got)
			}
		})
		c.Eval(a.gens)
		c.State(h.Sum())
		c.Outcome(h.Sum())
		if bad != "" {
			c.Fail("%s", bad)
		}
	}}
}

func timeItems(tier string) []explore.Item {
	items := []explore.Item{timeItem(acfg{"mg", 4, 1, 3, 2}), timeItem(acfg{"simple", 3, 1, 3, 2}), timeItem(acfg{"mg", 5, 2, 4, 1})}
	if tier == "thorough" {
		items = append(items, timeItem(acfg{"mg", 5, 2, 4, 3}), timeItem(acfg{"simple", 4, 2, 3, 3}))
	}
	return items
}
