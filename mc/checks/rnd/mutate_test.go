package rnd

import (
	"fmt"
	"math"

	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
	"github.com/dgryski/go-pcgr"
	"verifmc/explore"
	"verifmc/vrand"
)

type np = normgeom.NormPoint
type group = normgeom.NormPointGroup

func clamp(v float64) float64 { return math.Max(0, math.Min(1, v)) }

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-12*(1+math.Abs(b)) }

type orderOf struct{ down, yx, sure bool }

// A method may go through the points in either direction, draw either axis first, and take no draw
// for a decision that is sure.
var orders = []orderOf{{}, {yx: true}, {down: true}, {down: true, yx: true}, {sure: true}, {yx: true, sure: true}, {down: true, sure: true}, {down: true, yx: true, sure: true}}

// plan says what a mutation method has to do with a group: the new position of each mutated point.
type plan map[int]np

// derive replays draws: draw gives the next one for the decision, move the next offset.
func derive(before group, rate float64, o orderOf, decide func() (bool, bool), move func() (float64, bool)) (plan, bool) {
	p := plan{}
	for n := range before {
		i := n
		if o.down {
			i = len(before) - 1 - n
		}
		yes, ok := rate >= 1, true
		if !o.sure || rate > 0 && rate < 1 {
			yes, ok = decide()
		}
		if !ok {
			return nil, false
		}
		if !yes {
			continue
		}
		a, ok1 := move()
		b, ok2 := move()
		if !ok1 || !ok2 {
			return nil, false
		}
		if o.yx {
			a, b = b, a
		}
		p[i] = np{X: clamp(before[i].X + a), Y: clamp(before[i].Y + b)}
	}
	return p, true
}

// agrees compares what happened with a plan.
func agrees(before, after group, muts []mutation.Mutation, p plan) string {
	if len(muts) != len(p) {
		return fmt.Sprintf("%d points were mutated, not %d", len(muts), len(p))
	}
	for _, m := range muts {
		w, ok := p[m.Index]
		if !ok {
			return fmt.Sprintf("point %d was mutated", m.Index)
		}
		if !near(m.New.X, w.X) || !near(m.New.Y, w.Y) {
			return fmt.Sprintf("point %d moved to %v, not %v", m.Index, m.New, w)
		}
	}
	return ""
}

// honest checks what holds for any draws.
func honest(c *explore.Ctx, before, after group, muts []mutation.Mutation) {
	c.Eval(len(after) + 1)
	if len(after) != len(before) {
		c.Fail("%d points became %d", len(before), len(after))
	}
	seen := map[int]bool{}
	for _, m := range muts {
		if m.Index < 0 || m.Index >= len(after) {
			c.Fail("the reported index %d is not one of %d points", m.Index, len(after))
		}
		if seen[m.Index] {
			c.Fail("point %d was reported twice", m.Index)
		}
		seen[m.Index] = true
		if m.Old != before[m.Index] {
			c.Fail("point %d was at %v, reported as %v", m.Index, before[m.Index], m.Old)
		}
		if m.New != after[m.Index] {
			c.Fail("point %d is at %v, reported as %v", m.Index, after[m.Index], m.New)
		}
	}
	for i := range after {
		if !seen[i] && after[i] != before[i] {
			c.Fail("point %d moved from %v to %v unreported", i, before[i], after[i])
		}
		if !(after[i].X >= 0 && after[i].X <= 1 && after[i].Y >= 0 && after[i].Y <= 1) {
			c.Fail("point %d lies at %v", i, after[i])
		}
	}
}

var spots = []np{{X: 0.5, Y: 0.25}, {X: 0, Y: 0}, {X: 1, Y: 1}, {X: 1, Y: 0.375}, {X: 0.1, Y: 1}, {X: 0.9, Y: 0.3}}

func chooseGroup(c *explore.Ctx, n, k int) group {
	g := group{}
	for i := 0; i < n; i++ {
		g = append(g, spots[c.Choose(k)])
	}
	return g
}

// uniformItem: the method with uniform moves.
func uniformItem(n, k, calls int, rates, amounts, draws []float64) explore.Item {
	return explore.Item{Name: fmt.Sprintf("uniform moves of %d points at %d places, %d calls, rates %v, amounts %v, %d draws", n, k, calls, rates, amounts, len(draws)), Run: func(c *explore.Ctx) {
		rate, amount := rates[c.Choose(len(rates))], amounts[c.Choose(len(amounts))]
		g := chooseGroup(c, n, k)
		m := mutation.NewRandomMethod(rate, amount)
		vals := append([]float64{}, draws...)
		if rate > 0 && rate <= 1 {
			vals = append(vals, math.Nextafter(rate, 0))
			if rate < 1 {
				vals = append(vals, rate)
			}
		}
		for call := 0; call < calls; call++ {
			before := g.Copy()
			var log []float64
			vrand.FloatHook = func() float64 {
				v := vals[c.Choose(len(vals))]
				log = append(log, v)
				if len(log) > 100 {
					c.Fail("more than 100 draws for %d points", n)
				}
				return v
			}
			var muts []mutation.Mutation
			func() {
				defer func() { vrand.FloatHook = nil }()
				m.Mutate(g, func(mu mutation.Mutation) { muts = append(muts, mu) })
			}()
			if c.Skipped() {
				return
			}
			c.Logf("rate %v, amount %v, %v -> %v, draws %v, reports %v", rate, amount, before, g, log, muts)
			honest(c, before, g, muts)
			why := ""
			for _, o := range orders {
				k := 0
				next := func() (float64, bool) {
					if k >= len(log) {
						return 0, false
					}
					k++
					return log[k-1], true
				}
				p, ok := derive(before, rate, o, func() (bool, bool) { v, ok := next(); return v < rate, ok },
					func() (float64, bool) { v, ok := next(); return (v - 0.5) * amount, ok })
				w := "the draws do not match"
				if ok && k == len(log) {
					w = agrees(before, g, muts, p)
				}
				if w == "" {
					why = ""
					break
				}
				if why == "" {
					why = w
				}
			}
			c.Eval(1)
			if why != "" {
				c.Fail("rate %v, amount %v, points %v, draws %v: %s", rate, amount, before, log, why)
			}
			c.Outcome(explore.NewH().I(len(muts)).F(rate).Sum())
		}
		h := explore.NewH()
		for _, p := range g {
			h = h.F(p.X).F(p.Y)
		}
		c.State(h.Sum())
	}}
}

type mutator interface {
	Mutate(points normgeom.NormPointGroup, mutated func(mutation mutation.Mutation))
}

// normalItem: the method with normal moves, given or default.
func normalItem(n, k, calls, chosen int, rates, amounts []float64, words []uint32) explore.Item {
	return explore.Item{Name: fmt.Sprintf("normal moves of %d points at %d places, %d calls, rates %v, amounts %v, %d words, the first %d chosen", n, k, calls, rates, amounts, len(words), chosen), Run: func(c *explore.Ctx) {
		rate, amount := rates[c.Choose(len(rates))], amounts[c.Choose(len(amounts))]
		var m mutator = mutation.NewGaussianMethod(rate, amount)
		runNormal(c, m, float32(rate), amount, n, k, calls, chosen, words)
	}}
}

func defaultItem(n, k, chosen int, sizes []int, words []uint32) explore.Item {
	return explore.Item{Name: fmt.Sprintf("default method for %v points, on %d points at %d places, %d words, the first %d chosen", sizes, n, k, len(words), chosen), Run: func(c *explore.Ctx) {
		size := sizes[c.Choose(len(sizes))]
		var m mutator = mutation.DefaultGaussianMethod(size)
		runNormal(c, m, 2/float32(size), 0.3, n, k, 1, chosen, words)
	}}
}

// threshold finds the words around which floats reach the rate.
func threshold(rate float32) []uint32 {
	if !(rate > 0 && rate <= 1) {
		return nil
	}
	lo, hi := uint64(0), uint64(1<<32) // the first word with a float at or above the rate
	for lo < hi {
		mid := (lo + hi) / 2
		if float32(uint32(mid))/float32(math.MaxUint32) >= rate {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	out := []uint32{uint32(lo - 1)}
	if lo < 1<<32-256 {
		out = append(out, uint32(lo))
	}
	return out
}

func runNormal(c *explore.Ctx, m mutator, rate float32, amount float64, n, k, calls, chosen int, words []uint32) {
	g := chooseGroup(c, n, k)
	words = append(append([]uint32{}, words...), threshold(rate)...)
	taken := 0
	for call := 0; call < calls; call++ {
		before := g.Copy()
		var log []uint32
		pcgr.NextHook = func() uint32 {
			w := uint32(0x3FFFFFFF)
			if taken < chosen {
				w = words[c.Choose(len(words))]
			} else if taken > chosen {
				w = uint32(taken)*2654435761 | 1
			}
			taken++
			if taken > 400 {
				c.Fail("more than 400 words for %d points", n)
			}
			log = append(log, w)
			return w
		}
		var muts []mutation.Mutation
		func() {
			defer func() { pcgr.NextHook = nil }()
			m.Mutate(g, func(mu mutation.Mutation) { muts = append(muts, mu) })
		}()
		if c.Skipped() {
			return
		}
		c.Logf("rate %v, amount %v, %v -> %v, words %x, reports %v", rate, amount, before, g, log, muts)
		honest(c, before, g, muts)
		why := ""
		for _, o := range orders {
			at, over := 0, false
			pcgr.NextHook = func() uint32 {
				if at >= len(log) {
					over = true
					at++
					return uint32(at)*2654435761 | 1
				}
				at++
				return log[at-1]
			}
			p, _ := derive(before, float64(rate), o, func() (bool, bool) { return random.Float32() < rate, true },
				func() (float64, bool) { return random.NormFloat64() * amount * 0.5, true })
			pcgr.NextHook = nil
			w := "the draws do not match"
			if !over && at == len(log) {
				w = agrees(before, g, muts, p)
			}
			if w == "" {
				why = ""
				break
			}
			if why == "" {
				why = w
			}
		}
		c.Eval(1)
		if why != "" {
			c.Fail("rate %v, amount %v, points %v, words %x: %s", rate, amount, before, log, why)
		}
		c.Outcome(explore.NewH().I(len(muts)).F(float64(rate)).Sum())
	}
	h := explore.NewH()
	for _, p := range g {
		h = h.F(p.X).F(p.Y)
	}
	c.State(h.Sum())
}

// manyItem: a group of n points, every point with its own place and draws.
func manyItem(n int, rates []float64, normal bool) explore.Item {
	kind := "uniform"
	if normal {
		kind = "normal"
	}
	return explore.Item{Name: fmt.Sprintf("%s moves of %d points with draws of their own, rates %v", kind, n, rates), Run: func(c *explore.Ctx) {
		rate := rates[c.Choose(len(rates))]
		amount := []float64{0.3, 1.5}[c.Choose(2)]
		start := c.Choose(2)
		g := group{}
		for i := 0; i < n; i++ {
			g = append(g, np{X: float64((i*7919+start)%1009) / 1008, Y: float64((i*104729+5)%4099) / 4098})
		}
		before := g.Copy()
		x := uint32(start*977 + n)
		word := func() uint32 {
			x = x*1664525 + 1013904223
			return x ^ x>>15
		}
		var floats []float64
		var words []uint32
		vrand.FloatHook = func() float64 {
			v := float64(word()) / (1 << 32)
			floats = append(floats, v)
			if len(floats) > 4*n+100 {
				c.Fail("%d draws for %d points", len(floats), n)
			}
			return v
		}
		pcgr.NextHook = func() uint32 {
			w := word()
			words = append(words, w)
			if len(words) > 20*n+400 {
				c.Fail("%d words for %d points", len(words), n)
			}
			return w
		}
		var muts []mutation.Mutation
		func() {
			defer func() { vrand.FloatHook, pcgr.NextHook = nil, nil }()
			if normal {
				mutation.NewGaussianMethod(rate, amount).Mutate(g, func(mu mutation.Mutation) { muts = append(muts, mu) })
			} else {
				mutation.NewRandomMethod(rate, amount).Mutate(g, func(mu mutation.Mutation) { muts = append(muts, mu) })
			}
		}()
		if c.Skipped() {
			return
		}
		c.Logf("%s moves of %d points, rate %v, amount %v: %d reports, %d draws, %d words", kind, n, rate, amount, len(muts), len(floats), len(words))
		honest(c, before, g, muts)
		why := ""
		for _, o := range orders {
			at, over := 0, false
			var p plan
			ok := true
			if normal {
				pcgr.NextHook = func() uint32 {
					at++
					if at > len(words) {
						over = true
						return uint32(at)*2654435761 | 1
					}
					return words[at-1]
				}
				p, ok = derive(before, rate, o, func() (bool, bool) { return random.Float32() < float32(rate), true },
					func() (float64, bool) { return random.NormFloat64() * amount * 0.5, true })
				pcgr.NextHook = nil
				ok = ok && !over && at == len(words)
			} else {
				next := func() (float64, bool) {
					at++
					if at > len(floats) {
						return 0, false
					}
					return floats[at-1], true
				}
				p, ok = derive(before, rate, o, func() (bool, bool) { v, ok := next(); return v < rate, ok },
					func() (float64, bool) { v, ok := next(); return (v - 0.5) * amount, ok })
				ok = ok && at == len(floats)
			}
			w := "the draws do not match"
			if ok {
				w = agrees(before, g, muts, p)
			}
			if w == "" {
				why = ""
				break
			}
			if why == "" {
				why = w
			}
		}
		c.Eval(1)
		if why != "" {
			c.Fail("%s moves of %d points, rate %v, amount %v: %s", kind, n, rate, amount, why)
		}
		c.Outcome(explore.NewH().I(len(muts)).F(rate).Sum())
		h := explore.NewH()
		for _, p := range g {
			h = h.F(p.X).F(p.Y)
		}
		c.State(h.Sum())
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C21",
		Bounds: "both mutation methods and the default one on every group of 0 to 3 points at corners, borders and inside and on groups of 4 to 70000 points (thorough: 600000), rates below, at and above 0 and 1 and between, several amounts; every sequence of random draws from an alphabet with extremes and the values just below and at the rate (normal moves: every sequence of the first source words, among them the retries of the normal deviate)",
		Assumptions: []string{
			"math/rand is replaced by a hooked stand-in at build time, the PCG source by a copy with a hook",
			"the normal deviates themselves are decided by C23; this check replays the same words through the random package",
		},
		Items: func(tier string) []explore.Item {
			one := math.Nextafter(1, 0)
			ext := []float64{0, 0.5, one}
			words := []uint32{0, 0x3FFFFFFF, 0x80000081, 0xFFFFFFFF, 0xC0000005}
			few := []uint32{0, 0x7FFFFF80, 0xC0000005}
			its := []explore.Item{
				uniformItem(0, 1, 2, []float64{0, 1}, []float64{1}, ext),
				uniformItem(1, 6, 1, []float64{-1, 0, 1e-9, 0.3, 0.5, 1, 2}, []float64{0, 1e-3, 0.5, 1, 3, 1e9}, append([]float64{0.25, 0.7}, ext...)),
				uniformItem(1, 6, 2, []float64{0, 0.5, 1}, []float64{0.5, 3}, ext),
				uniformItem(2, 5, 1, []float64{0, 0.3, 1}, []float64{0.5, 3}, ext),
				uniformItem(3, 2, 1, []float64{0, 0.5, 1}, []float64{1}, []float64{0, one}),
				normalItem(0, 1, 2, 0, []float64{0, 1}, []float64{1}, words),
				normalItem(1, 6, 1, 6, []float64{-1, 0, 1e-9, 0.3, 0.5, 1, 2}, []float64{0, 0.3, 1e3}, words),
				normalItem(1, 3, 2, 6, []float64{0.5, 1}, []float64{0.3}, few),
				normalItem(2, 4, 1, 6, []float64{0, 0.3, 1}, []float64{0.3}, few),
				normalItem(3, 2, 1, 8, []float64{0.5, 1}, []float64{0.3}, few),
				defaultItem(1, 6, 4, []int{1, 2, 3, 5, 8, 100, 3000}, words),
				defaultItem(2, 3, 6, []int{2, 3, 4, 5}, few),
			}
			sizes := []int{4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2049, 3000, 4097, 8193, 16385, 32769, 65535, 65537, 70000}
			if tier == "thorough" {
				for n := 10; n <= 260; n++ {
					sizes = append(sizes, n)
				}
				sizes = append(sizes, 131073, 262145, 600000)
			}
			for _, n := range sizes {
				for _, normal := range []bool{false, true} {
					its = append(its, manyItem(n, []float64{2 / float64(n), 0.3, 1}, normal))
				}
			}
			if tier == "thorough" {
				its = append(its,
					uniformItem(2, 6, 1, []float64{0, 0.3, 0.5, 1}, []float64{0.3, 1, 3}, append([]float64{0.25}, ext...)),
					uniformItem(3, 3, 1, []float64{0.3, 1}, []float64{1}, ext),
					uniformItem(2, 2, 2, []float64{0.5}, []float64{1}, []float64{0, one}),
					normalItem(2, 5, 1, 7, []float64{0.3, 0.5, 1}, []float64{0.3, 3}, words),
					normalItem(3, 3, 1, 9, []float64{0.5, 1}, []float64{0.3}, few),
					normalItem(2, 2, 2, 9, []float64{0.5, 1}, []float64{0.3}, few),
					defaultItem(3, 3, 9, []int{2, 3, 4, 5}, few),
				)
			}
			return its
		},
	})
}
