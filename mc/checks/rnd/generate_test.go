package rnd

import (
	"fmt"
	"math"

	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/normgeom"
	"verifmc/explore"
	"verifmc/vrand"
)

// draws feeds the hooks and logs what they gave.
type draws struct {
	floats []float64
	ints   []int
}

func (d *draws) run(c *explore.Ctx, limit int, float func() float64, bounded func(n int) int, f func()) {
	vrand.FloatHook = func() float64 {
		if len(d.floats) > limit {
			c.Fail("more than %d draws", limit)
		}
		v := float()
		d.floats = append(d.floats, v)
		return v
	}
	vrand.IntHook = func(n int) int {
		if len(d.ints) > limit {
			c.Fail("more than %d draws", limit)
		}
		v := bounded(n)
		d.ints = append(d.ints, v)
		return v
	}
	defer func() { vrand.FloatHook, vrand.IntHook = nil, nil }()
	f()
}

func inSquare(c *explore.Ctx, g group, n int) {
	c.Eval(1 + len(g))
	if len(g) != n {
		c.Fail("%d points were asked for, %d generated", n, len(g))
	}
	for i, p := range g {
		if !(p.X >= 0 && p.X <= 1 && p.Y >= 0 && p.Y <= 1) {
			c.Fail("point %d lies at %v", i, p)
		}
	}
}

// start reads the random group a run begins with out of its draws.
func start(fl []float64, n int, yx bool) group {
	g := group{}
	for i := 0; i < n; i++ {
		p := np{X: fl[2*i], Y: fl[2*i+1]}
		if yx {
			p.X, p.Y = p.Y, p.X
		}
		g = append(g, p)
	}
	return g
}

func sameMulti(a, b group) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[np]int{}
	for _, p := range a {
		m[p]++
	}
	for _, p := range b {
		m[p]--
		if m[p] < 0 {
			return false
		}
	}
	return true
}

func randomItem(n int, vals []float64, twice bool) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%d random points, %d draws, twice %v", n, len(vals), twice), Run: func(c *explore.Ctx) {
		runs := 1
		if twice {
			runs = 2
		}
		var old, kept group
		for r := 0; r < runs; r++ {
			var d draws
			var g group
			var gen generator.Generator = generator.RandomGenerator{}
			d.run(c, 4*n+8, func() float64 { return vals[c.Choose(len(vals))] }, func(n int) int { return c.Choose(n) }, func() { g = gen.Generate(n) })
			if c.Skipped() {
				return
			}
			c.Logf("draws %v -> %v", d.floats, g)
			randomGroup(c, g, n, d)
			if r == 1 {
				for i := range old {
					if old[i] != kept[i] {
						c.Fail("generating again changed the first group from %v to %v", kept, old)
					}
				}
			}
			old, kept = g, g.Copy()
			h := explore.NewH()
			for _, p := range g {
				h = h.F(p.X).F(p.Y)
			}
			c.State(h.Sum())
		}
		c.Outcome(explore.NewH().I(n).Sum())
	}}
}

func randomGroup(c *explore.Ctx, g group, n int, d draws) {
	inSquare(c, g, n)
	if len(d.floats) != 2*n {
		c.Fail("%d points took %d draws", n, len(d.floats))
	}
	if !sameMulti(g, start(d.floats, n, false)) && !sameMulti(g, start(d.floats, n, true)) {
		c.Fail("the draws %v gave the points %v", d.floats, g)
	}
}

// lcg gives a deterministic sequence of floats.
type lcg uint64

func (l *lcg) next() uint64 {
	*l = *l*6364136223846793005 + 1442695040888963407
	x := uint64(*l)
	return (x ^ x>>29) * 0x9e3779b97f4a7c15
}
func (l *lcg) float() float64 { return float64(l.next()>>11) / (1 << 53) }

func largeItem(ns, its []int, seeds int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("generators of %v points, %v iterations, %d seeds", ns, its, seeds), Run: func(c *explore.Ctx) {
		n := ns[c.Choose(len(ns))]
		it := its[c.Choose(len(its))]
		l := lcg(c.Choose(seeds)*7919 + 13)
		if c.Skipped() {
			return
		}
		if it < 0 {
			var d draws
			var g group
			d.run(c, 4*n+8, l.float, func(n int) int { return int(l.next() % uint64(n)) }, func() { g = generator.RandomGenerator{}.Generate(n) })
			randomGroup(c, g, n, d)
			return
		}
		var d draws
		var g group
		d.run(c, 4*(n+it)+8, l.float, func(n int) int { return int(l.next() >> 8 % uint64(n)) }, func() { g = generator.NewSpacedGenerator(it).Generate(n) })
		spacedGroup(c, g, n, it, d)
		c.State(explore.NewH().I(n).I(it).U(uint64(l)).Sum())
	}}
}

// nearest is the distance to the closest other point, -1 if there is none.
func nearest(p np, g group, skip int) float64 {
	best := -1.
	for i, q := range g {
		if i == skip {
			continue
		}
		if d := (p.X-q.X)*(p.X-q.X) + (p.Y-q.Y)*(p.Y-q.Y); best < 0 || d < best {
			best = d
		}
	}
	return best
}

func spacedGroup(c *explore.Ctx, g group, n, it int, d draws) {
	inSquare(c, g, n)
	if n == 0 {
		return
	}
	if len(d.floats) != 2*n+2*it || len(d.ints) != it {
		c.Fail("%d points and %d iterations took %d floats and %d indices", n, it, len(d.floats), len(d.ints))
	}
	why := ""
	for o := 0; o < 4; o++ {
		w := follow(c, g, n, it, d, o&1 != 0, o&2 != 0)
		if w == "" {
			return
		}
		if why == "" {
			why = w
		}
	}
	c.Fail("%d points, %d iterations, draws %v %v: %s", n, it, clipF(d.floats), d.ints, why)
}

func clipF(f []float64) string {
	if len(f) > 20 {
		return fmt.Sprintf("%v...", f[:20])
	}
	return fmt.Sprint(f)
}

// follow replays the draws and compares the final group. Moves on which the distances differ only by rounding may go
// either way.
func follow(c *explore.Ctx, g group, n, it int, d draws, yx0, yx bool) string {
	states := []group{start(d.floats, n, yx0)}
	for k := 0; k < it; k++ {
		temp := math.Pow(0.02, float64(k)/float64(it))
		a, b := (d.floats[2*n+2*k]-0.5)*temp, (d.floats[2*n+2*k+1]-0.5)*temp
		if yx {
			a, b = b, a
		}
		i := d.ints[k]
		next := []group{}
		for _, s := range states {
			p := np{X: clamp(s[i].X + a), Y: clamp(s[i].Y + b)}
			was, is := nearest(s[i], s, i), nearest(p, s, i)
			moved := s.Copy()
			moved[i] = p
			close := is != was && math.Abs(is-was) < 1e-12
			if is > was || close {
				next = append(next, moved)
			}
			if is <= was || close {
				next = append(next, s)
			}
		}
		states = next
		if len(states) > 64 {
			return "" // too many moves on the edge of rounding
		}
	}
	c.Eval(it + n)
	for _, s := range states {
		ok := true
		for i := range s {
			if !near(g[i].X, s[i].X) || !near(g[i].Y, s[i].Y) {
				ok = false
			}
		}
		if ok {
			return ""
		}
	}
	return fmt.Sprintf("the points are %v, not %v", g, states[0])
}

func spacedItem(n, it int, vals []float64, twice bool) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%d spaced points, %d iterations, %d draws, twice %v", n, it, len(vals), twice), Run: func(c *explore.Ctx) {
		var gen interface {
			Generate(n int) normgeom.NormPointGroup
		} = generator.NewSpacedGenerator(it)
		runs := 1
		if twice {
			runs = 2
		}
		for r := 0; r < runs; r++ {
			var d draws
			var g group
			d.run(c, 4*(n+it)+8, func() float64 { return vals[c.Choose(len(vals))] }, func(n int) int { return c.Choose(n) }, func() { g = gen.Generate(n) })
			if c.Skipped() {
				return
			}
			c.Logf("draws %v %v -> %v", d.floats, d.ints, g)
			spacedGroup(c, g, n, it, d)
			h := explore.NewH()
			for _, p := range g {
				h = h.F(p.X).F(p.Y)
			}
			c.State(h.Sum())
		}
		c.Outcome(explore.NewH().I(n).I(it).Sum())
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C22",
		Bounds: "the random generator for 0 to 4 points and the spaced generator for 0 to 3 points and 0 to 3 iterations (thorough: up to 4 of either), every sequence of random draws from an alphabet of exact binary fractions and extremes, every index drawn; one generator used twice; also with fixed sequences of draws: the random generator for every count up to 700 and up to 131073 points, the spaced generator for up to 70001 points and up to 40000 iterations",
		Assumptions: []string{
			"math/rand is replaced by a hooked stand-in at build time",
			"moves after which the nearest distance differs from the one before only by rounding may be taken or not",
		},
		Items: func(tier string) []explore.Item {
			one := math.Nextafter(1, 0)
			v5 := []float64{0, 0.25, 0.5, 0.75, one}
			v4 := []float64{0, 0.25, 0.5, one}
			v3 := []float64{0, 0.5, one}
			v2 := []float64{0.25, one}
			its := []explore.Item{
				randomItem(0, v5, true), randomItem(1, v5, true), randomItem(2, v5, false), randomItem(2, v2, true), randomItem(3, v4, false), randomItem(4, v3, false),
				spacedItem(0, 0, v5, true), spacedItem(0, 2, v5, true), spacedItem(1, 0, v5, false), spacedItem(1, 1, v5, true), spacedItem(1, 3, v4, false),
				spacedItem(2, 0, v5, false), spacedItem(2, 1, v5, false), spacedItem(2, 2, v4, false), spacedItem(2, 3, v3, false),
				spacedItem(3, 0, v4, false), spacedItem(3, 1, v4, false), spacedItem(3, 2, v3, false), spacedItem(2, 1, v3, true),
				largeItem([]int{1, 2, 5, 17, 60, 300}, []int{-1, 0, 1, 2, 7, 50, 400}, 16),
				largeItem([]int{2, 3, 4, 8, 16, 32, 33, 64, 65, 100, 128, 129, 256, 257, 512, 513, 1000, 1025, 1500, 2049, 4097}, []int{0, 1, 3, 20, 150}, 4),
				largeItem([]int{8191, 8193, 16385, 32769, 65537, 70001}, []int{0, 1, 5}, 2),
				largeItem([]int{2, 3, 9, 40}, []int{1000, 5000, 40000}, 4),
			}
			all := []int{}
			for n := 0; n <= 700; n++ {
				all = append(all, n)
			}
			its = append(its, largeItem(append(all, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073), []int{-1}, 2))
			if tier == "thorough" {
				its = append(its, spacedItem(2, 2, v5, false), spacedItem(3, 1, v5, false), spacedItem(2, 3, v4, false), spacedItem(4, 1, v3, false),
					spacedItem(4, 2, v2, false), spacedItem(2, 4, v3, false), spacedItem(3, 3, v2, false), spacedItem(2, 2, v3, true),
					largeItem([]int{3, 100, 1000}, []int{-1, 10, 1000}, 64))
			}
			return its
		},
	})
}
