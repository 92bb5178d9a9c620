package algo

import (
	"fmt"
	"image"
	"image/color"
	mrand "math/rand"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/random"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/utils"
	"verifmc/explore"
)

var edgeSpots = []np{{X: 0, Y: 0}, {X: 1, Y: 1}, {X: 1, Y: 0}, {X: 0.5, Y: 0.5}, {X: 0, Y: 1}, {X: 0.999999, Y: 0.000001}, {X: 0.3, Y: 1}}

// draw renders a group in every way.
func draw(c *explore.Ctx, s scene, g group) {
	im := s.ref().im
	ps := polygonation.Polygonate(g, s.w, s.h)
	ts := triangulation.Triangulate(g, s.w, s.h)
	if n := len(render.PolygonsOnImage(ps, im)); n != len(ps) {
		c.Fail("%d polygons rendered as %d", len(ps), n)
	}
	if n := len(render.TrianglesOnImage(ts, im)); n != len(ts) {
		c.Fail("%d triangles rendered as %d", len(ts), n)
	}
	c.Eval(2)
}

func completed(c *explore.Ctx, r rcfg, w *world) {
	for _, rd := range w.rounds {
		c.Eval(len(rd.evals))
		if len(rd.best) != r.points {
			c.Fail("the best group has %d points instead of %d", len(rd.best), r.points)
		}
	}
	seen := map[string]bool{}
	for _, rd := range w.rounds {
		for _, e := range rd.evals {
			if k := key(e.points); !seen[k] {
				seen[k] = true
				draw(c, r.scene, e.points)
			}
		}
	}
}

// gridItem runs every combination of sizes, each with a few patterns of moves.
func gridItem(deep bool) explore.Item {
	return explore.Item{Name: "every combination of image, block, points, cache and population sizes", Run: func(c *explore.Ctx) {
		sizes := []int{1, 2, 3, 7}
		blocks := []int{1, 2, 5, 20}
		alg := []acfg{{"mg", 2, 1, 0, 2}, {"mg", 4, 1, 0, 2}, {"mg", 6, 3, 0, 2}, {"simple", 1, 1, 0, 2}, {"simple", 3, 1, 0, 2}, {"simple", 4, 3, 0, 2}}
		if deep {
			sizes = []int{1, 2, 3, 4, 7, 16}
			blocks = []int{1, 2, 3, 5, 8, 20}
		}
		w := sizes[c.Choose(len(sizes))]
		h := sizes[c.Choose(len(sizes))]
		b := blocks[c.Choose(len(blocks))]
		a := alg[c.Choose(len(alg))]
		a.points = []int{3, 4, 6}[c.Choose(3)]
		cache := []int{0, 4}[c.Choose(2)]
		polys := c.Choose(2) == 1
		start := []string{"scattered", "corners", "same", "line"}[c.Choose(4)]
		st := c.Choose(2)
		if c.Skipped() {
			return
		}
		r := rcfg{acfg: a, scene: scene{w, h, 0, b, polys}, cache: cache, start: start, to: edgeSpots, pairs: true, all: true}
		c.Logf("%s", r.name())
		realItem(r, func(_ *explore.Ctx, call, n int) int { return (call*(7+6*st) + 5*st) % n }, completed).Run(c)
	}}
}

// plainItem runs the evaluators without caches.
func plainItem() explore.Item {
	return explore.Item{Name: "evaluators with one and with many plain functions", Run: func(c *explore.Ctx) {
		mg := c.Choose(2) == 0
		many := c.Choose(2) == 0
		cut := 1 + c.Choose(4)
		size := 2*cut + c.Choose(6)
		pts := 1 + c.Choose(4)
		gauss := c.Choose(2) == 0
		seed := c.Choose(4)
		if c.Skipped() {
			return
		}
		mrand.Seed(int64(seed))
		random.Seed(int64(seed))
		var m mutation.Method = mutation.NewRandomMethod(0.5, 1)
		if gauss {
			m = mutation.NewGaussianMethod(0.5, 1)
		}
		ev := func(n int) evaluator.Evaluator {
			if many {
				return evaluator.NewMany(func() fitness.Function { return sumFn{} }, n)
			}
			return evaluator.NewOne(sumFn{})
		}
		factory := func() group { return generator.NewSpacedGenerator(3).Generate(pts) }
		inline(c, func() {
			var al algorithm.Algorithm
			if mg {
				al = algorithm.NewModifiedGenetic(factory, size, cut, ev, m)
			} else {
				al = algorithm.NewSimple(factory, size, cut, ev, m)
			}
			last := al.Stats().BestFitness
			for i := 0; i < 6; i++ {
				al.Step()
				c.Eval(1)
				if f := al.Stats().BestFitness; f < last || f != (sumFn{}).Calculate(fitness.PointsData{Points: al.Best()}) {
					c.Fail("the best fitness went from %v to %v, the best group has %v", last, f, (sumFn{}).Calculate(fitness.PointsData{Points: al.Best()}))
				}
				last = al.Stats().BestFitness
			}
		})
		c.State(explore.NewH().I(cut).I(size).I(pts).I(seed).Sum())
	}}
}

type sumFn struct{}

func (sumFn) Calculate(d fitness.PointsData) float64 {
	s := 0.
	for i, p := range d.Points {
		s -= (p.X-0.3)*(p.X-0.3)*float64(i+1) + (p.Y-0.6)*(p.Y-0.6)
	}
	return s
}

// defaultItem runs the default algorithm.
func defaultItem(w, h, n, steps int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("default algorithm, image %dx%d, %d points", w, h, n), NoShard: true, Run: func(c *explore.Ctx) {
		if c.Skipped() {
			return
		}
		mrand.Seed(7)
		random.Seed(7)
		im := image.NewRGBA(image.Rect(3, 2, 3+w, 2+h))
		for y := 2; y < 2+h; y++ {
			for x := 3; x < 3+w; x++ {
				im.SetRGBA(x, y, color.RGBA{uint8(x * 31), uint8(y * 57), uint8(x * y), 255})
			}
		}
		inline(c, func() {
			al := utils.DefaultAlgorithm(n, im)
			last := al.Stats().BestFitness
			for i := 0; i < steps; i++ {
				al.Step()
				c.Eval(1)
				f := al.Stats().BestFitness
				c.Logf("generation %d: %v", al.Stats().Generation, f)
				if f < last || f > 1+1e-6 || len(al.Best()) != n {
					c.Fail("the best fitness went from %v to %v with %d points", last, f, len(al.Best()))
				}
				for _, p := range al.Best() {
					if !(p.X >= 0 && p.X <= 1 && p.Y >= 0 && p.Y <= 1) {
						c.Fail("the point %v lies outside the image", p)
					}
				}
				last = f
			}
			c.State(explore.NewH().F(last).Sum())
		})
	}}
}

// bigItem runs a few generations at the ends of the valid sizes.
func bigItem(r rcfg, patterns int) explore.Item {
	return explore.Item{Name: r.name() + " at the ends of the valid sizes", Run: func(c *explore.Ctx) {
		pat := c.Choose(patterns)
		if c.Skipped() {
			return
		}
		w := &world{inner: evaluator.NewParallel(r.scene.functions(r.size), r.cache)}
		w.mutate = func(call int, points group) []mutation.Mutation {
			ms := []mutation.Mutation{}
			n := len(points)
			for k := 0; k < 4 && k < n; k++ {
				i := (call*31 + k*(n/4) + pat*7) % n
				if k == 3 {
					i = n - 1
				}
				to := edgeSpots[(call+k+pat)%len(edgeSpots)]
				dup := false
				for _, m := range ms {
					dup = dup || m.Index == i
				}
				if !dup {
					ms = append(ms, mutation.Mutation{Old: points[i], New: to, Index: i})
				}
			}
			return ms
		}
		newGroup := func(k int) group { return offset(starts(r.start, r.points), k) }
		inline(c, func() {
			al := r.construct(w, newGroup)
			for g := 0; g < r.gens; g++ {
				step(w, al)
			}
		})
		h := explore.NewH().I(pat)
		for _, rd := range w.rounds {
			c.Eval(len(rd.evals))
			for _, e := range rd.evals {
				h = h.F(e.fit)
			}
			c.State(h.Sum())
			if len(rd.best) != r.points {
				c.Fail("the best group has %d points instead of %d", len(rd.best), r.points)
			}
		}
		c.Outcome(h.Sum())
		last := w.rounds[len(w.rounds)-1]
		draw(c, r.scene, last.best)
	}}
}

func bigItems(deep bool) []explore.Item {
	out := []explore.Item{}
	patterns := 1
	if deep {
		patterns = 3
	}
	for _, polys := range []bool{false, true} {
		for _, x := range []struct {
			a     acfg
			w, h  int
			block int
			cache int
			start string
		}{
			{acfg{"mg", 4, 1, 40, 2}, 8191, 1, 1, 4, "scattered"},
			{acfg{"mg", 4, 1, 40, 2}, 1, 8191, 3, 4, "scattered"},
			{acfg{"simple", 3, 1, 30, 2}, 8191, 40, 2, 16, "scattered"},
			{acfg{"mg", 4, 1, 30, 2}, 40, 8191, 100, 16, "corners"},
			{acfg{"mg", 3, 1, 12, 1}, 2900, 2700, 3, 22, "scattered"},
			{acfg{"mg", 3, 1, 70000, 1}, 1, 1, 1, 4, "scattered"},
			{acfg{"mg", 3, 1, 70000, 1}, 5, 4, 2, 2, "scattered"},
			{acfg{"simple", 2, 1, 66000, 1}, 9, 6, 2, 2, "same"},
			{acfg{"mg", 3, 1, 9000, 1}, 600, 450, 3, 17, "scattered"},
			{acfg{"mg", 3, 1, 4, 2}, 300, 200, 65, 5, "corners"},
			{acfg{"mg", 3, 1, 4, 2}, 290, 280, 128, 5, "corners"},
			{acfg{"simple", 3, 1, 9, 2}, 280, 270, 255, 5, "scattered"},
			{acfg{"mg", 300, 100, 5, 3}, 13, 9, 2, 6, "scattered"},
			{acfg{"simple", 300, 299, 4, 3}, 9, 13, 2, 6, "corners"},
			{acfg{"mg", 2, 1, 6, 40}, 30, 20, 1000000, 3, "pairs"},
		} {
			out = append(out, bigItem(rcfg{acfg: x.a, scene: scene{x.w, x.h, 0, x.block, polys}, cache: x.cache, start: x.start, to: edgeSpots}, patterns))
		}
		if deep {
			out = append(out, bigItem(rcfg{acfg: acfg{"mg", 2, 1, 70000, 1}, scene: scene{1900, 1700, 0, 3, polys}, cache: 18, start: "scattered", to: edgeSpots}, 1),
				bigItem(rcfg{acfg: acfg{"mg", 2, 1, 20, 1}, scene: scene{8191, 1900, 0, 7, polys}, cache: 10, start: "scattered", to: edgeSpots}, 1))
		}
	}
	return out
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C26",
		Bounds: "every combination of the listed sizes with several starting groups and patterns of moves; every history of moves on tiny images; the default algorithm on several images",
		Items: func(tier string) []explore.Item {
			deep := tier == "thorough"
			items := append([]explore.Item{gridItem(deep), plainItem()}, bigItems(deep)...)
			g := 2
			if deep {
				g = 3
			}
			for _, polys := range []bool{false, true} {
				for _, s := range [][2]int{{1, 1}, {2, 1}, {1, 3}, {2, 2}} {
					for _, start := range []string{"corners", "same"} {
						items = append(items,
							realItem(rcfg{acfg: acfg{"mg", 3, 1, 3, g}, scene: scene{s[0], s[1], 0, 2, polys}, cache: 1, start: start, to: edgeSpots[:5], pairs: true}, choosePick, completed),
							realItem(rcfg{acfg: acfg{"simple", 2, 1, 4, g}, scene: scene{s[0], s[1], 0, 1, polys}, cache: 0, start: start, to: edgeSpots[:4], all: true}, choosePick, completed))
					}
				}
			}
			items = append(items, defaultItem(1, 1, 3, 2), defaultItem(9, 4, 5, 2), defaultItem(40, 30, 12, 2), defaultItem(8191, 2, 20, 1), defaultItem(160, 120, 700, 1))
			if deep {
				items = append(items, defaultItem(3, 50, 3, 5), defaultItem(120, 90, 60, 5))
			}
			return items
		},
	})
}
