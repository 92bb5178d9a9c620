package algo

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

type np = normgeom.NormPoint

func pixelOf(p np, w, h int) oracle.Pt {
	return oracle.Pt{X: int64(math.Floor(p.X*float64(w) + 0.5)), Y: int64(math.Floor(p.Y*float64(h) + 0.5))}
}

func distinct(ps group, w, h int) []oracle.Pt {
	out := []oracle.Pt{}
	seen := map[oracle.Pt]bool{}
	for _, p := range ps {
		q := pixelOf(p, w, h)
		if !seen[q] {
			seen[q] = true
			out = append(out, q)
		}
	}
	return out
}

// scene is an image with a fitness function.
type scene struct {
	w, h, kind, block int
	polys             bool
}

func (s scene) String() string {
	k := "triangles"
	if s.polys {
		k = "polygons"
	}
	return fmt.Sprintf("%s %dx%d pattern %d block %d", k, s.w, s.h, s.kind, s.block)
}

type ref struct {
	im    *oracle.Img
	spare []fitness.CacheFunction
	memo  map[string]float64
	alt   map[string][]float64
}

var refs = map[scene]*ref{}

func (s scene) ref() *ref {
	r := refs[s]
	if r == nil {
		r = &ref{im: oracle.Pattern(s.kind, s.w, s.h), memo: map[string]float64{}, alt: map[string][]float64{}}
		refs[s] = r
	}
	return r
}

func (s scene) functions(n int) []fitness.CacheFunction {
	r := s.ref()
	if s.polys {
		return fitness.PolygonsImageFunctions(r.im, s.block, n)
	}
	return fitness.TrianglesImageFunctions(r.im, s.block, n)
}

// spares hands out n unused functions.
func (s scene) spares(n int) []fitness.CacheFunction {
	r := s.ref()
	if len(r.spare) < n {
		r.spare = append(r.spare, s.functions(400)...)
	}
	out := r.spare[:n:n]
	r.spare = r.spare[n:]
	return out
}

// scratch is the fitness a fresh function computes.
func (s scene) scratch(g group) float64 {
	r := s.ref()
	k := key(g)
	if v, ok := r.memo[k]; ok {
		return v
	}
	v := s.spares(1)[0].Calculate(fitness.PointsData{Points: g.Copy()})
	if len(r.memo) < 1<<18 {
		r.memo[k] = v
	}
	return v
}

// describes tells whether the values of a cache are those of the shapes of a group with a fitness: there is at most
// one for each shape, and together they make up the error.
func (s scene) describes(values []float64, g group, fit float64) string {
	shapes := 0
	blank := 0.
	if s.polys {
		shapes = len(distinct(g, s.w, s.h))
	} else {
		d := incrdelaunay.NewDelaunay(s.w, s.h)
		for _, p := range distinct(g, s.w, s.h) {
			d.Insert(incrdelaunay.Point{X: int16(p.X), Y: int16(p.Y)})
		}
		blank = float64(s.w * s.h)
		d.IterTriangles(func(t incrdelaunay.Triangle) {
			shapes++
			at := func(p incrdelaunay.Point) oracle.Pt { return oracle.Pt{X: int64(p.X), Y: int64(p.Y)} }
			blank -= math.Abs(float64(oracle.Cross(at(t.A), at(t.B), at(t.C)))) / 2
		})
	}
	if len(values) > shapes {
		return fmt.Sprintf("the cache has %d entries after an evaluation of %d shapes", len(values), shapes)
	}
	sum := 0.
	for _, v := range values {
		sum += v
	}
	if want := oracle.MaxPixel * (float64(s.w*s.h)*(1-fit) - blank); math.Abs(sum-want) > 1e-7*oracle.MaxPixel*float64(s.w*s.h) {
		return fmt.Sprintf("the entries of the cache have errors of %v after an evaluation instead of %v", sum, want)
	}
	return ""
}

// same tells whether two fitnesses of a group agree: they are equal up to rounding, or belong to
// equally valid triangulations or roundings. judged is false when that cannot be told.
func (s scene) same(g group, got, want float64) (ok, judged bool) {
	if math.Abs(got-want) <= 1e-9 {
		return true, true
	}
	r := s.ref()
	k := key(g)
	if s.polys {
		v := incrdelaunay.NewVoronoi(s.w, s.h)
		for _, p := range distinct(g, s.w, s.h) {
			v.Insert(incrdelaunay.Point{X: int16(p.X), Y: int16(p.Y)})
		}
		judged := true
		v.IterPolygons(func(ps []incrdelaunay.FloatPoint) {
			for _, p := range ps {
				for _, x := range []float64{p.X, p.Y} {
					if oracle.Ambiguous(x) {
						judged = false
					}
				}
			}
		})
		return false, judged
	}
	if len(g) > 40 {
		return false, !tied(distinct(g, s.w, s.h), s.w, s.h)
	}
	vals, have := r.alt[k]
	if !have {
		var fine bool
		var slack float64
		vals, slack, fine = r.im.TriFitness(oracle.Delaunay(distinct(g, s.w, s.h), s.w, s.h))
		if !fine || slack > 0 {
			vals = nil
		}
		r.alt[k] = vals
	}
	if vals == nil {
		return false, false
	}
	return oracle.InSet(got, vals, 0), true
}

// starting groups, by name.
func starts(name string, n int) group {
	g := group{}
	switch name {
	case "scattered":
		for i := 1; len(g) < n; i++ {
			x := math.Mod(float64(i)*0.6180339887, 1)
			y := math.Mod(float64(i)*0.7548776662, 1)
			g = append(g, np{X: x, Y: y})
		}
	case "corners":
		all := []np{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 1, Y: 1}, {X: 0, Y: 1}}
		for i := 0; i < n; i++ {
			if i < 4 {
				g = append(g, all[i])
			} else {
				g = append(g, np{X: math.Mod(float64(i)*0.33, 1), Y: math.Mod(float64(i)*0.41, 1)})
			}
		}
	case "wheel": // points around the first one
		g = append(g, np{X: 0.5, Y: 0.5})
		for i := 1; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n-1)
			g = append(g, np{X: 0.5 + 0.47*math.Cos(a), Y: 0.5 + 0.47*math.Sin(a)})
		}
	case "same":
		for i := 0; i < n; i++ {
			g = append(g, np{X: 0.4, Y: 0.6})
		}
	case "line":
		for i := 0; i < n; i++ {
			g = append(g, np{X: float64(i) / float64(n), Y: 0.5})
		}
	case "pairs":
		for i := 0; i < n; i++ {
			k := float64(i/2*2 + 1)
			g = append(g, np{X: math.Mod(k*0.3819, 1), Y: math.Mod(k*0.2451, 1)})
		}
	}
	return g
}

type rcfg struct {
	acfg
	scene
	cache int
	start string
	to    []np  // positions that points move to
	pairs bool  // also moves of two points at once, among them exchanges
	all   bool  // also a move of every point
	which []int // points that move (all when nil)
}

func (r rcfg) name() string {
	return fmt.Sprintf("%s, %s, cache of %d, start %s, moves to %d positions", r.acfg, r.scene, 1<<r.cache, r.start, len(r.to))
}

// moves lists the mutations of a group.
func (r rcfg) moves(points group) [][]mutation.Mutation {
	mv := func(i int, p np) mutation.Mutation { return mutation.Mutation{Old: points[i], New: p, Index: i} }
	out := [][]mutation.Mutation{{}}
	which := r.which
	if which == nil {
		for i := range points {
			which = append(which, i)
		}
	}
	for _, i := range which {
		for _, p := range r.to {
			out = append(out, []mutation.Mutation{mv(i, p)})
		}
	}
	if r.pairs && len(points) > 1 {
		n := len(points)
		a, b := 0, n-1
		out = append(out,
			[]mutation.Mutation{mv(a, points[b]), mv(b, points[a])},
			[]mutation.Mutation{mv(a, points[1]), mv(1, r.to[0])},
			[]mutation.Mutation{mv(a, r.to[0]), mv(b, r.to[0])})
	}
	if r.all {
		ms := []mutation.Mutation{}
		for i := range points {
			ms = append(ms, mv(i, np{X: points[i].Y, Y: 1 - points[i].X}))
		}
		out = append(out, ms)
	}
	return out
}

func offset(g group, k int) group {
	out := g.Copy()
	for i := range out {
		if k > 0 {
			out[i].X = math.Mod(out[i].X+0.17*float64(k), 1)
			out[i].Y = math.Mod(out[i].Y+0.29*float64(k*(i%2)), 1)
		}
	}
	return out
}

func realItem(r rcfg, pick func(c *explore.Ctx, call, n int) int, verify func(c *explore.Ctx, r rcfg, w *world)) explore.Item {
	return explore.Item{Name: r.name(), Run: func(c *explore.Ctx) {
		w := &world{inner: evaluator.NewParallel(r.scene.spares(r.size), r.cache)}
		w.mutate = func(call int, points group) []mutation.Mutation {
			ms := r.moves(points)
			return ms[pick(c, call, len(ms))]
		}
		newGroup := func(k int) group { return offset(starts(r.start, r.points), k) }
		inline(c, func() {
			al := r.construct(w, newGroup)
			for g := 0; g < r.gens; g++ {
				if c.Skipped() {
					return
				}
				step(w, al)
			}
		})
		if c.Skipped() {
			return
		}
		h := explore.NewH()
		for g, rd := range w.rounds {
			for _, e := range rd.evals {
				h = h.F(e.fit)
				if c.Recording() {
					c.Logf("round %d: member %d %v with %d mutations: %v", g, e.slot, e.points, len(e.muts), e.fit)
				}
			}
			c.State(h.Sum())
		}
		c.Outcome(h.Sum())
		verify(c, r, w)
	}}
}

func verifyIncremental(c *explore.Ctx, r rcfg, w *world) {
	for g, rd := range w.rounds {
		for _, e := range rd.evals {
			want := r.scratch(e.points)
			ok, judged := r.same(e.points, e.fit, want)
			if judged {
				c.Eval(1)
			}
			if judged && !ok {
				c.Fail("generation %d: member %v (%d mutations): fitness %.12f, from scratch %.12f", g, e.points, len(e.muts), e.fit, want)
			}
		}
		want := r.scratch(rd.best)
		if ok, judged := r.same(rd.best, rd.stats.BestFitness, want); judged && !ok {
			c.Fail("generation %d: the best group %v is reported with fitness %.12f, from scratch %.12f", g, rd.best, rd.stats.BestFitness, want)
		}
	}
}

func choosePick(c *explore.Ctx, call, n int) int { return c.Choose(n) }

func realConfigs(tier string) []rcfg {
	out := []rcfg{}
	spots := []np{{X: 0, Y: 0}, {X: 0.31, Y: 0.77}, {X: 1, Y: 0.5}, {X: 0.62, Y: 0.28}}
	deep := tier == "thorough"
	for _, polys := range []bool{false, true} {
		for _, x := range []struct {
			alg    string
			size   int
			cutoff int
			points int
			gens   int
			w, h   int
			kind   int
			block  int
			cache  int
			start  string
			to     int
			pairs  bool
			all    bool
		}{
			{"mg", 3, 1, 3, 3, 13, 9, 0, 2, 0, "scattered", 3, true, true},
			{"mg", 3, 1, 4, 3, 13, 9, 0, 3, 3, "pairs", 3, true, false},
			{"mg", 4, 1, 4, 2, 13, 9, 1, 1, 1, "scattered", 2, true, false},
			{"mg", 4, 2, 3, 3, 8, 8, 0, 2, 4, "corners", 2, true, false},
			{"mg", 5, 2, 4, 2, 20, 11, 0, 4, 10, "corners", 3, false, true},
			{"mg", 3, 1, 4, 2, 9, 13, 4, 5, 2, "same", 4, true, false},
			{"mg", 3, 1, 3, 3, 5, 4, 0, 9, 0, "line", 3, true, false},
			{"mg", 6, 2, 5, 1, 31, 23, 0, 3, 5, "scattered", 3, true, true},
			{"simple", 3, 1, 3, 2, 13, 9, 0, 2, 0, "scattered", 3, true, false},
			{"simple", 3, 2, 4, 3, 13, 9, 0, 3, 3, "pairs", 3, true, true},
			{"simple", 4, 2, 4, 2, 17, 12, 1, 1, 6, "corners", 2, false, false},
			{"simple", 2, 1, 5, 3, 31, 23, 0, 5, 8, "scattered", 3, true, true},
		} {
			if deep {
				x.to++
				if x.to > 4 {
					x.to = 4
				}
				if x.size-x.cutoff < 3 {
					x.gens++
				}
			}
			out = append(out, rcfg{acfg: acfg{x.alg, x.size, x.cutoff, x.points, x.gens}, scene: scene{x.w, x.h, x.kind, x.block, polys}, cache: x.cache, start: x.start, to: spots[:x.to], pairs: x.pairs, all: x.all})
		}
	}
	return out
}

// crowdItems run larger populations; the mutations follow arithmetic patterns, all of which are run.
func crowdItems(tier string, verify func(c *explore.Ctx, r rcfg, w *world)) []explore.Item {
	out := []explore.Item{}
	spots := []np{{X: 0, Y: 0}, {X: 0.31, Y: 0.77}, {X: 1, Y: 0.5}, {X: 0.62, Y: 0.28}, {X: 0.62, Y: 0.9}, {X: 0.11, Y: 0.28}}
	gens := 4
	if tier == "thorough" {
		gens = 10
	}
	for _, polys := range []bool{false, true} {
		for _, a := range []acfg{{"mg", 16, 3, 6, gens}, {"simple", 14, 3, 6, gens}, {"mg", 30, 5, 12, gens}, {"simple", 130, 70, 4, 3}} {
			for _, cache := range []int{1, 8} {
				a, polys, cache := a, polys, cache
				base := rcfg{acfg: a, scene: scene{24, 17, 0, 3, polys}, cache: cache, start: "scattered", to: spots, pairs: true, all: true}
				out = append(out, explore.Item{Name: base.name() + " by arithmetic patterns", Run: func(c *explore.Ctx) {
					st := 1 + c.Choose(24)
					of := c.Choose(12)
					r := base
					r.start = []string{"scattered", "pairs", "corners"}[c.Choose(3)]
					if c.Skipped() {
						return
					}
					realItem(r, func(_ *explore.Ctx, call, n int) int { return (call*call*st + call*3 + of) % n }, verify).Run(c)
				}})
			}
		}
	}
	return out
}

// tied tells whether a group may have several valid triangulations: whether four neighbouring points, with the
// corners of the bounding triangle, may be cocircular.
func tied(ps []oracle.Pt, w, h int) bool {
	d := incrdelaunay.NewDelaunay(w, h)
	for _, p := range ps {
		d.Insert(incrdelaunay.Point{X: int16(p.X), Y: int16(p.Y)})
	}
	type edge [2]oracle.Pt
	far := map[edge]oracle.Pt{}
	d.IterTriangles(func(t incrdelaunay.Triangle) {
		v := [3]oracle.Pt{}
		for i, p := range []incrdelaunay.Point{t.A, t.B, t.C} {
			v[i] = oracle.Pt{X: int64(p.X), Y: int64(p.Y)}
		}
		if oracle.Cross(v[0], v[1], v[2]) < 0 {
			v[1], v[2] = v[2], v[1]
		}
		for i := range v {
			far[edge{v[i], v[(i+1)%3]}] = v[(i+2)%3]
		}
	})
	super := oracle.Super(w, h)
	for e, p := range far {
		if q, ok := far[edge{e[1], e[0]}]; ok {
			if oracle.InCircle(e[0], e[1], p, q) == 0 {
				return true
			}
			continue
		}
		for _, q := range super {
			if oracle.InCircle(e[0], e[1], p, q) == 0 {
				return true
			}
			for _, r := range ps {
				if r != e[0] && r != e[1] && oracle.InCircle(e[0], e[1], q, r) == 0 {
					return true
				}
			}
		}
	}
	for i, p := range ps {
		for _, q := range ps[:i] {
			for k := range super {
				if oracle.InCircle(super[k], super[(k+1)%3], p, q) == 0 {
					return true
				}
			}
		}
	}
	return false
}

// swarmItems run groups of many points over many generations; the numbers of points that move and where they
// move to follow arithmetic patterns, all of which are run.
func swarmItems(deep bool, verify func(c *explore.Ctx, r rcfg, w *world)) []explore.Item {
	out := []explore.Item{}
	patterns := 12
	gens := 10
	if deep {
		patterns, gens = 60, 25
	}
	for _, x := range []struct {
		a     acfg
		s     scene
		cache int
		start string
	}{
		{acfg{"mg", 6, 2, 80, gens}, scene{701, 499, 0, 4, false}, 9, "scattered"},
		{acfg{"mg", 5, 1, 280, gens}, scene{1103, 397, 0, 5, false}, 20, "scattered"},
		{acfg{"simple", 4, 2, 90, gens}, scene{211, 719, 1, 3, false}, 4, "scattered"},
		{acfg{"mg", 6, 2, 80, gens}, scene{701, 499, 0, 4, true}, 9, "scattered"},
		{acfg{"mg", 5, 1, 280, gens}, scene{397, 1103, 0, 5, true}, 18, "scattered"},
		{acfg{"simple", 4, 1, 60, gens}, scene{311, 219, 1, 3, true}, 4, "scattered"},
		{acfg{"mg", 5, 2, 60, gens}, scene{401, 407, 0, 4, false}, 9, "wheel"},
		{acfg{"mg", 5, 2, 45, gens}, scene{303, 299, 0, 3, true}, 9, "wheel"},
		{acfg{"simple", 4, 2, 130, gens}, scene{907, 911, 1, 5, true}, 6, "wheel"},
	} {
		r := rcfg{acfg: x.a, scene: x.s, cache: x.cache, start: x.start}
		out = append(out, explore.Item{Name: fmt.Sprintf("%s, %s, cache of %d, start %s, many points by arithmetic patterns", r.acfg, r.scene, 1<<r.cache, r.start), Run: func(c *explore.Ctx) {
			pat := c.Choose(patterns)
			if c.Skipped() {
				return
			}
			w := &world{inner: evaluator.NewParallel(r.scene.functions(r.size), r.cache)}
			w.mutate = func(call int, points group) []mutation.Mutation {
				z := uint64(call+1)*2654435761 + uint64(pat)*0x9E3779B97F4A7C15
				next := func(n int) int {
					z ^= z << 13
					z ^= z >> 7
					z ^= z << 17
					return int(z % uint64(n))
				}
				n := []int{1, 2, 1, 0, 3, 1, 7, 2, len(points) / 3, 1, len(points)}[(call+pat)%11]
				ms := []mutation.Mutation{}
				used := map[int]bool{}
				for len(ms) < n {
					i := next(len(points))
					if r.start == "wheel" && next(3) == 0 {
						i = 0
					}
					if used[i] {
						continue
					}
					used[i] = true
					p := points[i]
					switch (call + len(ms) + pat) % 4 {
					case 0: // near
						p.X = math.Min(1, math.Max(0, p.X+float64(next(41)-20)/float64(r.w)))
						p.Y = math.Min(1, math.Max(0, p.Y+float64(next(41)-20)/float64(r.h)))
					case 1: // anywhere
						p = np{X: float64(next(10007)) / 10006, Y: float64(next(10007)) / 10006}
					case 2: // onto or next to another point
						p = points[next(len(points))]
						p.X = math.Min(1, p.X+float64(next(2))/float64(r.w))
					case 3: // on a border
						p.X = float64(next(2))
						if next(2) == 0 {
							p.X, p.Y = p.Y, p.X
						}
					}
					ms = append(ms, mutation.Mutation{Old: points[i], New: p, Index: i})
				}
				return ms
			}
			newGroup := func(k int) group {
				if r.start != "scattered" {
					return starts(r.start, r.points-pat%4)
				}
				return offset(starts("scattered", r.points), k+pat)
			}
			inline(c, func() {
				al := r.construct(w, newGroup)
				for g := 0; g < r.gens; g++ {
					step(w, al)
				}
			})
			h := explore.NewH().I(pat)
			for g, rd := range w.rounds {
				for _, e := range rd.evals {
					h = h.F(e.fit)
					if c.Recording() {
						c.Logf("generation %d: member %d with %d mutations: %v", g, e.slot, len(e.muts), e.fit)
					}
				}
				c.State(h.Sum())
			}
			c.Outcome(h.Sum())
			verify(c, r, w)
		}})
	}
	return out
}

// C07

type cacheCfg struct {
	scene
	cache  int
	depth  int
	groups []group
	fns    int
}

func (k cacheCfg) name() string {
	return fmt.Sprintf("%s, %d functions sharing a cache of %d, %d evaluations among %d groups", k.scene, k.fns, 1<<k.cache, k.depth, len(k.groups))
}

// drawers makes groups whose triangles and polygons share sums of coordinates.
func drawers(w, h int) []group {
	f := func(xs ...int) group {
		g := group{}
		for i := 0; i+1 < len(xs); i += 2 {
			g = append(g, np{X: float64(xs[i]) / float64(w), Y: float64(xs[i+1]) / float64(h)})
		}
		return g
	}
	return []group{
		f(0, 0, 6, 0, 3, 6, 3, 2),
		f(0, 1, 6, 0, 3, 5, 3, 2),
		f(1, 0, 5, 0, 3, 6, 3, 2),
		f(2, 2, 4, 2, 3, 4, 3, 0),
		f(0, 6, 6, 6, 3, 0, 3, 4),
		f(0, 0, 6, 0, 6, 6, 0, 6),
		f(1, 1, 5, 1, 5, 5, 1, 5),
		f(0, 3, 3, 0, 6, 3, 3, 6),
		f(0, 0, 0, 0, 6, 1, 3, 6),
	}
}

func cacheItem(k cacheCfg) explore.Item {
	type entry struct {
		vals []float64
		n    int
	}
	memo := map[string]entry{}
	return explore.Item{Name: k.name(), Run: func(c *explore.Ctx) {
		fns := k.scene.spares(k.fns)
		ev := evaluator.NewParallel(fns, k.cache)
		at := make([]int, k.fns)
		h := explore.NewH()
		eval := func(i, from, g int) {
			d := fitness.PointsData{Points: k.groups[g].Copy()}
			if from >= 0 {
				for j, o := range k.groups[from] {
					if n := k.groups[g][j]; n != o {
						d.Mutations = append(d.Mutations, mutation.Mutation{Old: o, New: n, Index: j})
					}
				}
			}
			fn := ev.Get(i).(fitness.CacheFunction)
			got := fn.Calculate(d)
			at[i] = g
			h = h.I(i).I(g).F(got)
			c.Logf("function %d evaluates group %d from %d: %v", i, g, from, got)
			if c.Fresh() {
				c.State(h.Sum())
				want := k.scene.scratch(k.groups[g])
				ok, judged := k.scene.same(k.groups[g], got, want)
				if judged {
					c.Eval(1)
				}
				if judged && !ok {
					c.Fail("function %d on group %d: fitness %.12f with the shared cache, %.12f without", i, g, got, want)
				}
				// the cache of the function holds what it evaluated
				data := []float64{}
				for _, x := range fn.Cache() {
					if x == nil {
						c.Fail("the cache of a function has an empty entry after an evaluation")
					}
					if int(x.CachedHash()) >= 1<<k.cache {
						// entries of the first round were computed for the private cache
						c.Fail("a cache entry belongs to slot %d of %d", x.CachedHash(), 1<<k.cache)
					}
					data = append(data, x.Data())
				}
				sort.Float64s(data)
				if judged && !k.ambiguous(g) {
					if msg := k.scene.describes(data, k.groups[g], want); msg != "" {
						c.Fail("function %d on group %d: %s", i, g, msg)
					}
				}
				if fresh, ok := memo[fmt.Sprint(g)]; ok {
					if len(fresh.vals) != len(data) && !k.ambiguous(g) {
						c.Fail("the cache of a function has %d entries after an evaluation instead of %d", len(data), len(fresh.vals))
					}
					for i := range data {
						if !k.ambiguous(g) && math.Abs(data[i]-fresh.vals[i]) > 1e-6 {
							c.Fail("the cache of a function has entries %v after an evaluation instead of %v", data, fresh.vals)
						}
					}
				} else {
					f := k.scene.spares(1)[0]
					f.Calculate(fitness.PointsData{Points: k.groups[g].Copy()})
					vs := []float64{}
					for _, x := range f.Cache() {
						vs = append(vs, x.Data())
					}
					sort.Float64s(vs)
					memo[fmt.Sprint(g)] = entry{vals: vs}
				}
			}
			ev.Update(i)
		}
		// every function starts from the first groups
		for i := range fns {
			eval(i, -1, i%len(k.groups))
		}
		ev.Prepare()
		for d := 0; d < k.depth; d++ {
			i := c.Choose(k.fns)
			b := c.Choose(k.fns - 1)
			if b >= i {
				b++
			}
			g := c.Choose(len(k.groups))
			swap := c.Choose(2)
			if c.Skipped() {
				return
			}
			ev.SetBase(i, b)
			eval(i, at[b], g)
			if swap == 1 {
				ev.Prepare()
				if d%2 == 1 {
					ev.Swap(i, b)
					at[i], at[b] = at[b], at[i]
				}
			}
		}
		c.Outcome(h.Sum())
	}}
}

// privateItem evaluates with two functions whose caches no evaluator exchanges: each keeps what its last evaluation
// left, or is given no cache, an empty one, one slot or what the other left.
func privateItem(s scene, groups []group, depth int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%s, two functions with caches of their own, %d evaluations among %d groups", s, depth, len(groups)), Run: func(c *explore.Ctx) {
		fns := s.spares(2)
		at := []int{0, 0}
		h := explore.NewH()
		eval := func(i int, from, g int) {
			d := fitness.PointsData{Points: groups[g].Copy()}
			if from >= 0 {
				for j, o := range groups[from] {
					if n := groups[g][j]; n != o {
						d.Mutations = append(d.Mutations, mutation.Mutation{Old: o, New: n, Index: j})
					}
				}
			}
			got := fns[i].Calculate(d)
			at[i] = g
			h = h.I(i).I(g).F(got)
			c.Logf("function %d evaluates group %d from %d: %v", i, g, from, got)
			if c.Fresh() {
				c.State(h.Sum())
				want := s.scratch(groups[g])
				ok, judged := s.same(groups[g], got, want)
				if judged {
					c.Eval(1)
				}
				if judged && !ok {
					c.Fail("function %d on group %d: fitness %.12f with a cache of its own, %.12f without", i, g, got, want)
				}
			}
		}
		eval(0, -1, c.Choose(len(groups)))
		eval(1, -1, c.Choose(len(groups)))
		for d := 0; d < depth; d++ {
			i := c.Choose(2)
			g := c.Choose(len(groups))
			give := c.Choose(5)
			if c.Skipped() {
				return
			}
			switch give {
			case 1:
				fns[i].SetCache(nil)
			case 2:
				fns[i].SetCache([]fitness.CacheData{})
			case 3:
				fns[i].SetCache(make([]fitness.CacheData, 1))
			case 4:
				fns[i].SetCache(append([]fitness.CacheData{}, fns[1-i].Cache()...))
			}
			fns[i].SetBase(fns[1-i])
			eval(i, at[1-i], g)
		}
		c.Outcome(h.Sum())
	}}
}

// hollow makes groups of three points, most of which have no triangle.
func hollow(w, h int) []group {
	f := func(xs ...int) group {
		g := group{}
		for i := 0; i+1 < len(xs); i += 2 {
			g = append(g, np{X: float64(xs[i]) / float64(w), Y: float64(xs[i+1]) / float64(h)})
		}
		return g
	}
	return []group{
		f(2, 1, 2, 1, 2, 1),
		f(0, 0, 3, 3, 5, 5),
		f(0, 0, 5, 1, 2, 4),
		f(1, 1, 4, 2, 4, 2),
		f(0, 5, 5, 5, 1, 0),
	}
}

// lattices lists every group of lo to hi of the points.
func lattices(w, h, lo, hi int, xs, ys []int) []group {
	pts := []np{}
	for _, y := range ys {
		for _, x := range xs {
			pts = append(pts, np{X: float64(x) / float64(w), Y: float64(y) / float64(h)})
		}
	}
	out := []group{}
	var add func(g group, from int)
	add = func(g group, from int) {
		if len(g) >= lo {
			out = append(out, g.Copy())
		}
		if len(g) == hi {
			return
		}
		for i := from; i < len(pts); i++ {
			add(append(g[:len(g):len(g)], pts[i]), i+1)
		}
	}
	add(group{}, 0)
	return out
}

// rims makes groups of a point in the middle of a ring of others, of which one at a time is missing or moved.
func rims(w, h, n int) []group {
	out := []group{}
	at := func(i int, r float64) np {
		a := 2 * math.Pi * (float64(i) + 0.3) / float64(n)
		return np{X: math.Round((0.5+r*math.Cos(a))*float64(w)) / float64(w), Y: math.Round((0.5+r*math.Sin(a))*float64(h)) / float64(h)}
	}
	for change := -1; change < 2*n; change++ {
		g := group{np{X: math.Round(0.5*float64(w)) / float64(w), Y: math.Round(0.5*float64(h)) / float64(h)}}
		for i := 0; i < n; i++ {
			if change == i {
				continue
			}
			r := 0.45
			if change == n+i {
				r = 0.4
			}
			g = append(g, at(i, r))
		}
		out = append(out, g)
	}
	return out
}

// plantItem evaluates every group with a cache of one slot that holds any entry of any other group.
func plantItem(s scene, what string, groups []group) explore.Item {
	entries := map[int][]fitness.CacheData{}
	return explore.Item{Name: fmt.Sprintf("%s, every entry of %d groups (%s) in a cache of one slot for every group", s, len(groups), what), Run: func(c *explore.Ctx) {
		a := c.Choose(len(groups))
		b := c.Choose(len(groups))
		if c.Skipped() {
			return
		}
		es := entries[a]
		if es == nil {
			f := s.spares(1)[0]
			f.Calculate(fitness.PointsData{Points: groups[a].Copy()})
			es = append([]fitness.CacheData{}, f.Cache()...)
			for _, e := range es {
				e.SetCachedHash(0)
			}
			entries[a] = es
		}
		want := s.scratch(groups[b])
		h := explore.NewH().I(b)
		for i, e := range es {
			fn := s.spares(1)[0]
			fn.SetCache([]fitness.CacheData{e})
			got := fn.Calculate(fitness.PointsData{Points: groups[b].Copy()})
			c.Logf("group %d with entry %d of group %d: %v", b, i, a, got)
			ok, judged := s.same(groups[b], got, want)
			if judged {
				c.Eval(1)
			}
			if judged && !ok {
				c.Fail("points %v: fitness %.12f with an entry of the points %v in the cache, %.12f without", groups[b], got, groups[a], want)
			}
			h = h.F(got)
			c.State(explore.NewH().I(a).I(i).I(b).Sum())
		}
		c.Outcome(h.Sum())
	}}
}

// ambiguous tells whether a group has several valid triangulations.
func (k cacheCfg) ambiguous(g int) bool {
	if k.scene.polys {
		return false
	}
	cs := oracle.Delaunay(distinct(k.groups[g], k.scene.w, k.scene.h), k.scene.w, k.scene.h)
	for _, m := range cs.Masks {
		n := 0
		for m != 0 {
			m &= m - 1
			n++
		}
		if n > 3 {
			return true
		}
	}
	return false
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C03",
		Bounds: "every history of the listed moves of points over the stated generations, for every listed image, fitness function, population and cache size",
		Items: func(tier string) []explore.Item {
			items := []explore.Item{}
			for _, r := range realConfigs(tier) {
				items = append(items, realItem(r, choosePick, verifyIncremental))
			}
			items = append(items, crowdItems(tier, verifyIncremental)...)
			return append(items, swarmItems(tier == "thorough", verifyIncremental)...)
		},
	})
	explore.Register(&explore.Check{
		ID:     "C07",
		Bounds: "every sequence of evaluations, bases and cache exchanges up to the stated depth, for caches of the stated sizes; entries of any group of a set planted into a cache with one slot and every other group evaluated with it",
		Items: func(tier string) []explore.Item {
			items := []explore.Item{}
			for _, polys := range []bool{false, true} {
				for _, cache := range []int{0, 1, 2, 5, 12} {
					d := 2
					if tier == "thorough" {
						d = 3
					}
					all := drawers(6, 6)
					items = append(items,
						cacheItem(cacheCfg{scene{6, 6, 0, 2, polys}, cache, d, all, 3}),
						cacheItem(cacheCfg{scene{6, 6, 0, 2, polys}, cache, d + 1, all[:4], 2}),
						cacheItem(cacheCfg{scene{30, 30, 0, 3, polys}, cache, d + 1, all[1:4], 3}))
				}
				big := 3
				if tier == "thorough" {
					big = 4
				}
				items = append(items,
					privateItem(scene{6, 6, 0, 2, polys}, hollow(6, 6), 2+big/4),
					plantItem(scene{6, 6, 0, 2, polys}, "of 2 to 4 of 9 positions", lattices(6, 6, 2, big+1, []int{0, 2, 5}, []int{1, 3, 6})),
					plantItem(scene{5, 4, 0, 1, polys}, "of 1 to 3 of 12 positions", lattices(5, 4, 1, big, []int{0, 1, 3, 5}, []int{0, 2, 4})),
					plantItem(scene{90, 80, 0, 4, polys}, "of a point amid 10 others", rims(90, 80, 10)),
					plantItem(scene{150, 160, 0, 4, polys}, "of a point amid 17 others", rims(150, 160, 17)),
					plantItem(scene{300, 280, 0, 4, polys}, "of 3 of 9 positions 256 apart", lattices(300, 280, 3, big, []int{2, 40, 296}, []int{9, 20, 276})),
					plantItem(scene{9, 8191, 0, 4, polys}, "of 3 of 12 positions 512 to 4096 apart", lattices(9, 8191, 3, 3, []int{1, 8}, []int{5, 517, 1029, 2053, 4101, 7684})),
					plantItem(scene{8191, 9, 0, 4, polys}, "of 3 of 12 positions 512 to 4096 apart", lattices(8191, 9, 3, 3, []int{5, 517, 1029, 2053, 4101, 7684}, []int{1, 8})))
			}
			return items
		},
	})
}
