package fit

import (
	"fmt"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

type np = normgeom.NormPoint

// pixelOf is the reference rounding of a normalized point.
func pixelOf(p np, w, h int) oracle.Pt {
	r := func(v float64, n int) int64 {
		x := v * float64(n)
		k := int64(x)
		if x-float64(k) >= 0.5 {
			k++
		}
		return k
	}
	return oracle.Pt{X: r(p.X, w), Y: r(p.Y, h)}
}

// distinct is the set of pixels of the points.
func distinct(ps normgeom.NormPointGroup, w, h int) []oracle.Pt {
	out := []oracle.Pt{}
	seen := map[oracle.Pt]bool{}
	for _, p := range ps {
		q := pixelOf(p, w, h)
		if !seen[q] {
			seen[q] = true
			out = append(out, q)
		}
	}
	return out
}

func fractions(xs, ys []float64) []np {
	out := []np{}
	for _, y := range ys {
		for _, x := range xs {
			out = append(out, np{X: x, Y: y})
		}
	}
	return out
}

// scattered points, none of them on a pixel.
func scattered(n int) []np {
	out := []np{{X: 0, Y: 0}, {X: 1, Y: 1}, {X: 1, Y: 0}, {X: 0, Y: 1}}
	for i := 1; len(out) < n; i++ {
		x := float64(i)*0.6180339887 - float64(int(float64(i)*0.6180339887))
		y := float64(i)*0.7548776662 - float64(int(float64(i)*0.7548776662))
		out = append(out, np{X: x, Y: y})
	}
	return out[:n]
}

type pool struct {
	make func() []fitness.CacheFunction
	fns  []fitness.CacheFunction
}

func (p *pool) next() fitness.CacheFunction {
	if len(p.fns) == 0 {
		p.fns = p.make()
	}
	f := p.fns[0]
	p.fns = p.fns[1:]
	return f
}

type setVal struct {
	vals   []float64
	slack  float64
	ok     bool
	unsure bool
}

type fcfg struct {
	w, h   int
	blocks []int
	kinds  []int
	pts    []np
	max    int // points per group
	ptName string
	minPts int
	drop   int // when positive, groups are the whole alphabet without up to drop points
}

func hashPts(ps []oracle.Pt) uint64 {
	var s uint64
	for _, p := range ps {
		s += explore.NewH().I(int(p.X)).I(int(p.Y)).Sum()
	}
	return explore.NewH().U(s).Sum()
}

// group chooses a multiset of at most max points of the alphabet (at least min).
func group(c *explore.Ctx, pts []np, min, max int) normgeom.NormPointGroup {
	g := normgeom.NormPointGroup{}
	lo := 0
	n := min + c.Choose(max-min+1)
	for i := 0; i < n; i++ {
		lo += c.Choose(len(pts) - lo)
		g = append(g, pts[lo])
	}
	return g
}

// without chooses at most n points to leave out.
func without(c *explore.Ctx, pts []np, n int) normgeom.NormPointGroup {
	out := map[int]bool{}
	lo := 0
	for k := c.Choose(n + 1); k > 0 && lo < len(pts); k-- {
		i := lo + c.Choose(len(pts)-lo)
		out[i] = true
		lo = i + 1
	}
	g := normgeom.NormPointGroup{}
	for i, p := range pts {
		if !out[i] {
			g = append(g, p)
		}
	}
	return g
}

func (f fcfg) choose(c *explore.Ctx) normgeom.NormPointGroup {
	if f.drop > 0 {
		return without(c, f.pts, f.drop)
	}
	return group(c, f.pts, f.minPts, f.max)
}

func (f fcfg) what() string {
	if f.drop > 0 {
		return fmt.Sprintf("%d %s points without up to %d", len(f.pts), f.ptName, f.drop)
	}
	return fmt.Sprintf("groups of %d..%d of %d %s points", f.minPts, f.max, len(f.pts), f.ptName)
}

// exactCells are the Voronoi cells of the pixels.
func exactCells(ds []oracle.Pt, w, h int) [][]oracle.FPt {
	out := [][]oracle.FPt{}
	for _, p := range ds {
		out = append(out, oracle.VoronoiCell(p, ds, float64(w), float64(h)))
	}
	return out
}

// cells are the Voronoi cells of the points (C13 checks those).
func cells(g normgeom.NormPointGroup, w, h int) [][]oracle.FPt {
	v := incrdelaunay.NewVoronoi(w, h)
	for _, p := range g {
		q := pixelOf(p, w, h)
		v.Insert(incrdelaunay.Point{X: int16(q.X), Y: int16(q.Y)})
	}
	out := [][]oracle.FPt{}
	v.IterPolygons(func(ps []incrdelaunay.FloatPoint) {
		cell := []oracle.FPt{}
		for _, p := range ps {
			cell = append(cell, oracle.FPt{X: p.X, Y: p.Y})
		}
		out = append(out, cell)
	})
	return out
}

func valueItem(id string, f fcfg, polys bool) explore.Item {
	pools := map[[2]int]*pool{}
	memo := map[uint64]setVal{}
	imgs := map[int]*oracle.Img{}
	return explore.Item{Name: fmt.Sprintf("%s image %dx%d blocks %v patterns %v, %s", id, f.w, f.h, f.blocks, f.kinds, f.what()), Run: func(c *explore.Ctx) {
		b := f.blocks[c.Choose(len(f.blocks))]
		kind := f.kinds[c.Choose(len(f.kinds))]
		g := f.choose(c)
		if c.Skipped() {
			return
		}
		im := imgs[kind]
		if im == nil {
			im = oracle.Pattern(kind, f.w, f.h)
			imgs[kind] = im
		}
		pl := pools[[2]int{b, kind}]
		if pl == nil {
			n := 200
			if f.drop > 0 && f.w*f.h > 50000 {
				n = 8
			}
			pl = &pool{make: func() []fitness.CacheFunction {
				if polys {
					return fitness.PolygonsImageFunctions(im, b, n)
				}
				return append(fitness.TrianglesImageFunctions(im, b, n), fitness.NewTrianglesImageFunction(im, b))
			}}
			pools[[2]int{b, kind}] = pl
		}
		ds := distinct(g, f.w, f.h)
		key := explore.NewH().U(hashPts(ds)).I(kind).Sum()
		want, have := memo[key]
		if !have {
			if polys {
				v, slack, ok, sure := im.CellFitness(exactCells(ds, f.w, f.h), oracle.CellTolerance(f.w, f.h))
				if !ok || !sure {
					v, slack, ok, sure = im.CellFitness(cells(g, f.w, f.h), oracle.Halfway)
				}
				want = setVal{[]float64{v}, slack, ok, !sure}
			} else {
				want.vals, want.slack, want.ok = im.TriFitness(oracle.Delaunay(ds, f.w, f.h))
			}
			memo[key] = want
		}
		got := pl.next().Calculate(fitness.PointsData{Points: g})
		c.Logf("block %d pattern %d points %v: fitness %v", b, kind, ds, got)
		c.State(key)
		if !want.ok {
			c.Outcome(0)
			return
		}
		c.Eval(1)
		c.Outcome(explore.NewH().F(got).Sum())
		if !oracle.InSet(got, want.vals, want.slack) {
			if want.unsure {
				return
			}
			c.Fail("image %dx%d (pattern %d), blocks of %d, points %v: fitness %.12f, expected %.12f", f.w, f.h, kind, b, ds, got, want.vals)
		}
		if got > 1+1e-9 || got < -1e-9 {
			c.Fail("fitness %v is outside [0,1]", got)
		}
	}}
}

func valueConfigs(deep bool) []fcfg {
	half := []float64{0, 0.5, 1}
	q := []float64{0, 0.3, 0.55, 1}
	all := []int{}
	for i := 1; i <= 20; i++ {
		all = append(all, i)
	}
	d := 1
	if deep {
		d = 2
	}
	return []fcfg{
		{1, 1, []int{1, 2, 5}, []int{0, 3}, fractions(half[:3], half[:3]), 4, "thirds", 0, 0},
		{2, 1, []int{1, 3}, []int{0, 2}, fractions(half, half), 3 + d, "thirds", 0, 0},
		{3, 3, []int{1, 2, 3, 4}, []int{0, 4}, fractions([]float64{0, 1. / 3, 2. / 3, 1}, []float64{0, 1. / 3, 2. / 3, 1}), 3 + d, "pixels", 3, 0},
		{5, 4, []int{1, 2, 3, 5, 6}, []int{0, 1}, fractions(q, q), 3 + d, "quarters", 3, 0},
		{8, 8, []int{1, 2, 3, 8}, []int{0, 2}, fractions([]float64{0, 0.25, 0.5, 1}, []float64{0, 0.5, 0.75, 1}), 4, "quarters", 3, 0},
		{13, 9, []int{1, 2, 3, 4, 5, 9, 10}, []int{0, 1, 3}, scattered(9), 4 + d, "scattered", 3, 0},
		{24, 17, []int{1, 2, 3, 4, 5, 7}, []int{0, 1, 4}, scattered(9), 5, "scattered", 4, 0},
		{40, 31, all, []int{0, 3}, scattered(8), 3 + d, "scattered", 4, 0},
		{64, 48, all, []int{3, 0}, scattered(7), 3 + d, "scattered", 3, 0},
		{90, 7, []int{1, 2, 5, 6, 7, 8}, []int{0}, scattered(8), 4, "scattered", 3, 0},
		{7, 90, []int{1, 2, 5, 6, 7, 8}, []int{0}, scattered(8), 4, "scattered", 3, 0},
		{30, 30, []int{1, 3, 5}, []int{0}, scattered(14), 0, "scattered", 0, 2 + d},
		{61, 44, []int{1, 2, 5, 8}, []int{0, 1}, scattered(25), 0, "scattered", 0, 2},
		{330, 270, []int{1, 2, 3, 7, 16}, []int{0, 3}, scattered(8), 3 + d, "scattered", 3, 0},
		{1100, 720, []int{1, 2, 5}, []int{0}, scattered(6), 4, "scattered", 3, 0},
		{3000, 900, []int{2, 9}, []int{3}, scattered(5), 4, "scattered", 3, 0},
		{8191, 3, []int{1, 2}, []int{0}, halves(8191, 3), 3, "halfway", 3, 0},
		{3, 8191, []int{1, 2}, []int{0}, halves(3, 8191), 3, "halfway", 3, 0},
		{517, 4, []int{1, 3}, []int{0}, halves(517, 4), 3, "halfway", 3, 0},
	}
}

// halves are points barely below and above the middle between two pixels along the longer side.
func halves(w, h int) []np {
	long := w
	if h > w {
		long = h
	}
	out := []np{{X: 0, Y: 0}, {X: 1, Y: 1}}
	for _, k := range []int{8, 300, 505, 4500, 8000} {
		for j, d := range []float64{1e-4, -1e-4, 1e-7, -1e-7} {
			v := (float64(k) + 0.5 + d) / float64(long)
			if v >= 1 {
				continue
			}
			p := np{X: v, Y: float64(j) / 3}
			if h > w {
				p = np{X: p.Y, Y: p.X}
			}
			out = append(out, p)
		}
	}
	return out
}

// crowds are points with very many neighbours, without up to one of them.
func crowds(polys, deep bool) []fcfg {
	out := []fcfg{}
	max := 56
	if polys {
		max = 130
	}
	d := 1
	if deep {
		d = 2
	}
	for _, h := range oracle.Hubs(max) {
		f := fcfg{h.W, h.H, []int{1, 3, 8}, []int{0, 3}, nil, 0, h.Name, 0, d}
		if h.W > 1500 {
			continue
		}
		if h.W > 1000 || len(h.Init) > 60 {
			f.blocks, f.kinds, f.drop = []int{2, 5}, []int{3}, 1
		}
		for _, q := range h.Init {
			f.pts = append(f.pts, np{X: float64(q.X) / float64(h.W), Y: float64(q.Y) / float64(h.H)})
		}
		out = append(out, f)
	}
	return out
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C08",
		Bounds: "every multiset of points of each alphabet up to the stated size, and points with many neighbours without one or two of them, for every listed image, pattern and block size",
		Items: func(tier string) []explore.Item {
			items := []explore.Item{}
			for _, f := range valueConfigs(tier == "thorough") {
				items = append(items, valueItem("triangles", f, false))
			}
			for _, f := range crowds(false, tier == "thorough") {
				items = append(items, valueItem("triangles", f, false))
			}
			items = append(items, flatColours(), largeShapes(false, tier == "thorough"))
			return items
		},
	})
	explore.Register(&explore.Check{
		ID:     "C09",
		Bounds: "every multiset of points of each alphabet up to the stated size, and points with many neighbours without one or two of them, for every listed image, pattern and block size",
		Items: func(tier string) []explore.Item {
			items := []explore.Item{}
			for _, f := range valueConfigs(tier == "thorough") {
				if f.minPts > 1 {
					f.minPts = 1
				}
				items = append(items, valueItem("polygons", f, true))
			}
			for _, f := range crowds(true, tier == "thorough") {
				items = append(items, valueItem("polygons", f, true))
			}
			items = append(items, largeShapes(true, tier == "thorough"))
			return items
		},
	})
}

// flatColours renders images of one colour: a perfect match has fitness 1.
func flatColours() explore.Item {
	return explore.Item{Name: "images of one colour", Run: func(c *explore.Ctx) {
		v := c.Choose(256)
		k := c.Choose(7) + 1
		col := [3]int{v * (k & 1), v * (k >> 1 & 1), v * (k >> 2 & 1)}
		if c.Skipped() {
			return
		}
		im := oracle.NewImg(6, 5, func(x, y int) [3]int { return col })
		b := 1 + v%3
		fn := fitness.NewTrianglesImageFunction(im, b)
		got := fn.Calculate(fitness.PointsData{Points: normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 1, Y: 1}, {X: 0, Y: 1}}})
		c.Eval(1)
		c.Outcome(explore.NewH().F(got).Sum())
		c.State(explore.NewH().I(v).I(k).Sum())
		d := got - 1
		if d < -1e-12 || d > 1/195075.+1e-12 {
			c.Fail("the triangulation of an image of one colour %v reproduces it exactly, its fitness is %.12f", col, got)
		}
		if d > 1e-12 {
			c.Finding(fmt.Sprintf("flat:%d,%d,%d", col[0], col[1], col[2]), "the triangulation of an image of one colour %v reproduces it exactly, its fitness is %.12f", col, got)
		}
	}}
}

// tones is an image of a light and another tone; it computes its pixels.
type tones struct {
	w, h  int
	other float64
	split int // columns from here on have the other tone
}

func (t tones) Size() (int, int) { return t.w, t.h }
func (t tones) RGBAt(x, y int) color.RGB {
	if x >= t.split {
		return color.RGB{R: t.other, G: t.other, B: t.other}
	}
	return color.RGB{R: 1, G: 1, B: 1}
}

// largeShapes evaluates shapes of many millions of light pixels, and shapes covered by very large blocks.
func largeShapes(polys, deep bool) explore.Item {
	return explore.Item{Name: "shapes of many millions of light pixels and very large blocks", Run: func(c *explore.Ctx) {
		type size struct{ w, h, block int }
		sizes := []size{{3800, 3700, 1}, {320, 310, 150}}
		if polys {
			sizes = []size{{2700, 2650, 1}, {320, 310, 150}}
		}
		if deep {
			sizes = append(sizes, size{2700, 2650, 7}, size{7000, 2000, 2}, size{530, 520, 255})
		}
		s := sizes[c.Choose(len(sizes))]
		half := c.Choose(2) == 1
		if c.Skipped() {
			return
		}
		im := tones{s.w, s.h, 0, s.w}
		want := 1.
		g := normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 1, Y: 1}, {X: 0, Y: 1}}
		if polys {
			g = normgeom.NormPointGroup{{X: 0.5, Y: 0.5}}
			if half {
				// half of the pixels are black: each differs from the mean by half of the range
				im.split = s.w / 2
				want = 0.75
			}
		} else if half {
			// the half above the diagonal, and the rest is empty
			g = g[:3]
			want = 0.5
		}
		var fn fitness.CacheFunction
		if polys {
			fn = fitness.PolygonsImageFunctions(im, s.block, 1)[0]
		} else {
			fn = fitness.NewTrianglesImageFunction(im, s.block)
		}
		got := fn.Calculate(fitness.PointsData{Points: g})
		c.Logf("%v: %v", s, got)
		c.Eval(1)
		c.State(explore.NewH().I(s.w).I(s.block).F(got).Sum())
		c.Outcome(explore.NewH().F(got).Sum())
		if d := got - want; d < -1e-9 || d > 1e-9 {
			c.Fail("a light image of %dx%d, blocks of %d, points %v: fitness %.12f, expected %.12f", s.w, s.h, s.block, g, got, want)
		}
	}}
}
