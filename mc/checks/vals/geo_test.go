package vals

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/fogleman/delaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

type np = normgeom.NormPoint
type group = normgeom.NormPointGroup

// pcfg is an alphabet of positions of an image.
type pcfg struct {
	name string
	w, h int
	pts  []np
	min  int
	max  int
	drop int // when positive, groups are the whole alphabet without up to drop of its first free points
	free int
}

func (p pcfg) what() string {
	if p.drop > 0 {
		return fmt.Sprintf("%s, image %dx%d, %d points without up to %d of the first %d", p.name, p.w, p.h, len(p.pts), p.drop, p.free)
	}
	return fmt.Sprintf("%s, image %dx%d, groups of %d..%d of %d", p.name, p.w, p.h, p.min, p.max, len(p.pts))
}

// crowds are large groups: points with very many neighbours, lattices and scattered points.
func crowds(tier string) []pcfg {
	max, d := 160, 1
	if tier == "thorough" {
		max, d = 300, 2
	}
	out := []pcfg{}
	for _, h := range oracle.Hubs(max) {
		p := pcfg{name: h.Name, w: h.W, h: h.H, drop: d, free: len(h.Free)}
		if len(h.Init) > 80 {
			p.drop, p.free = 1, 3
		}
		seen := map[oracle.Pt]bool{}
		for _, q := range append(append([]oracle.Pt{}, h.Free...), h.Init...) {
			if !seen[q] {
				seen[q] = true
				p.pts = append(p.pts, np{X: float64(q.X) / float64(h.W), Y: float64(q.Y) / float64(h.H)})
			}
		}
		out = append(out, p)
	}
	for _, x := range []struct{ n, w, h int }{{6, 17, 23}, {10, 40, 30}, {17, 90, 120}, {33, 300, 210}, {65, 640, 400}, {130, 1500, 1200}, {40, 12, 9}, {70, 8, 300}, {258, 8000, 7000}} {
		if x.n > 2*max {
			continue
		}
		p := pcfg{name: "scattered", w: x.w, h: x.h, pts: spread(x.n), drop: 2, free: x.n}
		if x.n > 33 {
			p.drop, p.free = d, 12
		}
		out = append(out, p)
	}
	for _, n := range []int{4, 6, 9, 12} {
		at := make([]int, n)
		for i := range at {
			at[i] = 5 * i
		}
		out = append(out, pcfg{name: "lattice", w: 5 * (n - 1), h: 5 * (n - 1), pts: lattice(5*(n-1), 5*(n-1), at, at), drop: d, free: n})
	}
	return out
}

func pixels(w, h int, xy ...int) []np {
	out := []np{}
	for i := 0; i+1 < len(xy); i += 2 {
		out = append(out, np{X: float64(xy[i]) / float64(w), Y: float64(xy[i+1]) / float64(h)})
	}
	return out
}

func lattice(w, h int, xs, ys []int) []np {
	out := []np{}
	for _, y := range ys {
		for _, x := range xs {
			out = append(out, np{X: float64(x) / float64(w), Y: float64(y) / float64(h)})
		}
	}
	return out
}

func spread(n int) []np {
	out := []np{}
	for i := 1; len(out) < n; i++ {
		out = append(out, np{X: math.Mod(float64(i)*0.6180339887, 1), Y: math.Mod(float64(i)*0.7548776662, 1)})
	}
	return out
}

func configs(tier string) []pcfg {
	d := 1
	if tier == "thorough" {
		d = 3
	}
	return []pcfg{
		{"grid", 4, 4, lattice(4, 4, []int{0, 2, 4}, []int{0, 2, 4}), 1, 4 + d, 0, 0},
		{"pixels", 3, 2, lattice(3, 2, []int{0, 1, 2, 3}, []int{0, 1, 2}), 1, 4 + d, 0, 0},
		{"one pixel", 1, 1, lattice(1, 1, []int{0, 1}, []int{0, 1}), 1, 4, 0, 0},
		{"between pixels", 5, 7, []np{{X: 0.1, Y: 0.5}, {X: 0.29, Y: 0.07}, {X: 0.31, Y: 0.0714286}, {X: 0.5, Y: 0.93}, {X: 0.7, Y: 0.5}, {X: 0.9, Y: 1}, {X: 0.95, Y: 0.3}, {X: 1, Y: 0.99}}, 1, 4 + d, 0, 0},
		{"spread", 100, 80, spread(9), 1, 5 + d, 0, 0},
		{"even", 40, 60, pixels(40, 60, 0, 0, 40, 60, 12, 30, 28, 30, 20, 10, 20, 50, 40, 0, 4, 44), 1, 4 + d, 0, 0},
		{"line", 60, 60, pixels(60, 60, 0, 30, 10, 30, 20, 30, 40, 30, 60, 30, 30, 10), 1, 4 + d, 0, 0},
		{"diagonal", 64, 64, pixels(64, 64, 0, 0, 16, 16, 32, 32, 64, 64, 16, 48, 0, 64), 1, 4 + d, 0, 0},
		{"circle", 50, 50, pixels(50, 50, 50, 25, 45, 40, 40, 45, 25, 50, 10, 45, 5, 10, 25, 0, 25, 25), 1, 4 + d, 0, 0},
		{"tall", 7, 211, pixels(7, 211, 0, 0, 7, 0, 7, 211, 0, 211, 3, 100, 4, 101, 3, 7), 1, 4 + d, 0, 0},
		{"large", 3000, 2000, spread(8), 1, 4 + d, 0, 0},
		{"huge", 8000, 6000, spread(7), 1, 4, 0, 0},
	}
}

// choose picks a multiset in every order when it is small.
func (p pcfg) choose(c *explore.Ctx) group {
	g := group{}
	lo := 0
	if p.drop > 0 {
		out := map[int]bool{}
		for k := c.Choose(p.drop + 1); k > 0 && lo < p.free; k-- {
			lo += c.Choose(p.free - lo)
			out[lo] = true
			lo++
		}
		for i, q := range p.pts {
			if !out[i] {
				g = append(g, q)
			}
		}
	} else {
		n := p.min + c.Choose(p.max-p.min+1)
		for i := 0; i < n; i++ {
			lo += c.Choose(len(p.pts) - lo)
			g = append(g, p.pts[lo])
		}
	}
	switch c.Choose(3) {
	case 1:
		for i, j := 0, len(g)-1; i < j; i, j = i+1, j-1 {
			g[i], g[j] = g[j], g[i]
		}
	case 2:
		for i := 2; i < len(g); i += 2 {
			g[0], g[i] = g[i], g[0]
		}
	}
	return g
}

func rounded(g group, w, h int) []oracle.Pt {
	out := []oracle.Pt{}
	seen := map[oracle.Pt]bool{}
	for _, p := range g {
		q := oracle.Pt{X: int64(math.Floor(p.X*float64(w) + 0.5)), Y: int64(math.Floor(p.Y*float64(h) + 0.5))}
		if !seen[q] {
			seen[q] = true
			out = append(out, q)
		}
	}
	return out
}

func hashPts(ps []oracle.Pt) uint64 {
	h := explore.NewH()
	q := append([]oracle.Pt{}, ps...)
	sort.Slice(q, func(i, j int) bool { return q[i].X < q[j].X || q[i].X == q[j].X && q[i].Y < q[j].Y })
	for _, p := range q {
		h = h.I(int(p.X)).I(int(p.Y))
	}
	return h.Sum()
}

// C14

func polyPts(p geom.Polygon) []geom.Point {
	r := append([]geom.Point{}, p.Points...)
	for len(r) > 1 && r[0] == r[len(r)-1] {
		r = r[:len(r)-1]
	}
	return r
}

// matches compares a polygon with a cell. It tells whether they agree.
func matches(got []geom.Point, cell []oracle.FPt, tol float64) bool {
	amb := func(x float64) bool { return math.Abs(x-math.Floor(x)-0.5) < tol }
	sure := true
	for _, v := range cell {
		if amb(v.X) || amb(v.Y) {
			sure = false
		}
	}
	if sure {
		want := []geom.Point{}
		for _, v := range cell {
			q := geom.Point{X: int(math.Floor(v.X + 0.5)), Y: int(math.Floor(v.Y + 0.5))}
			if len(want) == 0 || want[len(want)-1] != q {
				want = append(want, q)
			}
		}
		for len(want) > 1 && want[0] == want[len(want)-1] {
			want = want[:len(want)-1]
		}
		if len(want) != len(got) {
			return false
		}
		for s := range want {
			f, b := true, true
			for i := range got {
				f = f && got[i] == want[(s+i)%len(want)]
				b = b && got[i] == want[(s-i+2*len(want))%len(want)]
			}
			if f || b {
				return true
			}
		}
		return false
	}
	// corners that may be rounded either way: every corner needs a partner within half a pixel
	near := func(p geom.Point, v oracle.FPt) bool {
		return math.Abs(float64(p.X)-v.X) <= 0.5+tol && math.Abs(float64(p.Y)-v.Y) <= 0.5+tol
	}
	for _, v := range cell {
		ok := false
		for _, p := range got {
			ok = ok || near(p, v)
		}
		if !ok {
			return false
		}
	}
	for _, p := range got {
		ok := false
		for _, v := range cell {
			ok = ok || near(p, v)
		}
		if !ok {
			return false
		}
	}
	return true
}

func polygonateItem(p pcfg) explore.Item {
	return explore.Item{Name: p.what(), Run: func(c *explore.Ctx) {
		g := p.choose(c)
		if c.Skipped() {
			return
		}
		in := append(group{}, g...)
		got := polygonation.Polygonate(g, p.w, p.h)
		for i := range in {
			if in[i] != g[i] {
				c.Fail("the points passed in were changed")
			}
		}
		ps := rounded(g, p.w, p.h)
		c.Eval(1)
		c.State(hashPts(ps))
		c.Logf("points %v: %v", ps, got)
		if len(got) != len(ps) {
			c.Fail("%d polygons for the %d distinct points %v", len(got), len(ps), ps)
		}
		size := p.w
		if p.h > size {
			size = p.h
		}
		tol := 2e-3 + 1e-5*float64(size)
		h := explore.NewH()
		for _, x := range got {
			for k, v := range x.Points {
				h = h.I(v.X).I(v.Y)
				if v.X < 0 || v.Y < 0 || v.X > p.w || v.Y > p.h {
					c.Fail("the corner %v lies outside the image", v)
				}
				if k > 0 && v == x.Points[k-1] {
					c.Fail("the polygon %v has equal neighbouring corners", x.Points)
				}
			}
		}
		// every cell needs a polygon of its own
		fits := make([][]bool, len(ps))
		for k, q := range ps {
			cell := oracle.VoronoiCell(q, ps, float64(p.w), float64(p.h))
			for _, x := range got {
				fits[k] = append(fits[k], matches(polyPts(x), cell, tol))
			}
		}
		owner := make([]int, len(got))
		for i := range owner {
			owner[i] = -1
		}
		var assign func(k int, seen []bool) bool
		assign = func(k int, seen []bool) bool {
			for i := range got {
				if fits[k][i] && !seen[i] {
					seen[i] = true
					if owner[i] < 0 || assign(owner[i], seen) {
						owner[i] = k
						return true
					}
				}
			}
			return false
		}
		for k, q := range ps {
			if !assign(k, make([]bool, len(got))) {
				c.Fail("points %v: no polygon is the rounded cell %v of %v; the polygons are %v", ps, oracle.VoronoiCell(q, ps, float64(p.w), float64(p.h)), q, got)
			}
		}
		c.Outcome(h.Sum())
	}}
}

// C15

func triangulateItem(p pcfg) explore.Item {
	return explore.Item{Name: "triangulation: " + p.what(), Run: func(c *explore.Ctx) {
		g := p.choose(c)
		if c.Skipped() {
			return
		}
		in := append(group{}, g...)
		got := triangulation.Triangulate(g, p.w, p.h)
		for i := range in {
			if in[i] != g[i] {
				c.Fail("the points passed in were changed")
			}
		}
		ps := rounded(g, p.w, p.h)
		c.State(hashPts(ps))
		c.Eval(1)
		c.Logf("points %v: %v", ps, got)
		real := map[oracle.Pt]bool{}
		for _, q := range ps {
			real[q] = true
		}
		ts := []oracle.Tri{}
		var area int64
		h := explore.NewH()
		for _, t := range got {
			var x oracle.Tri
			for i, v := range t.Points {
				x[i] = oracle.Pt{X: int64(v.X), Y: int64(v.Y)}
				h = h.I(v.X).I(v.Y)
				if !real[x[i]] {
					c.Fail("points %v: the corner %v of a triangle is no point", ps, v)
				}
			}
			cr := oracle.Cross(x[0], x[1], x[2])
			if cr == 0 {
				c.Fail("points %v: the triangle %v is degenerate", ps, x)
			}
			if cr < 0 {
				cr = -cr
			}
			area += cr
			for _, q := range ps {
				if oracle.InCircle(x[0], x[1], x[2], q) > 0 {
					c.Fail("points %v: %v lies inside the circumcircle of %v", ps, q, x)
				}
			}
			for _, o := range ts {
				if oracle.TrisOverlap(o, x) {
					c.Fail("points %v: the triangles %v and %v overlap", ps, o, x)
				}
			}
			ts = append(ts, x)
		}
		if a := oracle.HullArea2(ps); a != area {
			c.Fail("points %v: the triangles cover twice-area %d, the convex hull %d", ps, area, a)
		}
		c.Outcome(h.Sum())
	}}
}

// areaItem compares the area of simple polygons with that of a triangulation by ears.
func areaItem(n, side int, scale, dx, dy float64) explore.Item {
	return explore.Item{Name: fmt.Sprintf("area of every simple polygon with %d corners on a %dx%d grid times %v", n, side, side, scale), Run: func(c *explore.Ctx) {
		v := []oracle.Pt{}
		for i := 0; i < n; i++ {
			k := c.Choose(side * side)
			q := oracle.Pt{X: int64(k % side), Y: int64(k / side)}
			for _, o := range v {
				if o == q {
					return
				}
			}
			v = append(v, q)
		}
		if c.Skipped() || !simple(v) {
			return
		}
		in := []delaunay.Point{}
		for _, q := range v {
			in = append(in, delaunay.Point{X: float64(q.X)*scale + dx, Y: float64(q.Y)*scale + dy})
		}
		want := float64(insideCells(v, side)) / 4 * scale * scale
		got := triangulation.Area(in)
		c.Eval(1)
		c.Outcome(uint64(got))
		h := explore.NewH()
		for _, q := range v {
			h = h.I(int(q.X)).I(int(q.Y))
		}
		c.State(h.Sum())
		if math.Abs(float64(got)-want) > 0.5+1e-9 {
			c.Fail("the area of %v is %v, reported as %d", in, want, got)
		}
	}}
}

// roundItem compares the area of polygons with many corners with that of their fan.
func roundItem() explore.Item {
	return explore.Item{Name: "area of polygons with up to 70000 corners", Run: func(c *explore.Ctx) {
		n := []int{3, 5, 12, 100, 255, 256, 257, 1000, 70000}[c.Choose(9)]
		r := []int{50, 4095, 1 << 20}[c.Choose(3)]
		first := []int{0, n / 3, n - 1}[c.Choose(3)]
		back := c.Choose(2) == 1
		if c.Skipped() || n > 2*r {
			return
		}
		pts := []oracle.Pt{}
		for i := 0; i < n; i++ {
			// every second corner lies nearer to the centre
			rr := float64(r)
			if i%2 == 1 {
				rr *= 0.7
			}
			a := float64(i) * 2 * math.Pi / float64(n)
			pts = append(pts, oracle.Pt{X: int64(r) + int64(math.Round(rr*math.Cos(a))), Y: int64(r) + int64(math.Round(rr*math.Sin(a)))})
		}
		var twice int64
		in := []delaunay.Point{}
		for i := range pts {
			twice += oracle.Cross(pts[0], pts[i], pts[(i+1)%n])
			j := (i + first) % n
			if back {
				j = (2*n - i - first) % n
			}
			in = append(in, delaunay.Point{X: float64(pts[j].X), Y: float64(pts[j].Y)})
		}
		got := triangulation.Area(in)
		c.Eval(1)
		c.Outcome(uint64(got))
		c.State(explore.NewH().I(n).I(r).I(first).Sum())
		if d := 2*int64(got) - twice; d < -1 || d > 1 {
			c.Fail("the area of a polygon with %d corners (first %d, backwards %v) around a circle of radius %d is %v, reported as %d", n, first, back, r, float64(twice)/2, got)
		}
	}}
}

// simple tells whether the border does not touch itself.
func simple(v []oracle.Pt) bool {
	n := len(v)
	on := func(a, b, p oracle.Pt) bool {
		return oracle.Cross(a, b, p) == 0 && (p.X-a.X)*(p.X-b.X) <= 0 && (p.Y-a.Y)*(p.Y-b.Y) <= 0
	}
	sg := func(x int64) int {
		if x > 0 {
			return 1
		} else if x < 0 {
			return -1
		}
		return 0
	}
	for i := 0; i < n; i++ {
		a, b := v[i], v[(i+1)%n]
		if on(a, b, v[(i+2)%n]) || on(b, v[(i+2)%n], a) {
			if n == 3 || oracle.Cross(a, b, v[(i+2)%n]) == 0 && (on(a, b, v[(i+2)%n]) || on(b, v[(i+2)%n], a)) {
				return false
			}
		}
		for j := i + 2; j < n; j++ {
			if i == 0 && j == n-1 {
				continue
			}
			p, q := v[j], v[(j+1)%n]
			if on(a, b, p) || on(a, b, q) || on(p, q, a) || on(p, q, b) {
				return false
			}
			if sg(oracle.Cross(a, b, p))*sg(oracle.Cross(a, b, q)) < 0 && sg(oracle.Cross(p, q, a))*sg(oracle.Cross(p, q, b)) < 0 {
				return false
			}
		}
	}
	return true
}

// insideCells is four times the area, by Pick's theorem: inner lattice points and border points.
func insideCells(v []oracle.Pt, side int) int {
	inner, border := 0, 0
	n := len(v)
	for y := int64(0); y < int64(side); y++ {
		for x := int64(0); x < int64(side); x++ {
			p := oracle.Pt{X: x, Y: y}
			onB := false
			in := false
			for i := 0; i < n; i++ {
				a, b := v[i], v[(i+1)%n]
				if oracle.Cross(a, b, p) == 0 && (x-a.X)*(x-b.X) <= 0 && (y-a.Y)*(y-b.Y) <= 0 {
					onB = true
				}
				if (a.Y > y) != (b.Y > y) {
					// the crossing lies to the right of p
					cr := oracle.Cross(a, b, p)
					if b.Y > a.Y && cr > 0 || b.Y < a.Y && cr < 0 {
						in = !in
					}
				}
			}
			if onB {
				border++
			} else if in {
				inner++
			}
		}
	}
	return 4*inner + 2*border - 4
}

// jittered is a lattice of points that fills the image, those inside moved off their places but for a rest.
func jittered(cols, rows, step int) (ps []oracle.Pt, w, h int) {
	w, h = (cols-1)*step, (rows-1)*step
	for j := 0; j < rows; j++ {
		for i := 0; i < cols; i++ {
			x, y := i*step, j*step
			if i > 0 && i < cols-1 && j > 0 && j < rows-1 {
				x += (i*7+j*j*3)%(step-1) - step/2 + 1
				y += (i*i*5+j*11)%(step-1) - step/2 + 1
			}
			ps = append(ps, oracle.Pt{X: int64(x), Y: int64(y)})
		}
	}
	return
}

// manyItem triangulates and polygonates very many points, decided by local conditions: among all points in some
// order, all but one.
func manyPointsItem(cols, rows, step int, polys bool) explore.Item {
	what := "triangulation"
	if polys {
		what = "polygonation"
	}
	return explore.Item{Name: fmt.Sprintf("%s of %dx%d points, %d apart", what, cols, rows, step), Run: func(c *explore.Ctx) {
		all, w, h := jittered(cols, rows, step)
		drop := []int{-1, cols*rows/2 + cols/2, cols*rows - cols - 2}[c.Choose(3)]
		order := c.Choose(2)
		if c.Skipped() {
			return
		}
		site := map[oracle.Pt]int{}
		g := group{}
		for i := range all {
			k := i
			if order == 1 {
				k = (i*7919 + 13) % len(all)
			}
			if k == drop {
				continue
			}
			site[all[k]] = k
			g = append(g, np{X: float64(all[k].X) / float64(w), Y: float64(all[k].Y) / float64(h)})
		}
		c.Eval(1)
		c.State(explore.NewH().I(drop).I(order).I(cols).Sum())
		if !polys {
			manyTriangles(c, site, triangulation.Triangulate(g, w, h), w, h)
			return
		}
		got := polygonation.Polygonate(g, w, h)
		if len(got) != len(site) {
			c.Fail("%d polygons for %d points", len(got), len(site))
		}
		// the polygons by the lattice cell of their middles
		near := map[[2]int][]int{}
		for i, x := range got {
			if len(x.Points) == 0 {
				c.Fail("a polygon has no corners")
			}
			mx, my := 0, 0
			for _, v := range x.Points {
				mx += v.X
				my += v.Y
			}
			k := [2]int{mx / len(x.Points) / step, my / len(x.Points) / step}
			near[k] = append(near[k], i)
		}
		used := make([]bool, len(got))
		tol := 2e-3 + 1e-5*float64(max(w, h))
		for q, k := range site {
			nb := []oracle.Pt{}
			for dj := -4; dj <= 4; dj++ {
				for di := -4; di <= 4; di++ {
					i, j := k%cols+di, k/cols+dj
					if i < 0 || j < 0 || i >= cols || j >= rows || j*cols+i == drop {
						continue
					}
					nb = append(nb, all[j*cols+i])
				}
			}
			cell := oracle.VoronoiCell(q, nb, float64(w), float64(h))
			ok := false
			for dj := -2; dj <= 2 && !ok; dj++ {
				for di := -2; di <= 2 && !ok; di++ {
					for _, i := range near[[2]int{int(q.X)/step + di, int(q.Y)/step + dj}] {
						if !used[i] && matches(polyPts(got[i]), cell, tol) {
							used[i], ok = true, true
							break
						}
					}
				}
			}
			if !ok {
				c.Fail("%d points on %dx%d: no polygon is the rounded cell %v of %v", len(site), w, h, cell, q)
			}
		}
		c.Outcome(uint64(len(got)))
	}}
}

// manyTriangles: corners are points, no side has two triangles on the same side, no far corner lies in the
// circumcircle of a neighbour, and the areas add up to that of the image.
func manyTriangles(c *explore.Ctx, site map[oracle.Pt]int, got []geom.Triangle, w, h int) {
	type edge struct{ a, b oracle.Pt }
	far := map[edge]oracle.Pt{}
	var area int64
	for _, t := range got {
		var x oracle.Tri
		for i, v := range t.Points {
			x[i] = oracle.Pt{X: int64(v.X), Y: int64(v.Y)}
			if _, ok := site[x[i]]; !ok {
				c.Fail("the corner %v of a triangle is no point", v)
			}
		}
		cr := oracle.Cross(x[0], x[1], x[2])
		if cr == 0 {
			c.Fail("the triangle %v is degenerate", x)
		}
		if cr < 0 {
			x[1], x[2] = x[2], x[1]
			cr = -cr
		}
		area += cr
		for i := range x {
			e := edge{x[i], x[(i+1)%3]}
			if _, ok := far[e]; ok {
				c.Fail("two triangles lie on the same side of %v", e)
			}
			far[e] = x[(i+2)%3]
		}
	}
	for e, p := range far {
		if q, ok := far[edge{e.b, e.a}]; ok && oracle.InCircle(e.a, e.b, p, q) > 0 {
			c.Fail("%v lies inside the circumcircle of %v %v %v", q, e.a, e.b, p)
		}
	}
	if area != 2*int64(w)*int64(h) {
		c.Fail("the triangles of %d points cover twice-area %d of %d", len(site), area, 2*w*h)
	}
	c.Outcome(uint64(len(got)))
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C14",
		Bounds: "every multiset of each alphabet up to the stated size, and large groups (points with up to 150 neighbours (thorough: 200), lattices, scattered points) without up to 1 or 2 points, in three orders",
		Items: func(tier string) []explore.Item {
			items := []explore.Item{}
			for _, p := range append(configs(tier), crowds(tier)...) {
				items = append(items, polygonateItem(p))
			}
			items = append(items, manyPointsItem(130, 104, 7, true), manyPointsItem(60, 150, 9, true))
			if tier == "thorough" {
				items = append(items, manyPointsItem(260, 256, 5, true))
			}
			return items
		},
	})
	explore.Register(&explore.Check{
		ID:     "C15",
		Bounds: "every multiset of each alphabet up to the stated size, and large groups (points with up to 150 neighbours (thorough: 200), lattices, scattered points) without up to 1 or 2 points, in three orders; every simple polygon over small grids",
		Items: func(tier string) []explore.Item {
			items := []explore.Item{}
			for _, p := range append(configs(tier), crowds(tier)...) {
				items = append(items, triangulateItem(p))
			}
			items = append(items, manyPointsItem(280, 240, 7, false), manyPointsItem(60, 150, 9, false))
			if tier == "thorough" {
				items = append(items, manyPointsItem(400, 350, 5, false))
			}
			items = append(items, areaItem(3, 4, 1, 0, 0), areaItem(4, 3, 1, -5, 2), areaItem(5, 3, 1, 0, 0), areaItem(4, 4, 0.5, 0.25, 3), areaItem(3, 4, 1000, -2000, 7),
				areaItem(4, 4, 2731, 1, 3), areaItem(4, 3, 100003, -7, 13), roundItem())
			if tier == "thorough" {
				items = append(items, areaItem(5, 4, 1, 0, 0), areaItem(6, 3, 1, 3, 3))
			}
			return items
		},
	})
}
