package vals

import (
	"fmt"
	"math"
	"math/big"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"verifmc/explore"
)

func close(a, b np) bool {
	return math.Abs(a.X-b.X) <= 1e-14*(1+math.Abs(b.X)) && math.Abs(a.Y-b.Y) <= 1e-14*(1+math.Abs(b.Y))
}

func normItem(xs, ws []int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("normalizing points, triangles and polygons, %d coordinates and %d sizes", len(xs), len(ws)), Run: func(c *explore.Ctx) {
		w, h := ws[c.Choose(len(ws))], ws[c.Choose(len(ws))]
		a := geom.Point{X: xs[c.Choose(len(xs))], Y: xs[c.Choose(len(xs))]}
		b := geom.Point{X: xs[c.Choose(len(xs))], Y: xs[c.Choose(len(xs))]}
		if c.Skipped() {
			return
		}
		c.Logf("%v %v, %dx%d", a, b, w, h)
		want := func(p geom.Point) np { return np{X: float64(p.X) / float64(w), Y: float64(p.Y) / float64(h)} }
		d := geom.Point{X: b.X, Y: a.Y}
		c.Eval(4)
		if got := a.ToNorm(w, h); !close(got, want(a)) {
			c.Fail("%v on %dx%d normalizes to %v", a, w, h, got)
		}
		t := geom.NewTriangle(a.X, a.Y, b.X, b.Y, d.X, d.Y)
		if t.Points != [3]geom.Point{a, b, d} {
			c.Fail("a triangle of %v %v %v has the corners %v", a, b, d, t.Points)
		}
		nt := t.ToNorm(w, h)
		if !close(nt.Points[0], want(a)) || !close(nt.Points[1], want(b)) || !close(nt.Points[2], want(d)) {
			c.Fail("%v on %dx%d normalizes to %v", t, w, h, nt)
		}
		if g := normgeom.NewNormTriangle(want(a).X, want(a).Y, want(b).X, want(b).Y, want(d).X, want(d).Y); g.Points != [3]np{want(a), want(b), want(d)} {
			c.Fail("a normalized triangle of %v has the corners %v", nt, g)
		}
		for n := 0; n <= 4; n++ {
			v := []geom.Point{a, b, d, a}[:n]
			p := geom.Polygon{Points: append([]geom.Point{}, v...)}
			q := p.ToNorm(w, h)
			if len(q.Points) != n {
				c.Fail("a polygon with %d corners normalizes to one with %d", n, len(q.Points))
			}
			for i := range p.Points {
				if p.Points[i] != v[i] {
					c.Fail("normalizing changed the polygon %v to %v", v, p.Points)
				}
				p.Points[i] = geom.Point{X: -50, Y: -60}
			}
			again := geom.Polygon{Points: append([]geom.Point{}, v...)}.ToNorm(w, h)
			for i := range v {
				if !close(q.Points[i], want(v[i])) || !close(again.Points[i], want(v[i])) {
					c.Fail("corner %v on %dx%d normalizes to %v", v[i], w, h, q.Points[i])
				}
				again.Points[i].X = -3
			}
			for i := range v {
				if !close(q.Points[i], want(v[i])) {
					c.Fail("two normalized polygons share their corners")
				}
			}
		}
		dx, dy := new(big.Int).Sub(big.NewInt(int64(a.X)), big.NewInt(int64(b.X))), new(big.Int).Sub(big.NewInt(int64(a.Y)), big.NewInt(int64(b.Y)))
		sq := new(big.Int).Add(new(big.Int).Mul(dx, dx), new(big.Int).Mul(dy, dy))
		if got := a.DistSq(b); sq.IsInt64() && big.NewInt(int64(got)).Cmp(sq) != 0 {
			c.Fail("the squared distance of %v and %v is %d", a, b, got)
		}
		if got := a.Sub(b); int64(got.X) != dx.Int64() || int64(got.Y) != dy.Int64() {
			c.Fail("%v minus %v is %v", a, b, got)
		}
		c.State(explore.NewH().I(a.X).I(a.Y).I(b.X).I(b.Y).I(w).I(h).Sum())
	}}
}

func fanItem(n int, pts []geom.Point) explore.Item {
	return explore.Item{Name: fmt.Sprintf("fans of polygons with up to %d corners", n), Run: func(c *explore.Ctx) {
		k := c.Choose(n + 1)
		v := []geom.Point{}
		for i := 0; i < k; i++ {
			v = append(v, pts[c.Choose(len(pts))])
		}
		if c.Skipped() {
			return
		}
		p := geom.Polygon{Points: append([]geom.Point{}, v...)}
		area, m := 0, 0
		p.Triangulate(func(t geom.Triangle) {
			q := t.Points
			area += (q[1].X-q[0].X)*(q[2].Y-q[0].Y) - (q[1].Y-q[0].Y)*(q[2].X-q[0].X)
			m++
			t.Points[0].X = 99
		})
		want := 0
		for i := range v {
			j := (i + 1) % len(v)
			want += v[i].X*v[j].Y - v[j].X*v[i].Y
		}
		c.Eval(1)
		exp := k - 2
		if exp < 0 {
			exp = 0
		}
		if m != exp || area != want && area != -want {
			c.Fail("the polygon %v with area %d is split into %d triangles with area %d", v, want, m, area)
		}
		if fmt.Sprint(p.Points) != fmt.Sprint(v) && k > 0 {
			c.Fail("splitting changed the polygon %v to %v", v, p.Points)
		}
		c.State(explore.NewH().S(fmt.Sprint(v)).Sum())
	}}
}

var reals = []float64{0, 1, 0.5, 0.25, 1. / 3, 0.1, 1e-9, 1 - 1e-9, 5e-324, 0.7071067811865476, math.Nextafter(1, 0), 1e-160}
var wide = append([]float64{-1, 2, math.Nextafter(1, 2), -5e-324, math.Copysign(0, -1), -1e-9, 1 + 1e-9, 1e300, -1e300, math.Inf(1), math.Inf(-1), 1.5, -0.25, 100}, reals...)

func clampItem() explore.Item {
	return explore.Item{Name: "clamping", Run: func(c *explore.Ctx) {
		p := np{X: wide[c.Choose(len(wide))], Y: wide[c.Choose(len(wide))]}
		if c.Skipped() {
			return
		}
		c.Logf("%v", p)
		want := np{X: math.Max(0, math.Min(1, p.X)), Y: math.Max(0, math.Min(1, p.Y))}
		q, r := p, p
		q.Constrain()
		c.Eval(1)
		if q != want || r != p {
			c.Fail("%v is clamped to %v", p, q)
		}
		q.Constrain()
		if q != want {
			c.Fail("%v clamped again gives %v", want, q)
		}
		c.State(explore.NewH().F(p.X).F(p.Y).Sum())
	}}
}

func distItem(alpha []float64) explore.Item {
	return explore.Item{Name: "distances", Run: func(c *explore.Ctx) {
		a := np{X: alpha[c.Choose(len(alpha))], Y: alpha[c.Choose(len(alpha))]}
		b := np{X: alpha[c.Choose(len(alpha))], Y: alpha[c.Choose(len(alpha))]}
		if c.Skipped() {
			return
		}
		c.Logf("%v %v", a, b)
		want := math.Hypot(a.X-b.X, a.Y-b.Y)
		c.Eval(1)
		// squares of distances below 1e-154 leave the range of the type
		if got := normgeom.Dist(a, b); math.Abs(got-want) > 1e-12*want+1e-150 || got != normgeom.Dist(b, a) {
			c.Fail("the distance of %v and %v is %v, it should be %v", a, b, got, want)
		}
		c.State(explore.NewH().F(a.X).F(a.Y).F(b.X).F(b.Y).Sum())
	}}
}

// groupItem explores every history of copies, sets and changes of a few groups.
func groupItem(depth int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("histories of %d copies, sets and changes of point groups", depth), Run: func(c *explore.Ctx) {
		n := []int{2, 2, 3, 0}
		gs := []group{}
		ref := [][]np{}
		for i, k := range n {
			g := make(group, 0, k+2)
			for j := 0; j < k; j++ {
				g = append(g, np{X: float64(i+1) / 8, Y: float64(j+1) / 8})
			}
			gs = append(gs, g)
			ref = append(ref, append([]np{}, g...))
		}
		for s := 0; s < depth; s++ {
			i, j := c.Choose(len(gs)), c.Choose(len(gs))
			op := c.Choose(4)
			if c.Skipped() {
				return
			}
			c.Logf("%s %d %d", []string{"copy", "set", "change", "extend"}[op], i, j)
			switch op {
			case 0:
				gs[i] = gs[j].Copy()
				ref[i] = append([]np{}, ref[j]...)
			case 1:
				refused := func() (r bool) {
					defer func() { r = recover() != nil }()
					gs[i].Set(gs[j])
					return
				}()
				if refused != (len(ref[i]) != len(ref[j])) {
					c.Fail("setting a group of %d points to one of %d: refused=%v", len(ref[i]), len(ref[j]), refused)
				}
				if !refused {
					copy(ref[i], ref[j])
				}
			case 2:
				if len(gs[i]) > 0 {
					k := j % len(gs[i])
					gs[i][k].X += 0.01
					ref[i][k].X += 0.01
				}
			case 3:
				// a longer group made from this one must not change any other
				t := append(gs[i], np{X: float64(s), Y: -1})
				t[0].Y += 0.02
				if &t[0] == &append(gs[i], np{})[0] && len(ref[i]) > 0 {
					ref[i][0].Y += 0.02
				}
			}
			if !c.Fresh() {
				continue
			}
			c.Eval(len(gs))
			h := explore.NewH()
			for k := range gs {
				if len(gs[k]) != len(ref[k]) {
					c.Fail("group %d has %d points instead of %d", k, len(gs[k]), len(ref[k]))
				}
				h = h.I(len(gs[k]))
				for m := range gs[k] {
					if gs[k][m] != ref[k][m] {
						c.Fail("group %d is %v, it should be %v", k, gs[k], ref[k])
					}
					h = h.F(gs[k][m].X).F(gs[k][m].Y)
				}
			}
			c.State(h.Sum())
		}
	}}
}

// sizesSetItem sets groups of every pair of sizes.
func sizesSetItem() explore.Item {
	sizes := []int{0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 4096, 65536}
	return explore.Item{Name: "setting groups of every pair of sizes", Run: func(c *explore.Ctx) {
		a, b := sizes[c.Choose(len(sizes))], sizes[c.Choose(len(sizes))]
		if c.Skipped() {
			return
		}
		c.Logf("%d %d", a, b)
		g, o := make(group, a), make(group, b)
		for i := range g {
			g[i] = np{X: 0.25, Y: 1 / float64(i+1)}
		}
		for i := range o {
			o[i] = np{X: float64(i) / float64(b), Y: 0.5}
		}
		k := o.Copy()
		refused := func() (r bool) {
			defer func() { r = recover() != nil }()
			g.Set(o)
			return
		}()
		c.Eval(1)
		if refused != (a != b) {
			c.Fail("setting a group of %d points to one of %d: refused=%v", a, b, refused)
		}
		same := func(what string, g group) {
			if len(g) != b {
				c.Fail("%s has %d points instead of %d", what, len(g), b)
			}
			for i := range g {
				if g[i] != (np{X: float64(i) / float64(b), Y: 0.5}) {
					c.Fail("%s has %v in place %d", what, g[i], i)
				}
			}
		}
		same("a copy", k)
		if !refused {
			same("a set group", g)
			for i := range o {
				o[i].X = -1
			}
			same("a set group", g)
			same("a copy", k)
		}
		c.State(explore.NewH().I(a).I(b).Sum())
	}}
}

// averageItem explores every sequence of additions, copies and readings.
func averageItem(depth int) explore.Item {
	cols := []color.RGB{{R: 0, G: 0, B: 0}, {R: 1, G: 0.5, B: 0.25}, {R: 0.1, G: 0.2, B: 0.9}, {R: 1. / 3, G: 1, B: 1e-9}, {R: 0, G: 1, B: 0}}
	return explore.Item{Name: fmt.Sprintf("averages of up to %d colours in any order", depth), Run: func(c *explore.Ctx) {
		a := color.AverageRGB{}
		var old color.AverageRGB
		var oldSum, sum color.RGB
		oldN, n := 0, 0
		check := func(a color.AverageRGB, s color.RGB, n int) {
			c.Eval(1)
			if int(a.Count()) != n {
				c.Fail("the average counts %d colours instead of %d", a.Count(), n)
			}
			if n == 0 {
				return
			}
			got, f := a.Average(), float64(n)
			if !near(got, color.RGB{R: s.R / f, G: s.G / f, B: s.B / f}) {
				c.Fail("the average of %d colours with sum %v is %v", n, s, got)
			}
		}
		for i := 0; i < depth; i++ {
			k := c.Choose(len(cols) + 1)
			if k == len(cols) {
				old, oldSum, oldN = a, sum, n
			} else {
				q := color.NewRGB(cols[k].R, cols[k].G, cols[k].B)
				if q != cols[k] {
					c.Fail("a colour made of %v is %v", cols[k], q)
				}
				a.Add(q)
				q.R = 77
				n++
				sum.R += cols[k].R
				sum.G += cols[k].G
				sum.B += cols[k].B
			}
			if c.Skipped() {
				return
			}
			if c.Fresh() {
				check(a, sum, n)
				check(old, oldSum, oldN)
				c.State(explore.NewH().F(sum.R).F(sum.G).F(sum.B).I(n).I(oldN).Sum())
			}
		}
	}}
}

// manyItem averages many colours.
func manyItem() explore.Item {
	return explore.Item{Name: "averages of many colours", Run: func(c *explore.Ctx) {
		n := []int{3, 100, 255, 256, 257, 999, 1000, 1001, 1500, 4095, 4097, 10001, 65535, 65536, 65537, 1 << 20, 1<<24 + 1}[c.Choose(16)]
		v := []float64{1, 0.5, 1. / 255}[c.Choose(3)]
		if c.Skipped() {
			return
		}
		a := color.AverageRGB{}
		for i := 0; i < n; i++ {
			a.Add(color.RGB{R: v, G: float64(i & 1), B: 1 - v})
		}
		g := a.Average()
		c.Eval(1)
		tol := 1e-12 + float64(n)*2.3e-16 // what rounding every sum can add up to
		if int(a.Count()) != n || !(math.Abs(g.R-v) <= tol && math.Abs(g.B-(1-v)) <= tol && math.Abs(g.G-float64(n/2)/float64(n)) <= tol) {
			c.Fail("the average of %d times %v is %v over %d", n, v, g, a.Count())
		}
		c.State(explore.NewH().I(n).F(v).Sum())
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C25",
		Bounds: "every pair of points over the coordinate alphabet with every size; every polygon over a lattice; every pair of points over the real alphabet; every history of copies, sets and changes of four groups; every sequence of colours up to the depth",
		Items: func(tier string) []explore.Item {
			xs, ws := []int{0, 1, 2, 3, 7, 10, -4, 2999, 46341, 1 << 30, 3000000000, -40000000000}, []int{1, 2, 3, 7, 10, 49, 3000}
			d, n, k := 3, 7, 4
			if tier == "thorough" {
				xs, ws = append(xs, 5, 100, -46340, 65536), append(ws, 5, 6, 255, 1<<20)
				d, n, k = 4, 9, 5
			}
			return []explore.Item{normItem(xs, ws), fanItem(k, []geom.Point{{X: 0, Y: 0}, {X: 2, Y: 0}, {X: 1, Y: 1}, {X: 0, Y: 3}, {X: 4, Y: 4}, {X: -1, Y: 2}}), clampItem(), distItem(reals), groupItem(d), sizesSetItem(), averageItem(n), manyItem()}
		},
	})
}
