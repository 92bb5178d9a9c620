package vals

import (
	"fmt"
	stdimage "image"
	stdcolor "image/color"
	"math"
	"sort"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"verifmc/explore"
	"verifmc/oracle"
	"verifmc/shapes"
)

// own is an image of its own type with distinct colours.
type own struct{ w, h int }

func (o own) Size() (int, int) { return o.w, o.h }
func (o own) RGBAt(x, y int) color.RGB {
	if x < 0 || y < 0 || x >= o.w || y >= o.h {
		panic(fmt.Sprintf("pixel (%d,%d) lies outside the image", x, y))
	}
	// every set of pixels has a sum of its own for small images
	k := uint(y*o.w + x)
	return color.RGB{R: math.Ldexp(1, -int(k%30)), G: float64(k*k%251) / 250, B: float64((k*7+3)%97) / 96}
}

func converted(w, h int) image.Data {
	im := stdimage.NewNRGBA(stdimage.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			im.SetNRGBA(x, y, stdcolor.NRGBA{R: uint8(x*83 + y*41), G: uint8(x*x + 7*y), B: uint8(255 - x*y), A: 255})
		}
	}
	return image.ToData(im)
}

var imageKinds = []struct {
	name string
	make func(w, h int) image.Data
}{
	{"own type", func(w, h int) image.Data { return own{w, h} }},
	{"converted", converted},
}

// means returns the mean colours that a convex shape may have; several when a border hits pixel boundaries with
// rounding errors.
func means(im image.Data, v []geom.Point) ([]color.RGB, bool) {
	w, h := im.Size()
	rows := oracle.ConvexRows(v)
	type sum struct {
		r, g, b float64
		n       int
	}
	sums := []sum{{}}
	for y, r := range rows {
		var opts []sum
		for _, lo := range []int{r.Lo, r.Lo - 1} {
			if lo != r.Lo && !r.Lox {
				continue
			}
			for _, hi := range []int{r.Hi, r.Hi - 1} {
				if hi != r.Hi && !r.Hix {
					continue
				}
				s := sum{}
				for x := lo; x < hi; x++ {
					p := im.RGBAt(x, y)
					s.r, s.g, s.b, s.n = s.r+p.R, s.g+p.G, s.b+p.B, s.n+1
				}
				opts = append(opts, s)
			}
		}
		if len(sums)*len(opts) > 1<<10 {
			return nil, false
		}
		next := []sum{}
		for _, a := range sums {
			for _, o := range opts {
				next = append(next, sum{a.r + o.r, a.g + o.g, a.b + o.b, a.n + o.n})
			}
		}
		sums = next
	}
	out := []color.RGB{}
	for _, s := range sums {
		if s.n == 0 {
			for _, p := range v {
				x, y := p.X, p.Y
				if x > w-1 {
					x = w - 1
				}
				if y > h-1 {
					y = h - 1
				}
				q := im.RGBAt(x, y)
				s.r, s.g, s.b, s.n = s.r+q.R, s.g+q.G, s.b+q.B, s.n+1
			}
		}
		n := float64(s.n)
		out = append(out, color.RGB{R: s.r / n, G: s.g / n, B: s.b / n})
	}
	return out, true
}

func near(a, b color.RGB) bool {
	return math.Abs(a.R-b.R) < 1e-9 && math.Abs(a.G-b.G) < 1e-9 && math.Abs(a.B-b.B) < 1e-9
}

func checkColor(c *explore.Ctx, im image.Data, v []geom.Point, got color.RGB) {
	want, ok := means(im, v)
	if !ok {
		return
	}
	c.Eval(1)
	for _, w := range want {
		if near(w, got) {
			return
		}
	}
	w, h := im.Size()
	c.Fail("the shape %v on the %dx%d image got the colour %v, its pixels have the mean %v", v, w, h, got, want)
}

func checkCorners(c *explore.Ctx, w, h int, v []geom.Point, got []normgeom.NormPoint) {
	if len(v) != len(got) {
		c.Fail("a shape with %d corners was rendered with %d", len(v), len(got))
	}
	for i, p := range v {
		if math.Abs(got[i].X-float64(p.X)/float64(w)) > 1e-12 || math.Abs(got[i].Y-float64(p.Y)/float64(h)) > 1e-12 {
			c.Fail("corner %v of the shape %v on the %dx%d image is rendered at %v", p, v, w, h, got[i])
		}
	}
}

func checkTriangles(c *explore.Ctx, im image.Data, ts []geom.Triangle) {
	w, h := im.Size()
	in := append([]geom.Triangle{}, ts...)
	out := render.TrianglesOnImage(ts, im)
	if len(out) != len(in) {
		c.Fail("%d triangles gave %d entries", len(in), len(out))
	}
	hs := explore.NewH().I(w).I(h)
	for i, t := range in {
		if ts[i] != t {
			c.Fail("rendering changed triangle %v to %v", t, ts[i])
		}
		checkCorners(c, w, h, t.Points[:], out[i].Triangle.Points[:])
		checkColor(c, im, t.Points[:], out[i].Color)
		hs = hs.F(out[i].Color.R).F(out[i].Color.G).F(out[i].Color.B)
	}
	c.State(hs.Sum())
	c.Outcome(hs.Sum())
}

func checkPolygons(c *explore.Ctx, im image.Data, ps []geom.Polygon) {
	w, h := im.Size()
	in := [][]geom.Point{}
	for _, p := range ps {
		in = append(in, append([]geom.Point{}, p.Points...))
	}
	out := render.PolygonsOnImage(ps, im)
	if len(out) != len(in) {
		c.Fail("%d polygons gave %d entries", len(in), len(out))
	}
	for i := range ps {
		if fmt.Sprint(ps[i].Points) != fmt.Sprint(in[i]) {
			c.Fail("rendering changed polygon %v to %v", in[i], ps[i].Points)
		}
		for j := range ps[i].Points {
			ps[i].Points[j] = geom.Point{X: -7, Y: -9}
		}
	}
	hs := explore.NewH().I(w).I(h)
	for i, v := range in {
		checkCorners(c, w, h, v, out[i].Polygon.Points)
		if weaklyConvex(v) {
			checkColor(c, im, v, out[i].Color)
		}
		copy(ps[i].Points, v)
		hs = hs.F(out[i].Color.R).F(out[i].Color.G).F(out[i].Color.B)
	}
	c.State(hs.Sum())
	c.Outcome(hs.Sum())
}

// weaklyConvex tells whether the corners never turn both ways and wind around once, or are one or two points.
func weaklyConvex(v []geom.Point) bool {
	if len(v) < 3 {
		return true
	}
	pos, neg := false, false
	// every corner lies on one side of every border
	for i := range v {
		a, b := v[i], v[(i+1)%len(v)]
		pos, neg = false, false
		for _, p := range v {
			s := shapes.Cross(a, b, p)
			pos = pos || s > 0
			neg = neg || s < 0
		}
		if pos && neg {
			return false
		}
	}
	// and the fan does not cover anything twice
	area, fan := 0, 0
	for i := 2; i < len(v); i++ {
		s := shapes.Cross(v[0], v[i-1], v[i])
		area += s
		if s < 0 {
			s = -s
		}
		fan += s
	}
	if area < 0 {
		area = -area
	}
	return area == fan
}

func triItem(w, h int, pts []geom.Point) explore.Item {
	return explore.Item{Name: fmt.Sprintf("triangles on a %dx%d image, corners among %d points", w, h, len(pts)), Run: func(c *explore.Ctx) {
		k := c.Choose(len(imageKinds))
		t := geom.Triangle{Points: [3]geom.Point{pts[c.Choose(len(pts))], pts[c.Choose(len(pts))], pts[c.Choose(len(pts))]}}
		if c.Skipped() {
			return
		}
		c.Logf("%s, %v", imageKinds[k].name, t)
		checkTriangles(c, imageKinds[k].make(w, h), []geom.Triangle{t})
	}}
}

// listItem renders lists of shapes.
func listItem(w, h, n int, polys bool) explore.Item {
	what := "triangles"
	if polys {
		what = "polygons"
	}
	a := func(xy ...int) []geom.Point {
		v := []geom.Point{}
		for i := 0; i < len(xy); i += 2 {
			v = append(v, geom.Point{X: xy[i] * w / 4, Y: xy[i+1] * h / 4})
		}
		return v
	}
	alpha := [][]geom.Point{a(0, 0, 4, 0, 0, 4), a(4, 4, 0, 4, 4, 0), a(1, 1, 3, 2, 2, 3), a(2, 2, 2, 2, 2, 2), a(4, 4, 4, 4, 4, 4), a(0, 0, 2, 2, 4, 4), a(0, 4, 1, 4, 4, 4)}
	if polys {
		alpha = append(alpha, a(0, 0, 4, 0, 4, 4, 0, 4), a(2, 0, 4, 2, 2, 4, 0, 2), a(1, 2), a(4, 4), a(0, 3, 4, 4), a(0, 0, 2, 0, 4, 0, 4, 2, 2, 4, 0, 2))
	}
	return explore.Item{Name: fmt.Sprintf("lists of up to %d %s on a %dx%d image", n, what, w, h), Run: func(c *explore.Ctx) {
		k := c.Choose(len(imageKinds))
		m := c.Choose(n + 1)
		ids := []int{}
		for i := 0; i < m; i++ {
			ids = append(ids, c.Choose(len(alpha)))
		}
		if c.Skipped() {
			return
		}
		c.Logf("%s, %v", imageKinds[k].name, ids)
		im := imageKinds[k].make(w, h)
		if polys {
			ps := []geom.Polygon{}
			for _, i := range ids {
				ps = append(ps, geom.Polygon{Points: append([]geom.Point{}, alpha[i]...)})
			}
			checkPolygons(c, im, ps)
			return
		}
		ts := []geom.Triangle{}
		for _, i := range ids {
			ts = append(ts, geom.Triangle{Points: [3]geom.Point{alpha[i][0], alpha[i][1], alpha[i][2]}})
		}
		checkTriangles(c, im, ts)
	}}
}

// longItem renders long lists of shapes.
func longItem(w, h int, polys bool, lens []int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("lists of %v shapes on a %dx%d image", lens, w, h), Run: func(c *explore.Ctx) {
		n := lens[c.Choose(len(lens))]
		stride := []int{1, 3, 7}[c.Choose(3)]
		if c.Skipped() {
			return
		}
		c.Logf("%d shapes, stride %d", n, stride)
		im := own{w, h}
		ts := []geom.Triangle{}
		ps := []geom.Polygon{}
		for i := 0; i < n; i++ {
			k := i*stride + i/5
			t := geom.Triangle{Points: [3]geom.Point{{X: k % (w + 1), Y: (k / 3) % (h + 1)}, {X: (k*5 + 2) % (w + 1), Y: (k*7 + 1) % (h + 1)}, {X: (k*3 + 4) % (w + 1), Y: (k * 11) % (h + 1)}}}
			ts = append(ts, t)
			ps = append(ps, geom.Polygon{Points: append([]geom.Point{}, t.Points[:]...)})
		}
		if polys {
			checkPolygons(c, im, ps)
		} else {
			checkTriangles(c, im, ts)
		}
	}}
}

// plain is a large image of one colour.
type plain struct {
	w, h int
	rgb  color.RGB
}

func (p plain) Size() (int, int) { return p.w, p.h }
func (p plain) RGBAt(x, y int) color.RGB {
	if x < 0 || y < 0 || x >= p.w || y >= p.h {
		panic(fmt.Sprintf("pixel (%d,%d) lies outside the image", x, y))
	}
	return p.rgb
}

// hugeItem renders shapes of many millions of pixels of one colour.
func hugeItem(polys bool) explore.Item {
	return explore.Item{Name: "shapes of many millions of pixels", Run: func(c *explore.Ctx) {
		im := []plain{{8191, 4200, color.RGB{R: 1, G: 0, B: 0.5}}, {4300, 8191, color.RGB{R: 200. / 255, G: 1, B: 7. / 255}}, {1500, 1400, color.RGB{R: 1, G: 77. / 255, B: 3. / 255}}}[c.Choose(3)]
		if c.Skipped() {
			return
		}
		var got color.RGB
		if polys {
			got = render.PolygonsOnImage([]geom.Polygon{{Points: []geom.Point{{X: 0, Y: 0}, {X: im.w, Y: 0}, {X: im.w, Y: im.h}, {X: 0, Y: im.h}}}}, im)[0].Color
		} else {
			got = render.TrianglesOnImage([]geom.Triangle{geom.NewTriangle(0, 0, im.w, 0, im.w, im.h)}, im)[0].Color
		}
		c.Eval(1)
		c.State(explore.NewH().I(im.w).Sum())
		c.Outcome(explore.NewH().F(got.R).Sum())
		if math.Abs(got.R-im.rgb.R) > 1e-7 || math.Abs(got.G-im.rgb.G) > 1e-7 || math.Abs(got.B-im.rgb.B) > 1e-7 {
			c.Fail("a shape on a %dx%d image of the colour %v got the colour %v", im.w, im.h, im.rgb, got)
		}
	}}
}

// pipelineItem renders what the triangulation and polygonation of a group give.
func pipelineItem(p pcfg, polys bool) explore.Item {
	return explore.Item{Name: "groups rendered, " + p.name, Run: func(c *explore.Ctx) {
		g := p.choose(c)
		if c.Skipped() || len(rounded(g, p.w, p.h)) < 3 && !polys {
			return
		}
		c.Logf("%v", g)
		im := own{p.w, p.h}
		if polys {
			checkPolygons(c, im, polygonation.Polygonate(g, p.w, p.h))
			return
		}
		checkTriangles(c, im, triangulation.Triangulate(g, p.w, p.h))
	}}
}

func polyItem(w, h int, pts []geom.Point, k int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("convex polygons with %d corners on a %dx%d image, corners among %d points", k, w, h, len(pts)), Run: func(c *explore.Ctx) {
		kind := c.Choose(len(imageKinds))
		p, ok := shapes.Convex(c, pts, k)
		if !ok || c.Skipped() {
			return
		}
		c.Logf("%s, %v", imageKinds[kind].name, p)
		checkPolygons(c, imageKinds[kind].make(w, h), []geom.Polygon{p})
	}}
}

// gonItem renders polygons with many corners around a circle, any of them first, in both directions.
func gonItem(w, h, from, to int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("polygons with %d to %d corners on a %dx%d image", from, to, w, h), Run: func(c *explore.Ctx) {
		k := from + c.Choose(to-from+1)
		phase := c.Choose(3)
		first := c.Choose(k)
		back := c.Choose(2) == 1
		if c.Skipped() {
			return
		}
		v := []geom.Point{}
		for i := 0; i < k; i++ {
			a := (float64(i) + float64(phase)/3) * 2 * math.Pi / float64(k)
			q := geom.Point{X: int(math.Round(float64(w) / 2 * (1 + math.Cos(a)))), Y: int(math.Round(float64(h) / 2 * (1 + math.Sin(a))))}
			if n := len(v); n == 0 || v[n-1] != q && v[0] != q {
				v = append(v, q)
			}
		}
		r := []geom.Point{}
		for i := range v {
			j := (i + first) % len(v)
			if back {
				j = (2*len(v) - i - first) % len(v)
			}
			r = append(r, v[j])
		}
		c.Logf("%v", r)
		checkPolygons(c, own{w, h}, []geom.Polygon{{Points: r}})
	}}
}

// vectorGonItem renders convex polygons with many corners, whose sides are all the shortest vectors in their
// directions up to a size, in order.
func vectorGonItem(most []int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("convex polygons of every direction with coordinates up to %v", most), Run: func(c *explore.Ctx) {
		m := most[c.Choose(len(most))]
		start := c.Choose(7)
		back := c.Choose(2) == 1
		if c.Skipped() {
			return
		}
		gcd := func(a, b int) int {
			for b != 0 {
				a, b = b, a%b
			}
			if a < 0 {
				return -a
			}
			return a
		}
		dirs := []geom.Point{}
		for y := -m; y <= m; y++ {
			for x := -m; x <= m; x++ {
				if gcd(x, y) == 1 {
					dirs = append(dirs, geom.Point{X: x, Y: y})
				}
			}
		}
		sort.Slice(dirs, func(i, j int) bool {
			return math.Atan2(float64(dirs[i].Y), float64(dirs[i].X)) < math.Atan2(float64(dirs[j].Y), float64(dirs[j].X))
		})
		v := []geom.Point{}
		at, lo, hi := geom.Point{}, geom.Point{}, geom.Point{}
		for _, d := range dirs {
			at = geom.Point{X: at.X + d.X, Y: at.Y + d.Y}
			v = append(v, at)
			lo = geom.Point{X: min(lo.X, at.X), Y: min(lo.Y, at.Y)}
			hi = geom.Point{X: max(hi.X, at.X), Y: max(hi.Y, at.Y)}
		}
		n := len(v)
		first := start * n / 7
		r := []geom.Point{}
		for i := range v {
			j := (i + first) % n
			if back {
				j = (2*n - i - first) % n
			}
			r = append(r, geom.Point{X: v[j].X - lo.X, Y: v[j].Y - lo.Y})
		}
		c.Logf("%d corners", n)
		checkPolygons(c, own{hi.X - lo.X, hi.Y - lo.Y}, []geom.Polygon{{Points: r}})
	}}
}

// flatItem renders polygons without area, and polygons with one or two corners.
func flatItem(w, h, k int) explore.Item {
	pts := shapes.Lattice(shapes.Upto(w), shapes.Upto(h))
	return explore.Item{Name: fmt.Sprintf("all polygons with %d corners on a %dx%d image", k, w, h), Run: func(c *explore.Ctx) {
		kind := c.Choose(len(imageKinds))
		v := []geom.Point{}
		for i := 0; i < k; i++ {
			v = append(v, pts[c.Choose(len(pts))])
		}
		if c.Skipped() {
			return
		}
		c.Logf("%s, %v", imageKinds[kind].name, v)
		checkPolygons(c, imageKinds[kind].make(w, h), []geom.Polygon{{Points: v}})
	}}
}

func renderConfigs(tier string) []pcfg {
	out := []pcfg{}
	for _, p := range configs(tier) {
		if p.w*p.h <= 20000 {
			out = append(out, p)
		}
	}
	return out
}

func init() {
	lat := func(w, h int) []geom.Point { return shapes.Lattice(shapes.Upto(w), shapes.Upto(h)) }
	explore.Register(&explore.Check{
		ID:     "C18",
		Bounds: "every ordered triple of corners of each lattice on two types of images; every list of up to three of the listed triangles; every group over the position alphabets",
		Items: func(tier string) []explore.Item {
			n := 3
			items := []explore.Item{triItem(1, 1, lat(1, 1)), triItem(1, 4, lat(1, 4)), triItem(5, 1, lat(5, 1)), triItem(2, 3, lat(2, 3)), triItem(4, 4, lat(4, 4)),
				triItem(33, 22, shapes.Lattice([]int{0, 1, 9, 17, 32, 33}, []int{0, 5, 6, 13, 22}))}
			if tier == "thorough" {
				n = 4
				items = append(items, triItem(6, 6, lat(6, 6)), triItem(5, 8, lat(5, 8)), triItem(320, 200, shapes.Lattice([]int{0, 1, 77, 160, 319, 320}, []int{0, 50, 111, 199, 200})))
			}
			lens := []int{63, 64, 65, 255, 256, 257, 1000, 4099}
			if tier == "thorough" {
				lens = append(lens, 31, 32, 33, 127, 129, 513, 9000, 65537)
			}
			items = append(items, hugeItem(false), longItem(23, 17, false, lens), triItem(640, 410, shapes.Lattice([]int{0, 320, 640}, []int{0, 410})))
			items = append(items, listItem(8, 8, n, false), listItem(1, 1, n, false), listItem(7, 13, n, false))
			for _, p := range renderConfigs(tier) {
				items = append(items, pipelineItem(p, false))
			}
			return items
		},
	})
	explore.Register(&explore.Check{
		ID:     "C19",
		Bounds: "every convex polygon with three to six corners of each lattice, any first corner and direction, on two types of images; every polygon with up to three corners, flat ones included; every list of up to three of the listed polygons; every group over the position alphabets",
		Items: func(tier string) []explore.Item {
			n := 3
			items := []explore.Item{}
			sizes := [][2]int{{1, 1}, {2, 2}, {3, 3}}
			if tier == "thorough" {
				sizes = append(sizes, [2]int{4, 3}, [2]int{4, 4})
			}
			for _, s := range sizes {
				for k := 3; k <= 6; k++ {
					items = append(items, polyItem(s[0], s[1], lat(s[0], s[1]), k))
				}
			}
			items = append(items, gonItem(61, 47, 4, 24), gonItem(400, 300, 5, 17), gonItem(17, 23, 4, 14))
			items = append(items, vectorGonItem([]int{3, 5, 8, 11}))
			if tier == "thorough" {
				items = append(items, gonItem(900, 700, 4, 60), gonItem(127, 131, 4, 60), vectorGonItem([]int{4, 6, 14, 20, 30}))
			}
			coarse := shapes.Lattice([]int{0, 3, 8, 20}, []int{0, 2, 11, 17})
			for k := 3; k <= 5; k++ {
				items = append(items, polyItem(20, 17, coarse, k))
			}
			for k := 1; k <= 3; k++ {
				items = append(items, flatItem(3, 2, k), flatItem(1, 3, k))
			}
			if tier == "thorough" {
				items = append(items, flatItem(3, 2, 4), flatItem(2, 2, 5))
				n = 4
			}
			lens := []int{63, 64, 65, 255, 256, 257, 1000, 4099}
			if tier == "thorough" {
				lens = append(lens, 31, 32, 33, 127, 129, 513, 9000, 65537)
			}
			items = append(items, hugeItem(true), longItem(23, 17, true, lens))
			items = append(items, listItem(8, 8, n, true), listItem(1, 1, n, true), listItem(7, 13, n, true))
			for _, p := range renderConfigs(tier) {
				items = append(items, pipelineItem(p, true))
			}
			return items
		},
	})
}
