package rast

import (
	"fmt"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/rasterize"
	"verifmc/explore"
	"verifmc/oracle"
	"verifmc/shapes"
)

type px struct{ x, y int }

// collect runs f and returns the pixels it reports; dup is a pixel reported twice.
func collect(f func(pixel func(x, y int))) (m map[px]int, dup *px) {
	m = map[px]int{}
	f(func(x, y int) {
		p := px{x, y}
		m[p]++
		if m[p] > 1 && dup == nil {
			dup = &p
		}
	})
	return
}

// compareRows checks a pixel set against reference rows.
func compareRows(m map[px]int, rows map[int]oracle.Row) string {
	got := map[int][2]int{}
	cnt := map[int]int{}
	for p := range m {
		g, ok := got[p.y]
		if !ok {
			g = [2]int{p.x, p.x}
		}
		if p.x < g[0] {
			g[0] = p.x
		}
		if p.x > g[1] {
			g[1] = p.x
		}
		got[p.y] = g
		cnt[p.y]++
	}
	for y, g := range got {
		r, ok := rows[y]
		if !ok {
			return fmt.Sprintf("row %d is drawn, it is outside", y)
		}
		if cnt[y] != g[1]-g[0]+1 {
			return fmt.Sprintf("row %d has gaps", y)
		}
		lo, hi := g[0], g[1]+1
		if !(lo == r.Lo || r.Lox && lo == r.Lo-1) || !(hi == r.Hi || r.Hix && hi == r.Hi-1) {
			return fmt.Sprintf("row %d covers [%d,%d), it should cover [%d,%d)", y, lo, hi, r.Lo, r.Hi)
		}
	}
	for y, r := range rows {
		if cnt[y] == 0 && r.Lo < r.Hi && !(r.Hix && r.Hi-1 == r.Lo) {
			return fmt.Sprintf("row %d is not drawn, it should cover [%d,%d)", y, r.Lo, r.Hi)
		}
	}
	return ""
}

func lattice(xs, ys []int) []geom.Point {
	out := []geom.Point{}
	for _, y := range ys {
		for _, x := range xs {
			out = append(out, geom.Point{X: x, Y: y})
		}
	}
	return out
}

func upto(n int) []int {
	r := []int{}
	for i := 0; i <= n; i++ {
		r = append(r, i)
	}
	return r
}

func hashPx(m map[px]int) uint64 {
	var s uint64
	for p, n := range m {
		s += explore.NewH().I(p.x).I(p.y).I(n).Sum()
	}
	return s
}

// triangles explores every ordered triple of lattice points.
func triangles(name string, pts []geom.Point) explore.Item {
	return explore.Item{Name: "triangles " + name, Run: func(c *explore.Ctx) {
		a, b, d := pts[c.Choose(len(pts))], pts[c.Choose(len(pts))], pts[c.Choose(len(pts))]
		if c.Skipped() {
			return
		}
		t := geom.Triangle{Points: [3]geom.Point{a, b, d}}
		c.Logf("%v", t)
		m, dup := collect(func(f func(x, y int)) { rasterize.DDATriangle(t, f) })
		c.Eval(1)
		if dup != nil {
			c.Fail("triangle %v claims pixel %v twice", t, *dup)
		}
		if msg := compareRows(m, oracle.ConvexRows(t.Points[:])); msg != "" {
			c.Fail("triangle %v: %s", t, msg)
		}
		n := 0
		rasterize.DDATriangleLines(t, func(x0, x1, y int) {
			if x1 < x0 {
				c.Fail("triangle %v: the line of row %d runs from %d to %d", t, y, x0, x1)
			}
			for x := x0; x < x1; x++ {
				if m[px{x, y}] == 0 {
					c.Fail("triangle %v: the lines cover (%d,%d), the pixels do not", t, x, y)
				}
				n++
			}
		})
		if n != len(m) {
			c.Fail("triangle %v: %d pixels as lines, %d as pixels", t, n, len(m))
		}
		h := hashPx(m)
		c.State(h)
		c.Outcome(h)
	}}
}

func cross(a, b, c geom.Point) int { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }

// longLines explores every ordered triple of a large lattice, row by row.
func longLines(name string, pts []geom.Point) explore.Item {
	return explore.Item{Name: "rows of triangles " + name, Run: func(c *explore.Ctx) {
		a, b, d := pts[c.Choose(len(pts))], pts[c.Choose(len(pts))], pts[c.Choose(len(pts))]
		if c.Skipped() {
			return
		}
		t := geom.Triangle{Points: [3]geom.Point{a, b, d}}
		c.Logf("%v", t)
		rows := oracle.ConvexRows(t.Points[:])
		seen := map[int]bool{}
		c.Eval(1)
		h := explore.NewH()
		rasterize.DDATriangleLines(t, func(x0, x1, y int) {
			if seen[y] {
				c.Fail("triangle %v: row %d is drawn twice", t, y)
			}
			seen[y] = true
			r, ok := rows[y]
			if !ok && x1 > x0 {
				c.Fail("triangle %v: row %d is drawn, it is outside", t, y)
			}
			if !(x0 == r.Lo || r.Lox && x0 == r.Lo-1) || !(x1 == r.Hi || r.Hix && x1 == r.Hi-1) {
				c.Fail("triangle %v: row %d covers [%d,%d), it should cover [%d,%d)", t, y, x0, x1, r.Lo, r.Hi)
			}
			h = h.I(x0).I(x1).I(y)
		})
		for y, r := range rows {
			if !seen[y] && r.Lo < r.Hi {
				c.Fail("triangle %v: row %d is not drawn", t, y)
			}
		}
		c.State(h.Sum())
		c.Outcome(h.Sum())
	}}
}

// pairs explores every pair of triangles on the two sides of an edge.
func pairs(name string, pts []geom.Point) explore.Item {
	return explore.Item{Name: "neighbours " + name, Run: func(c *explore.Ctx) {
		i := c.Choose(len(pts))
		j := c.Choose(len(pts))
		if i >= j {
			return
		}
		a, b := pts[i], pts[j]
		d := pts[c.Choose(len(pts))]
		e := pts[c.Choose(len(pts))]
		if c.Skipped() || cross(a, b, d) <= 0 || cross(a, b, e) >= 0 {
			return
		}
		m1, _ := collect(func(f func(x, y int)) { rasterize.DDATriangle(geom.Triangle{Points: [3]geom.Point{a, b, d}}, f) })
		m2, _ := collect(func(f func(x, y int)) { rasterize.DDATriangle(geom.Triangle{Points: [3]geom.Point{e, b, a}}, f) })
		c.Eval(1)
		c.Logf("edge %v-%v, %v and %v", a, b, d, e)
		for p := range m1 {
			if m2[p] > 0 {
				c.Fail("pixel %v belongs to both triangles %v and %v", p, []geom.Point{a, b, d}, []geom.Point{e, b, a})
			}
			m2[p]++
		}
		// when the union is convex it has no gaps along the edge
		q := []geom.Point{a, e, b, d}
		if cross(d, a, e) > 0 && cross(e, b, d) > 0 {
			if msg := compareRows(m2, oracle.ConvexRows(q)); msg != "" {
				c.Fail("triangles %v and %v: %s", []geom.Point{a, b, d}, []geom.Point{e, b, a}, msg)
			}
		}
		h := hashPx(m2)
		c.State(h)
		c.Outcome(h)
	}}
}

// polygons explores every strictly convex polygon with lattice corners, from every start
// and in both directions.
func polygons(name string, pts []geom.Point, k int, check func(c *explore.Ctx, poly geom.Polygon)) explore.Item {
	return explore.Item{Name: fmt.Sprintf("convex polygons with %d corners %s", k, name), Run: func(c *explore.Ctx) {
		poly, ok := shapes.Convex(c, pts, k)
		if !ok || c.Skipped() {
			return
		}
		c.Logf("%v", poly.Points)
		check(c, poly)
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C16",
		Bounds: "every ordered triple of points of each lattice; every pair of triangles on the two sides of every lattice edge; every convex polygon with 3 to 6 lattice corners, every start and direction",
		Items: func(tier string) []explore.Item {
			l, pl := 6, 3
			if tier == "thorough" {
				l, pl = 8, 4
			}
			poly := func(c *explore.Ctx, p geom.Polygon) {
				m, dup := collect(func(f func(x, y int)) { rasterize.DDAPolygon(p, f) })
				c.Eval(1)
				if dup != nil {
					c.Fail("polygon %v claims pixel %v twice", p, *dup)
				}
				if msg := compareRows(m, oracle.ConvexRows(p.Points)); msg != "" {
					c.Fail("polygon %v: %s", p, msg)
				}
				h := hashPx(m)
				c.State(h)
				c.Outcome(h)
			}
			items := []explore.Item{
				triangles(fmt.Sprintf("of the %dx%d lattice", l+1, l+1), lattice(upto(l), upto(l))),
				triangles("of a coarse lattice", lattice([]int{0, 1, 7, 10, 33, 64}, []int{0, 1, 5, 13, 22, 49})),
				longLines("of a large lattice", lattice([]int{0, 3, 1000, 1733, 2999}, []int{0, 7, 999, 2000})),
				pairs("of the 4x4 lattice", lattice(upto(3), upto(3))),
				pairs("of a coarse lattice", lattice([]int{0, 1, 7, 10, 23}, []int{0, 5, 13, 22})),
			}
			for k := 3; k <= 6; k++ {
				items = append(items, polygons(fmt.Sprintf("on the %dx%d lattice", pl+1, pl+1), lattice(upto(pl), upto(pl)), k, poly))
				if k < 6 {
					items = append(items, polygons("on a coarse lattice", lattice([]int{0, 3, 8, 20}, []int{0, 2, 11, 17}), k, poly))
				}
			}
			if tier == "thorough" {
				items = append(items, triangles("of a long lattice", lattice([]int{0, 1, 2, 17, 40, 91, 150}, []int{0, 1, 2, 3, 29, 60, 97})))
			}
			return items
		},
	})
}
