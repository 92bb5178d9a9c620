package rast

import (
	"fmt"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/rasterize"
	"verifmc/explore"
	"verifmc/oracle"
)

type blocked struct {
	got         map[px]int
	bad         string
	blocks, lns int
}

func (b *blocked) add(x, y int) {
	p := px{x, y}
	b.got[p]++
	if b.got[p] > 1 && b.bad == "" {
		b.bad = fmt.Sprintf("pixel %v is reported twice", p)
	}
}

func (b *blocked) line(x0, x1, y int) {
	b.lns++
	if x1 < x0 && b.bad == "" {
		b.bad = fmt.Sprintf("the line of row %d runs from %d to %d", y, x0, x1)
	}
	for x := x0; x < x1; x++ {
		b.add(x, y)
	}
}

func (b *blocked) block(size int) func(x, y int) {
	return func(x, y int) {
		b.blocks++
		for i := 0; i < size; i++ {
			for j := 0; j < size; j++ {
				b.add(x+i, y+j)
			}
		}
	}
}

// tie tells whether a border of one of the triangles passes exactly between two pixels of the row, one of which is p,
// at a place that floating point numbers may round to either of them.
func tie(p px, tris []geom.Triangle) bool {
	for _, t := range tris {
		r, ok := oracle.ConvexRows(t.Points[:])[p.y]
		if ok && (r.Lox && p.x == r.Lo-1 || r.Hix && p.x == r.Hi-1) {
			return true
		}
	}
	return false
}

// fan splits a convex polygon into triangles.
func fan(p geom.Polygon) (out []geom.Triangle) {
	for i := 2; i < len(p.Points); i++ {
		out = append(out, geom.Triangle{Points: [3]geom.Point{p.Points[i], p.Points[i-1], p.Points[0]}})
	}
	return
}

func (b *blocked) compare(c *explore.Ctx, want map[px]int, tris []geom.Triangle, what interface{}, size int) {
	c.Eval(1)
	if b.bad != "" {
		c.Fail("%v with blocks of %d: %s", what, size, b.bad)
	}
	for p := range want {
		if b.got[p] == 0 && !tie(p, tris) {
			c.Fail("%v with blocks of %d: pixel %v is missing", what, size, p)
		}
	}
	for p := range b.got {
		if want[p] == 0 && !tie(p, tris) {
			c.Fail("%v with blocks of %d: pixel %v is extra", what, size, p)
		}
	}
	c.State(explore.NewH().U(hashPx(want)).I(b.blocks).I(b.lns).I(size).Sum())
	c.Outcome(explore.NewH().I(b.blocks).I(b.lns).I(size).Sum())
}

func blockTriangles(name string, pts []geom.Point, sizes []int) explore.Item {
	return explore.Item{Name: "blocks of triangles " + name, Run: func(c *explore.Ctx) {
		a, b, d := pts[c.Choose(len(pts))], pts[c.Choose(len(pts))], pts[c.Choose(len(pts))]
		if c.Skipped() {
			return
		}
		t := geom.Triangle{Points: [3]geom.Point{a, b, d}}
		want, _ := collect(func(f func(x, y int)) { rasterize.DDATriangle(t, f) })
		for _, s := range sizes {
			c.Logf("%v blocks %d", t, s)
			r := blocked{got: make(map[px]int, len(want))}
			rasterize.DDATriangleBlocks(t, s, r.line, r.block(s))
			r.compare(c, want, []geom.Triangle{t}, t, s)
		}
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C17",
		Bounds: "every ordered triple of points of each lattice with every listed block size; every convex polygon with 3 to 5 lattice corners",
		Items: func(tier string) []explore.Item {
			deep := tier == "thorough"
			all := []int{}
			for i := 1; i <= 20; i++ {
				all = append(all, i)
			}
			poly := func(sizes []int) func(c *explore.Ctx, p geom.Polygon) {
				return func(c *explore.Ctx, p geom.Polygon) {
					want, _ := collect(func(f func(x, y int)) { rasterize.DDAPolygon(p, f) })
					for _, s := range sizes {
						r := blocked{got: make(map[px]int, len(want))}
						rasterize.DDAPolygonBlocks(p, s, r.line, r.block(s))
						r.compare(c, want, fan(p), p, s)
					}
				}
			}
			items := []explore.Item{
				blockTriangles("on the 6x6 lattice", lattice(upto(5), upto(5)), []int{1, 2, 3}),
				blockTriangles("on a spread lattice", lattice([]int{0, 3, 7, 12, 20}, []int{0, 2, 9, 13, 21}), []int{1, 2, 3, 4, 5, 7}),
				blockTriangles("on a wide lattice", lattice([]int{0, 1, 30, 45, 60}, []int{0, 11, 25, 58}), all),
				polygons("on a coarse lattice", lattice([]int{0, 9, 20, 31}, []int{0, 6, 17, 30}), 4, poly([]int{1, 2, 3, 5, 8})),
			}
			if deep {
				items = append(items,
					blockTriangles("on the 8x8 lattice", lattice(upto(7), upto(7)), []int{1, 2, 3, 4}),
					blockTriangles("on a spread 7x7 lattice", lattice([]int{0, 1, 4, 9, 15, 22, 30}, []int{0, 2, 5, 11, 16, 23, 29}), []int{1, 2, 3, 4, 5, 6, 7, 8}),
					blockTriangles("on a large lattice", lattice([]int{0, 50, 99, 150}, []int{0, 31, 77, 120}), all),
					polygons("on a coarse lattice", lattice([]int{0, 9, 20, 31}, []int{0, 6, 17, 30}), 5, poly([]int{1, 2, 3, 5, 8})),
				)
			}
			return items
		},
	})
}
