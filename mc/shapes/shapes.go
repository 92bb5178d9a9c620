// Package shapes enumerates shapes.
package shapes

import (
	"sort"

	"github.com/RH12503/Triangula/geom"
	"verifmc/explore"
)

// Lattice returns all points with the given coordinates.
func Lattice(xs, ys []int) []geom.Point {
	out := []geom.Point{}
	for _, y := range ys {
		for _, x := range xs {
			out = append(out, geom.Point{X: x, Y: y})
		}
	}
	return out
}

// Upto returns 0..n.
func Upto(n int) []int {
	r := []int{}
	for i := 0; i <= n; i++ {
		r = append(r, i)
	}
	return r
}

// Cross is twice the signed area of abc.
func Cross(a, b, c geom.Point) int { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }

// Convex chooses a strictly convex polygon with k corners among pts, any first corner and direction; ok is
// false when the choices give none.
func Convex(c *explore.Ctx, pts []geom.Point, k int) (poly geom.Polygon, ok bool) {
	ids := []int{}
	for n := 0; n < k; n++ {
		lo := 0
		if n > 0 {
			lo = ids[n-1] + 1
		}
		if len(pts)-lo < k-n {
			return
		}
		ids = append(ids, lo+c.Choose(len(pts)-lo-(k-n-1)))
	}
	v := []geom.Point{}
	var sx, sy int
	for _, i := range ids {
		v = append(v, pts[i])
		sx += pts[i].X
		sy += pts[i].Y
	}
	// order around the centre
	ctr := geom.Point{X: sx, Y: sy}
	half := func(p geom.Point) int {
		if p.Y*k > ctr.Y || p.Y*k == ctr.Y && p.X*k > ctr.X {
			return 0
		}
		return 1
	}
	sort.SliceStable(v, func(i, j int) bool {
		a, b := v[i], v[j]
		if half(a) != half(b) {
			return half(a) < half(b)
		}
		return (a.X*k-ctr.X)*(b.Y*k-ctr.Y)-(a.Y*k-ctr.Y)*(b.X*k-ctr.X) > 0
	})
	for i := range v {
		if Cross(v[i], v[(i+1)%k], v[(i+2)%k]) <= 0 {
			return
		}
	}
	s := c.Choose(k)
	if c.Choose(2) == 1 {
		for i, j := 0, k-1; i < j; i, j = i+1, j-1 {
			v[i], v[j] = v[j], v[i]
		}
	}
	return geom.Polygon{Points: append(append([]geom.Point{}, v[s:]...), v[:s]...)}, true
}
