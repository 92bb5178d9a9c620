// Package oracle holds the reference models the real code is compared with. They are
// written independently of the code under test, in exact integer arithmetic where possible.
package oracle

import "sort"

type Pt struct{ X, Y int64 }

type Tri [3]Pt

// Cross is twice the signed area of abc.
func Cross(a, b, c Pt) int64 {
	return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
}

func abs64(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

// InCircle is positive when d is strictly inside the circle through abc, 0 when it is on it.
// Exact for coordinates whose differences stay below 2^14.
func InCircle(a, b, c, d Pt) int64 {
	o := Cross(a, b, c)
	if o == 0 {
		return 0
	}
	ax, ay := a.X-d.X, a.Y-d.Y
	bx, by := b.X-d.X, b.Y-d.Y
	cx, cy := c.X-d.X, c.Y-d.Y
	det := (ax*ax+ay*ay)*(bx*cy-cx*by) - (bx*bx+by*by)*(ax*cy-cx*ay) + (cx*cx+cy*cy)*(ax*by-bx*ay)
	if o < 0 {
		det = -det
	}
	return det
}

// Super is the bounding triangle of an image: far corners at twice the larger side.
func Super(w, h int) [3]Pt {
	hw, hh := int64((w+1)/2), int64((h+1)/2)
	m := int64(w)
	if h > w {
		m = int64(h)
	}
	if m < 2 {
		m = 2
	}
	return [3]Pt{{hw - 2*m, hh - m}, {hw, hh + 2*m}, {hw + 2*m, hh - m}}
}

// HullArea2 is twice the area of the convex hull of pts.
func HullArea2(pts []Pt) int64 {
	p := append([]Pt{}, pts...)
	sort.Slice(p, func(i, j int) bool { return p[i].X < p[j].X || p[i].X == p[j].X && p[i].Y < p[j].Y })
	if len(p) < 3 {
		return 0
	}
	build := func(p []Pt) []Pt {
		st := []Pt{}
		for _, q := range p {
			for len(st) >= 2 && Cross(st[len(st)-2], st[len(st)-1], q) <= 0 {
				st = st[:len(st)-1]
			}
			st = append(st, q)
		}
		return st
	}
	lo := build(p)
	rev := make([]Pt, len(p))
	for i := range p {
		rev[i] = p[len(p)-1-i]
	}
	hi := build(rev)
	hull := append(lo[:len(lo)-1:len(lo)-1], hi[:len(hi)-1]...)
	var a int64
	for i := range hull {
		j := (i + 1) % len(hull)
		a += hull[i].X*hull[j].Y - hull[j].X*hull[i].Y
	}
	return abs64(a)
}

// Cells holds the Delaunay subdivision of a point set together with the bounding triangle.
type Cells struct {
	All      []Pt
	NP       int      // the first NP points are real, the others bound the image
	Masks    []uint64 // one per cell: the points on its circle
	Min2     int64    // twice the area that every Delaunay triangulation reports
	Max2     int64    // twice the area that some Delaunay triangulation may report
	Generic  bool     // no four cocircular neighbours: the triangulation is unique
	PureTris []Tri    // when Generic: the triangles
}

// Delaunay computes the subdivision by brute force. At most 60 points.
func Delaunay(p []Pt, w, h int) *Cells {
	s := Super(w, h)
	return delaunay(p, s[:])
}

// DelaunayPlain is the subdivision of the points alone.
func DelaunayPlain(p []Pt) *Cells { return delaunay(p, nil) }

func delaunay(p []Pt, super []Pt) *Cells {
	c := &Cells{NP: len(p), Generic: true}
	c.All = append(append([]Pt{}, p...), super...)
	n := len(c.All)
	seen := map[uint64]bool{}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				a, b, d := c.All[i], c.All[j], c.All[k]
				if Cross(a, b, d) == 0 {
					continue
				}
				m := uint64(1)<<i | 1<<j | 1<<k
				ok := true
				for l := 0; l < n; l++ {
					if l == i || l == j || l == k {
						continue
					}
					v := InCircle(a, b, d, c.All[l])
					if v > 0 {
						ok = false
						break
					}
					if v == 0 {
						m |= 1 << l
					}
				}
				if !ok || seen[m] {
					continue
				}
				seen[m] = true
				c.Masks = append(c.Masks, m)
				all, real := []Pt{}, []Pt{}
				pure := true
				for l := 0; l < n; l++ {
					if m>>l&1 == 1 {
						all = append(all, c.All[l])
						if l < c.NP {
							real = append(real, c.All[l])
						} else {
							pure = false
						}
					}
				}
				if len(all) > 3 && len(real) >= 3 {
					c.Generic = false
				}
				a2 := HullArea2(real)
				c.Max2 += a2
				if pure {
					c.Min2 += a2
					if len(all) == 3 {
						c.PureTris = append(c.PureTris, Tri{a, b, d})
					}
				}
			}
		}
	}
	return c
}

// TrisOverlap tells whether the interiors of two triangles meet (exact).
func TrisOverlap(a, b Tri) bool {
	if Cross(a[0], a[1], a[2]) == 0 || Cross(b[0], b[1], b[2]) == 0 {
		return false
	}
	if Cross(a[0], a[1], a[2]) < 0 {
		a[1], a[2] = a[2], a[1]
	}
	if Cross(b[0], b[1], b[2]) < 0 {
		b[1], b[2] = b[2], b[1]
	}
	sep := func(p, q Tri) bool {
		for i := 0; i < 3; i++ {
			u, v := p[i], p[(i+1)%3]
			if Cross(u, v, q[0]) <= 0 && Cross(u, v, q[1]) <= 0 && Cross(u, v, q[2]) <= 0 {
				return true
			}
		}
		return false
	}
	return !sep(a, b) && !sep(b, a)
}

// Check compares reported triangles with the subdivision; it returns "" or what is wrong.
func (c *Cells) Check(tris []Tri) string {
	return c.check(tris, true)
}

func (c *Cells) check(tris []Tri, cover bool) string {
	real := map[Pt]bool{}
	for _, p := range c.All[:c.NP] {
		real[p] = true
	}
	var area int64
	for _, t := range tris {
		for _, v := range t {
			if !real[v] {
				return sprintf("triangle %v has a vertex that is not one of the points", t)
			}
		}
		x := Cross(t[0], t[1], t[2])
		if x == 0 {
			return sprintf("triangle %v is degenerate", t)
		}
		area += abs64(x)
		for _, p := range c.All {
			if InCircle(t[0], t[1], t[2], p) > 0 {
				return sprintf("point %v lies inside the circumcircle of triangle %v", p, t)
			}
		}
	}
	for i := range tris {
		for j := i + 1; j < len(tris); j++ {
			if TrisOverlap(tris[i], tris[j]) {
				return sprintf("triangles %v and %v overlap", tris[i], tris[j])
			}
		}
	}
	if cover && (area < c.Min2 || area > c.Max2) {
		return sprintf("the triangles cover twice-area %d, the Delaunay triangulation covers %d..%d", area, c.Min2, c.Max2)
	}
	return ""
}
