package oracle

import "math"

type FPt struct{ X, Y float64 }

// VoronoiCell clips the rectangle [0,w]x[0,h] to the points at least as near to p as to any of ps.
func VoronoiCell(p Pt, ps []Pt, w, h float64) []FPt {
	poly := []FPt{{0, 0}, {w, 0}, {w, h}, {0, h}}
	for _, q := range ps {
		if q == p {
			continue
		}
		// keep x with (q-p).x <= (|q|^2-|p|^2)/2
		nx, ny := float64(q.X-p.X), float64(q.Y-p.Y)
		d := float64(q.X*q.X+q.Y*q.Y-p.X*p.X-p.Y*p.Y) / 2
		out := []FPt{}
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			da, db := nx*a.X+ny*a.Y-d, nx*b.X+ny*b.Y-d
			if da <= 0 {
				out = append(out, a)
			}
			if (da < 0 && db > 0) || (da > 0 && db < 0) {
				t := da / (da - db)
				out = append(out, FPt{a.X + t*(b.X-a.X), a.Y + t*(b.Y-a.Y)})
			}
		}
		poly = out
		if len(poly) == 0 {
			break
		}
	}
	return poly
}

// Area2 is twice the signed area of a polygon.
func Area2(p []FPt) float64 {
	var a float64
	for i := range p {
		q := p[(i+1)%len(p)]
		a += p[i].X*q.Y - q.X*p[i].Y
	}
	return a
}

// Dist is the distance from x to the polygon (0 inside); the polygon must be convex.
func Dist(x FPt, p []FPt) float64 {
	if len(p) == 0 {
		return math.Inf(1)
	}
	best := math.Inf(1)
	pos, neg := false, false
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		dx, dy := b.X-a.X, b.Y-a.Y
		l := dx*dx + dy*dy
		t := 0.0
		if l > 0 {
			t = ((x.X-a.X)*dx + (x.Y-a.Y)*dy) / l
			t = math.Max(0, math.Min(1, t))
		}
		best = math.Min(best, math.Hypot(x.X-a.X-t*dx, x.Y-a.Y-t*dy))
		cr := dx*(x.Y-a.Y) - dy*(x.X-a.X)
		if cr > 0 {
			pos = true
		}
		if cr < 0 {
			neg = true
		}
	}
	if !(pos && neg) && len(p) >= 3 && math.Abs(Area2(p)) > 0 {
		return 0
	}
	return best
}

// SamePolygon compares a reported polygon with a convex reference within tol; "" when they agree.
func SamePolygon(got, want []FPt, tol float64) string {
	var per float64
	for i := range want {
		q := want[(i+1)%len(want)]
		per += math.Hypot(q.X-want[i].X, q.Y-want[i].Y)
	}
	for _, g := range got {
		if d := Dist(g, want); d > tol {
			return sprintf("corner (%g,%g) is %g away from the cell", g.X, g.Y, d)
		}
	}
	for _, v := range want {
		if d := Dist(v, got); d > tol {
			return sprintf("corner (%g,%g) of the cell is %g away from the reported polygon", v.X, v.Y, d)
		}
	}
	if da := math.Abs(math.Abs(Area2(got))-math.Abs(Area2(want))) / 2; da > tol*per+tol*tol {
		return sprintf("the polygon covers %g, the cell covers %g", math.Abs(Area2(got))/2, math.Abs(Area2(want))/2)
	}
	return ""
}
