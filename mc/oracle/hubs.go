package oracle

import "math"

// A Hub is a set of points around points with very many neighbours. Free are the points that come and go, some of
// them in Init.
type Hub struct {
	Name       string
	W, H       int
	Init, Free []Pt
}

// Hubs returns the sets with at most max points.
func Hubs(max int) []Hub {
	out := []Hub{}
	add := func(name string, w, h int, init []Pt, free ...Pt) {
		seen := map[Pt]bool{}
		pts := []Pt{}
		for _, p := range init {
			if !seen[p] && p.X >= 0 && p.Y >= 0 && p.X <= int64(w) && p.Y <= int64(h) {
				seen[p] = true
				pts = append(pts, p)
			}
		}
		if len(pts)+len(free) <= max {
			out = append(out, Hub{name, w, h, pts, free})
		}
	}
	ring := func(n int, cx, cy int64, r float64, from, to float64) []Pt {
		o := []Pt{}
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * (from + (to-from)*float64(i)/float64(n))
			o = append(o, Pt{cx + int64(math.Floor(r*math.Cos(a)+0.5)), cy + int64(math.Floor(r*math.Sin(a)+0.5))})
		}
		return o
	}
	lattice := func(r int64) []Pt {
		o := []Pt{}
		for y := -r; y <= r; y++ {
			for x := -r; x <= r; x++ {
				if x*x+y*y == r*r {
					o = append(o, Pt{r + x, r + y})
				}
			}
		}
		return o
	}
	with := func(o []Pt, ps ...Pt) []Pt { return append(ps, o...) }
	for _, x := range []struct {
		n int
		r int64
	}{{18, 40}, {22, 110}, {26, 210}, {34, 80}, {40, 450}, {46, 700}, {70, 300}, {70, 1300}, {120, 900}, {120, 3900}, {200, 3900}} {
		c := Pt{x.r + 10, x.r + 5}
		o := ring(x.n, c.X, c.Y, float64(x.r), 0, 1)
		add(sprintf("wheel of %d", x.n), int(2*x.r+20), int(2*x.r+10), with(o, c), c, o[0], o[x.n/3], o[x.n/3+1], Pt{c.X + 1, c.Y + 1}, Pt{c.X + x.r/3, c.Y - x.r/2})
	}
	for _, r := range []int64{25, 65, 325, 1105} {
		o := lattice(r)
		c := Pt{r, r}
		add(sprintf("%d points on a circle", len(o)), int(2*r), int(2*r), with(o, c), c, o[0], o[len(o)/3], o[len(o)/2], Pt{r + 1, r}, Pt{r / 2, r + r/3})
	}
	for _, n := range []int{20, 45, 150} {
		o := []Pt{}
		for i := 0; i < n; i++ {
			o = append(o, Pt{int64(4 * i), 150})
		}
		apex := Pt{int64(2 * n), 0}
		add(sprintf("comb of %d", n), 4*n, 150, with(o, apex), apex, o[0], o[n/2], Pt{apex.X + 1, 0}, Pt{apex.X + 3, 149}, Pt{int64(n), 60})
		q := ring(n, 0, 0, float64(8*n), 0, 0.25)
		add(sprintf("fan of %d", n), 8*n+10, 8*n+10, with(q, Pt{}), Pt{}, q[0], q[n/2], Pt{0, 1}, Pt{int64(8*n + 10), int64(8*n + 10)}, Pt{int64(n), int64(n)})
	}
	return out
}
