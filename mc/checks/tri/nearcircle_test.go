package tri

import (
	"fmt"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
)

// ring describes points on and next to a circle of integers.
type ring struct {
	w, h   int
	cx, cy int
	r      int
	every  int // keep every n-th point of the circle
	off    int // how far squared distances of the points next to the circle may be from that of the circle
}

// points are the points on the circle and those next to it, within the image.
func (r ring) points() (on, next []pt) {
	for x := r.cx - r.r - 1; x <= r.cx+r.r+1; x++ {
		for y := r.cy - r.r - 1; y <= r.cy+r.r+1; y++ {
			if x < 0 || y < 0 || x > r.w || y > r.h {
				continue
			}
			d := (x-r.cx)*(x-r.cx) + (y-r.cy)*(y-r.cy) - r.r*r.r
			if d == 0 {
				on = append(on, P(x, y))
			} else if -r.off <= d && d <= r.off {
				next = append(next, P(x, y))
			}
		}
	}
	k := 0
	for i := 0; i < len(on); i += r.every {
		on[k] = on[i]
		k++
	}
	return on[:k], next
}

func (r ring) name(what string) string {
	return fmt.Sprintf("%s of three points on and one next to the circle of radius %d around (%d,%d) of the image %dx%d", what, r.r, r.cx, r.cy, r.w, r.h)
}

// choose picks three points of the circle and one next to it.
func (r ring) choose(c *explore.Ctx, on, next []pt) []pt {
	i := c.Choose(len(on) - 2)
	j := i + 1 + c.Choose(len(on)-i-2)
	k := j + 1 + c.Choose(len(on)-j-1)
	return []pt{on[i], on[j], on[k], next[c.Choose(len(next))]}
}

// cellsNearCircle compares the diagrams of such points, whose corners nearly coincide.
func cellsNearCircle(r ring) explore.Item {
	on, next := r.points()
	return explore.Item{Name: r.name("cells"), Run: func(c *explore.Ctx) {
		q := r.choose(c, on, next)
		if c.Skipped() {
			return
		}
		mid := P(r.cx, r.cy)
		cfg := config{r.name(""), r.w, r.h, append(q, mid), nil, 1, 0}
		m := newModel(&cfg)
		v := incrdelaunay.NewVoronoi(r.w, r.h)
		for i := range q {
			v.Insert(q[i])
			m.apply(op{false, i})
		}
		rc := refCache{}
		checkV(c, rc, v, m)
		batch(c, rc, m)
		if r.cx >= 0 && r.cx <= r.w && r.cy >= 0 && r.cy <= r.h {
			v.Insert(mid)
			v.Remove(mid)
			checkV(c, rc, v, m)
		}
	}}
}

// trianglesNearCircle builds, takes apart and rebuilds the triangulations of such points.
func trianglesNearCircle(r ring, check func(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model)) explore.Item {
	on, next := r.points()
	return explore.Item{Name: r.name("triangles"), Run: func(c *explore.Ctx) {
		q := r.choose(c, on, next)
		out := c.Choose(4)
		if c.Skipped() {
			return
		}
		mid := P(r.cx, r.cy)
		if r.cx < 0 || r.cx > r.w || r.cy < 0 || r.cy > r.h {
			mid = P(r.w/2, r.h/2)
		}
		cfg := config{fmt.Sprint(r, q), r.w, r.h, append(q, mid), nil, 2, 0}
		d, m := start(&cfg)
		for _, o := range []op{{false, 0}, {false, 1}, {false, 2}, {false, 3}, {false, 4}, {true, out}, {false, out}, {true, 4}, {true, out}, {false, 4}} {
			doOp(c, d, m, o)
			if m.total > 2 {
				check(c, d, m)
			}
		}
	}}
}

func rings(deep bool) []ring {
	out := []ring{
		{8191, 8191, 5000, 3000, 2500, 2, 5},
		{8000, 6000, 200, 150, 2500, 1, 5},
		{3000, 2000, 1500, 1000, 650, 2, 5},
		{700, 700, 330, 340, 325, 2, 5},
		{700, 700, 30, 640, 325, 1, 5},
		{130, 130, 65, 65, 65, 2, 3},
		{60, 50, 30, 25, 25, 1, 3},
	}
	return out
}
