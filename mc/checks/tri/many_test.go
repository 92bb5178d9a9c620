package tri

import (
	"fmt"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

// jittered is a lattice of cols x rows points that fills the image, moved off their places inside it.
func jittered(cols, rows, step int) (pts []pt, w, h int) {
	w, h = (cols-1)*step, (rows-1)*step
	for j := 0; j < rows; j++ {
		for i := 0; i < cols; i++ {
			x, y := i*step, j*step
			if i > 0 && i < cols-1 && j > 0 && j < rows-1 {
				x += (i*7+j*j*3)%(step-1) - step/2 + 1
				y += (i*i*5+j*11)%(step-1) - step/2 + 1
			}
			pts = append(pts, P(x, y))
		}
	}
	return
}

// local decides with local conditions whether triangles are the Delaunay triangulation of points, without the
// triangles that have the corners of the bounding triangle inside their circumcircles: every triangle has an area,
// every edge inside has triangles on both sides whose far corners are not in each other's circumcircles, and on
// the empty side of every other edge, or of the edge between an unused point and its nearest neighbour, no
// triangle is missing. Where triangles are missing at the border, only few are: the areas add up to that
// of the image unless the points leave out borders (full is false).
func local(pts map[oracle.Pt]bool, w, h int, ts []oracle.Tri, full bool) string {
	type edge struct{ a, b oracle.Pt }
	far := make(map[edge]oracle.Pt, 3*len(ts))
	var area int64
	used := make(map[oracle.Pt]bool, len(pts))
	for _, t := range ts {
		cr := oracle.Cross(t[0], t[1], t[2])
		if cr == 0 {
			return fmt.Sprintf("triangle %v is degenerate", t)
		}
		if cr < 0 {
			t[1], t[2] = t[2], t[1]
			cr = -cr
		}
		area += cr
		for i := 0; i < 3; i++ {
			if !pts[t[i]] {
				return fmt.Sprintf("triangle %v has a corner that is no point", t)
			}
			used[t[i]] = true
			e := edge{t[i], t[(i+1)%3]}
			if _, ok := far[e]; ok {
				return fmt.Sprintf("two triangles lie on the same side of %v", e)
			}
			far[e] = t[(i+2)%3]
		}
	}
	if full && area != 2*int64(w)*int64(h) || area > 2*int64(w)*int64(h) {
		return fmt.Sprintf("the triangles cover twice-area %d of %d", area, 2*w*h)
	}
	if full && len(used) != len(pts) {
		return fmt.Sprintf("%d of %d points are corners", len(used), len(pts))
	}
	super := oracle.Super(w, h)
	missing := func(a, b oracle.Pt) string {
		var best oracle.Pt
		found := false
		for q := range pts {
			if oracle.Cross(a, b, q) > 0 && (!found || oracle.InCircle(a, b, best, q) > 0) {
				best, found = q, true
			}
		}
		if !found {
			return ""
		}
		for _, q := range super {
			if oracle.InCircle(a, b, best, q) >= 0 {
				return ""
			}
		}
		// the circle of an edge that is not Delaunay holds a point on the other side
		for q := range pts {
			if oracle.InCircle(a, b, best, q) > 0 {
				return ""
			}
		}
		return fmt.Sprintf("the triangle of %v, %v and %v is missing", a, b, best)
	}
	for e, p := range far {
		q, ok := far[edge{e.b, e.a}]
		if !ok {
			out := e.a.X == e.b.X && (e.a.X == 0 || e.a.X == int64(w)) || e.a.Y == e.b.Y && (e.a.Y == 0 || e.a.Y == int64(h))
			if out {
				continue
			}
			if full {
				return fmt.Sprintf("edge %v has a triangle on one side only", e)
			}
			if msg := missing(e.b, e.a); msg != "" {
				return msg
			}
			continue
		}
		if oracle.InCircle(e.a, e.b, p, q) > 0 {
			return fmt.Sprintf("%v lies inside the circumcircle of %v %v %v", q, e.a, e.b, p)
		}
	}
	for p := range pts {
		if used[p] || len(pts) == 1 {
			continue
		}
		var near oracle.Pt
		dist := int64(-1)
		for q := range pts {
			if d := (p.X-q.X)*(p.X-q.X) + (p.Y-q.Y)*(p.Y-q.Y); q != p && (dist < 0 || d < dist) {
				near, dist = q, d
			}
		}
		if msg := missing(p, near) + missing(near, p); msg != "" {
			return msg
		}
	}
	return ""
}

// many explores histories on a triangulation of many points.
func many(cols, rows, step, depth int) explore.Item {
	pts, w, h := jittered(cols, rows, step)
	extra := []pt{P(step+1, step+1), P(w/2+1, h/2), pts[cols*rows/2+cols/3], P(w-1, h-2)}
	return explore.Item{Name: fmt.Sprintf("%d points in an image of %dx%d, histories of %d", len(pts), w, h, depth), Run: func(c *explore.Ctx) {
		// the order of insertion: row by row, or in strides
		stride := []int{1, 7919, 101}[c.Choose(3)]
		ops := []op{}
		for i := 0; i < depth; i++ {
			k := c.Choose(2 * len(extra))
			ops = append(ops, op{k >= len(extra), k % len(extra)})
		}
		if c.Skipped() {
			return
		}
		d := incrdelaunay.NewDelaunay(w, h)
		n := len(pts)
		count := map[pt]int{}
		total := 0
		for i := 0; i < n; i++ {
			p := pts[i*stride%n]
			d.Insert(p)
			count[p]++
			total++
		}
		for _, o := range ops {
			p := extra[o.i]
			if o.remove {
				if count[p] == 0 {
					return
				}
				d.Remove(p)
				count[p]--
				total--
			} else {
				d.Insert(p)
				count[p]++
				total++
			}
			c.Logf("%v %v", o, p)
		}
		real := map[oracle.Pt]bool{}
		for p, k := range count {
			if k > 0 {
				real[oracle.Pt{X: int64(p.X), Y: int64(p.Y)}] = true
			}
		}
		ts := tris(d)
		c.Eval(1)
		if msg := local(real, w, h, ts, true); msg != "" {
			c.Fail("%d points (stride %d) and %v: %s", n, stride, ops, msg)
		}
		if d.NumPoints() != total {
			c.Fail("%d points, NumPoints says %d", total, d.NumPoints())
		}
		for _, p := range append(append([]pt{}, extra...), pts...) {
			if d.HasPoint(p) != (count[p] > 0) {
				c.Fail("HasPoint(%v) = %v after %v", p, d.HasPoint(p), ops)
			}
		}
		hs := explore.NewH().I(len(ts)).I(stride)
		for _, o := range ops {
			hs = hs.I(o.i).S(o.String())
		}
		c.State(hs.Sum())
		c.Outcome(hs.Sum())
	}}
}

// copies inserts a point very many times before short histories.
func copies(deep bool) explore.Item {
	depth, counts := 1, []int{255, 256, 257, 65535, 65536, 65537}
	if deep {
		depth, counts = 2, []int{127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 131072}
	}
	cfg := config{name: "copies 40x30", w: 40, h: 30, pts: []pt{P(7, 9), P(30, 4), P(20, 30)}, maxCopies: 1 << 20}
	cc := cellCache{}
	return explore.Item{Name: fmt.Sprintf("very many copies of a point, histories of %d", depth), Run: func(c *explore.Ctx) {
		n := counts[c.Choose(len(counts))]
		rest := c.Choose(3)
		steps := []int{}
		for i := 0; i < depth; i++ {
			steps = append(steps, c.Choose(6))
		}
		if c.Skipped() {
			return
		}
		d, m := start(&cfg)
		for i := 0; i < n; i++ {
			d.Insert(cfg.pts[0])
			m.apply(op{false, 0})
		}
		for i := 0; i < rest; i++ {
			d.Insert(cfg.pts[1+i])
			m.apply(op{false, 1 + i})
		}
		c.Logf("%d copies", n)
		check := func() {
			ts := tris(d)
			c.Eval(1)
			if msg := cc.get(m).Check(ts); msg != "" {
				c.Fail("%d copies of a point: %s", n, msg)
			}
			lookups(c, d, m)
		}
		check()
		for _, k := range steps {
			o := op{k >= 3, k % 3}
			if o.remove && m.count[o.i] == 0 {
				return
			}
			doOp(c, d, m, o)
			check()
		}
		// all copies but one, and then the last
		for m.count[0] > 1 {
			d.Remove(cfg.pts[0])
			m.apply(op{true, 0})
		}
		check()
		if m.count[0] == 1 {
			doOp(c, d, m, op{true, 0})
			check()
		}
	}}
}
