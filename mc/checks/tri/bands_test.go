package tri

import (
	"fmt"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

// band is the corners of an image and rows of points along one of its sides, so dense that the circumcircles of
// most triangles next to the side stay there.
func band(w, h, side, step int) config {
	cfg := config{name: fmt.Sprintf("band %d of %dx%d", side, w, h), w: w, h: h, maxCopies: 2}
	length, depth := w, h
	if side >= 2 {
		length, depth = h, w
	}
	at := func(i, d int) pt {
		switch side {
		case 0:
			return P(i, h-d)
		case 1:
			return P(i, d)
		case 2:
			return P(w-d, i)
		default:
			return P(d, i)
		}
	}
	seen := map[pt]bool{}
	add := func(p pt) {
		if !seen[p] {
			seen[p] = true
			cfg.pts = append(cfg.pts, p)
		}
	}
	for _, p := range []pt{P(0, 0), P(w, 0), P(0, h), P(w, h)} {
		add(p)
	}
	for i := 0; i <= length; i += step {
		for _, d := range []int{0, 1, depth / 9} {
			add(at(i, d))
		}
	}
	cfg.init = seq(len(cfg.pts))
	// places of the band that hold no point
	for i := step / 2; i < length; i += 5 * step {
		add(at(i, 0))
		add(at(i, depth/18))
	}
	return cfg
}

// bands explores every single insertion and removal in such a set, and undoing it. A triangulation is built once
// for each execution; queries looks up every point of the alphabet.
func bands(deep, queries bool) []explore.Item {
	type size struct{ w, h, step int }
	sizes := []size{{100, 80, 2}, {83, 130, 3}}
	if deep {
		sizes = append(sizes, size{600, 500, 5}, size{240, 77, 1})
	}
	items := []explore.Item{}
	for _, s := range sizes {
		for side := 0; side < 4; side++ {
			cfg := band(s.w, s.h, side, s.step)
			items = append(items, explore.Item{Name: cfg.name + ", every change", Run: func(c *explore.Ctx) {
				i := c.Choose(len(cfg.pts))
				kind := c.Choose(2)
				if c.Skipped() {
					return
				}
				d, m := start(&cfg)
				if kind == 1 && m.count[i] == 0 {
					return
				}
				for _, o := range []op{{kind == 1, i}, {kind == 0, i}} {
					doOp(c, d, m, o)
					if queries {
						lookups(c, d, m)
						continue
					}
					bandCheck(c, d, m)
				}
			}})
		}
	}
	return items
}

func bandCheck(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model) {
	c.Eval(1)
	real := map[oracle.Pt]bool{}
	for _, p := range m.present() {
		real[p] = true
	}
	ts := tris(d)
	if msg := local(real, m.cfg.w, m.cfg.h, ts, false); msg != "" {
		c.Fail("%s: %s", m.cfg.name, msg)
	}
	c.State(hashTris(ts) ^ m.key())
	c.Outcome(hashTris(ts))
}
