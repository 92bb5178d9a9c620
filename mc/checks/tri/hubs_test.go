package tri

import (
	"fmt"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

// hubConfig makes a configuration of a hub: the first points are the free ones.
func hubConfig(h oracle.Hub) config {
	cfg := config{name: fmt.Sprintf("%s, image %dx%d", h.Name, h.W, h.H), w: h.W, h: h.H, maxCopies: 2, free: len(h.Free)}
	at := map[oracle.Pt]int{}
	add := func(p oracle.Pt) int {
		if _, ok := at[p]; !ok {
			at[p] = len(cfg.pts)
			cfg.pts = append(cfg.pts, P(int(p.X), int(p.Y)))
		}
		return at[p]
	}
	for _, p := range h.Free {
		add(p)
	}
	for _, p := range h.Init {
		cfg.init = append(cfg.init, add(p))
	}
	return cfg
}

// hubs are histories around points with very many neighbours.
func hubs(max, depth int, check func(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model)) []explore.Item {
	items := []explore.Item{}
	for _, h := range oracle.Hubs(max) {
		items = append(items, histories(hubConfig(h), depth, check))
	}
	return items
}

// locally decides with local conditions.
func locally(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model) {
	real := map[oracle.Pt]bool{}
	for _, p := range m.present() {
		real[p] = true
	}
	ts := tris(d)
	c.State(hashTris(ts) ^ m.key())
	c.Eval(1)
	if msg := local(real, m.cfg.w, m.cfg.h, ts, false); msg != "" {
		c.Fail("%s, points %v: %s", m.cfg.name, m.present(), msg)
	}
	c.Outcome(hashTris(ts))
}
