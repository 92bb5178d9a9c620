package tri

import (
	"fmt"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

// lookups compares every query with the multiset.
func lookups(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model) {
	cfg := m.cfg
	if n := d.NumPoints(); n != m.total {
		c.Fail("%d points are in the triangulation, NumPoints says %d", m.total, n)
	}
	c.Eval(1)
	h := explore.NewH().U(m.key())
	probe := func(p pt, present bool) {
		if got := d.HasPoint(p); got != present {
			c.Fail("HasPoint(%v) = %v, the points are %v", p, got, m.present())
		}
		c.Eval(1)
	}
	for i, p := range cfg.pts {
		probe(p, m.count[i] > 0)
	}
	known := map[pt]bool{}
	for _, p := range cfg.pts {
		known[p] = true
	}
	queries := append([]pt{}, cfg.pts...)
	for _, q := range []pt{P(cfg.w/3, cfg.h/2), P(cfg.w, cfg.h/3), P(cfg.w/4, cfg.h), P(0, cfg.h*3/4), P(cfg.w*2/3, 0), P(cfg.w/2, cfg.h/2)} {
		if !known[q] {
			probe(q, false)
		}
		queries = append(queries, q)
	}
	if m.total > 0 {
		for _, q := range queries {
			best := int64(-1)
			for i, p := range cfg.pts {
				if m.count[i] == 0 {
					continue
				}
				dx, dy := int64(p.X)-int64(q.X), int64(p.Y)-int64(q.Y)
				if s := dx*dx + dy*dy; best < 0 || s < best {
					best = s
				}
			}
			g := d.GetClosestTo(q)
			dx, dy := int64(g.X)-int64(q.X), int64(g.Y)-int64(q.Y)
			ok := false
			for i, p := range cfg.pts {
				if p == g && m.count[i] > 0 {
					ok = true
				}
			}
			if !ok || dx*dx+dy*dy != best {
				c.Fail("GetClosestTo(%v) = %v; the points are %v", q, g, m.present())
			}
			h = h.I(int(g.X)).I(int(g.Y))
			c.Eval(1)
		}
	}
	c.State(m.key())
	c.Outcome(h.Sum())
}

// cross explores histories over two triangulations with copies between them.
func cross(cfg config, depth int, twins ...bool) explore.Item {
	return crossBy(cfg, depth, nil, twins...)
}

// crossBy decides with decide, or with every cell of the Delaunay diagram and every lookup.
func crossBy(cfg config, depth int, decide func(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model), twins ...bool) explore.Item {
	twin := len(twins) > 0
	if twin {
		cfg.name += " twins"
	}
	cc := cellCache{}
	return explore.Item{Name: fmt.Sprintf("%s copies depth %d", cfg.name, depth), Run: func(c *explore.Ctx) {
		var ds [2]*incrdelaunay.Delaunay
		var ms [2]*model
		ds[0], ms[0] = start(&cfg)
		ds[1], ms[1] = incrdelaunay.NewDelaunay(cfg.w, cfg.h), newModel(&cfg)
		if twin {
			ds[1].Set(ds[0])
			ms[1] = ms[0].clone()
		}
		for i := 0; i < depth; i++ {
			o0, o1 := ms[0].ops(), ms[1].ops()
			k := c.Choose(2 + len(o0) + len(o1))
			touched := 0
			switch {
			case k < 2:
				c.Logf("%d.Set(%d)", k, 1-k)
				ds[k].Set(ds[1-k])
				ms[k] = ms[1-k].clone()
				touched = k
			case k < 2+len(o0):
				c.Logf("on 0:")
				doOp(c, ds[0], ms[0], o0[k-2])
			default:
				c.Logf("on 1:")
				doOp(c, ds[1], ms[1], o1[k-2-len(o0)])
				touched = 1
			}
			if !c.Fresh() {
				continue
			}
			for s := 0; s < 2; s++ {
				if decide != nil {
					decide(c, ds[s], ms[s])
					continue
				}
				ts := tris(ds[s])
				c.Eval(1)
				if msg := cc.get(ms[s]).Check(ts); msg != "" {
					c.Fail("triangulation %d after a step on %d: %s", s, touched, msg)
				}
				lookups(c, ds[s], ms[s])
			}
			a, b := tris(ds[0]), tris(ds[1])
			if k < 2 && !sameTris(a, b) {
				c.Fail("after Set the two triangulations differ: %v and %v", a, b)
			}
			c.State(explore.NewH().U(hashTris(a)).U(hashTris(b)).U(ms[0].key()).U(ms[1].key()).Sum())
		}
	}}
}

// bulk explores copies after many removals, followed by many operations on the copy and on the original.
func bulk(cfg config, removals, insertions int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%s copied after up to %d removals, up to %d operations on either side", cfg.name, removals, insertions), Run: func(c *explore.Ctx) {
		gone := c.Choose(removals + 1)
		used := c.Choose(3) // what the target was used for before
		back := c.Choose(2) == 1
		n := [2]int{c.Choose(insertions + 1), c.Choose(insertions + 1)}
		if c.Skipped() {
			return
		}
		var ds [2]*incrdelaunay.Delaunay
		var ms [2]*model
		ds[0], ms[0] = start(&cfg)
		ds[1], ms[1] = incrdelaunay.NewDelaunay(cfg.w, cfg.h), newModel(&cfg)
		all := len(cfg.pts)
		if used > 0 {
			ds[1], ms[1] = start(&cfg)
			for i := 0; used == 2 && i < removals && i < all; i++ {
				if at := (i*5 + 2) % all; ms[1].count[at] > 0 {
					doOp(c, ds[1], ms[1], op{true, at})
				}
			}
		}
		out := []int{}
		for i := 0; len(out) < gone && i < all; i++ {
			if at := (i*7 + 3) % all; ms[0].count[at] == 1 {
				doOp(c, ds[0], ms[0], op{true, at})
				out = append(out, at)
			}
		}
		ds[1].Set(ds[0])
		ms[1] = ms[0].clone()
		if back {
			ds[0].Set(ds[1])
		}
		if a, b := tris(ds[0]), tris(ds[1]); !sameTris(a, b) {
			c.Fail("after Set the two triangulations differ: %v and %v", a, b)
		}
		// first the missing points return, then others leave
		for s := 0; s < 2; s++ {
			for i := 0; i < n[s]; i++ {
				if i < len(out) {
					doOp(c, ds[s], ms[s], op{false, out[(i+s)%len(out)]})
				} else if at := (i*11 + s) % all; ms[s].count[at] > 0 {
					doOp(c, ds[s], ms[s], op{true, at})
				} else {
					doOp(c, ds[s], ms[s], op{false, at})
				}
			}
		}
		for s := 0; s < 2; s++ {
			locally(c, ds[s], ms[s])
			if d := ds[s].NumPoints(); d != ms[s].total {
				c.Fail("triangulation %d holds %d points, NumPoints says %d", s, ms[s].total, d)
			}
		}
	}}
}

// protocol explores the use the optimiser makes of copies: Set to a base, then remove some
// points and insert others, alternating between members.
func protocol(cfg config, members, rounds, moves int) explore.Item {
	cc := cellCache{}
	return explore.Item{Name: fmt.Sprintf("%s base and mutations, %d members %d rounds %d moves", cfg.name, members, rounds, moves), Run: func(c *explore.Ctx) {
		ds := make([]*incrdelaunay.Delaunay, members)
		ms := make([]*model, members)
		for i := range ds {
			ds[i], ms[i] = start(&cfg)
			// members start from different points
			for k := 0; k < i; k++ {
				doOp(c, ds[i], ms[i], ms[i].ops()[k%len(ms[i].ops())])
			}
		}
		for r := 0; r < rounds; r++ {
			to := c.Choose(members)
			from := c.Choose(members)
			if to != from {
				ds[to].Set(ds[from])
				ms[to] = ms[from].clone()
			}
			c.Logf("%d from %d", to, from)
			type move struct{ old, new int }
			mv := []move{}
			for k := 0; k < moves; k++ {
				present := []int{}
				for i, n := range ms[to].count {
					used := 0
					for _, x := range mv {
						if x.old == i {
							used++
						}
					}
					if n > used {
						present = append(present, i)
					}
				}
				if len(present) == 0 {
					break
				}
				mv = append(mv, move{present[c.Choose(len(present))], c.Choose(len(cfg.pts))})
			}
			for _, x := range mv {
				doOp(c, ds[to], ms[to], op{true, x.old})
			}
			for _, x := range mv {
				doOp(c, ds[to], ms[to], op{false, x.new})
			}
			if !c.Fresh() {
				continue
			}
			for s := range ds {
				ts := tris(ds[s])
				c.Eval(1)
				c.State(explore.NewH().U(hashTris(ts)).U(ms[s].key()).Sum())
				if msg := cc.get(ms[s]).Check(ts); msg != "" {
					c.Fail("member %d: %s", s, msg)
				}
				if n := ds[s].NumPoints(); n != ms[s].total {
					c.Fail("member %d holds %d points, NumPoints says %d", s, ms[s].total, n)
				}
			}
		}
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C11",
		Bounds: "as C10, comparing every count and lookup with a multiset after every step",
		Items: func(tier string) []explore.Item {
			items := append(triItems(tier, configs(), lookups), many(60, 45, 9, 1))
			d := 2
			if tier == "thorough" {
				d = 3
			}
			items = append(items, hubs(300, d, lookups)...)
			for _, r := range rings(tier == "thorough") {
				items = append(items, trianglesNearCircle(r, lookups))
			}
			return append(items, bands(tier == "thorough", true)...)
		},
	})
	explore.Register(&explore.Check{
		ID:     "C12",
		Bounds: "every history of insertions, removals and copies over two triangulations (and two Voronoi diagrams) up to the stated depth; every base-and-mutations round over two or three members; copies after up to 25 removals; copies of points with up to 300 neighbours",
		Items: func(tier string) []explore.Item {
			deep := 0
			if tier == "thorough" {
				deep = 1
			}
			cs := configs()
			sub := func(n string, k, copies int, init []int) config {
				x := cs[n]
				x.name = fmt.Sprintf("%s/%d", x.name, k)
				x.pts = x.pts[:k]
				x.maxCopies = copies
				x.init = init
				return x
			}
			items := []explore.Item{
				cross(sub("generic 97x61", 3, 2, nil), 5+deep),
				cross(sub("grid3x3 4x4", 5, 1, nil), 4+deep),
				cross(sub("circle 50x50", 5, 1, []int{0, 1, 2, 3}), 4+deep),
				cross(sub("large 3000x2000", 6, 2, []int{0, 1, 2, 3}), 3+deep),
				cross(sub("collide 100x100", 5, 2, []int{0, 1, 1, 2}), 3+deep),
				cross(sub("collide full 100x100", 8, 2, seq(6)), 2+deep),
				cross(sub("collide full 100x100", 8, 1, seq(6)), 2+deep, true),
				cross(sub("alias 8190x8190", 6, 1, []int{0, 1}), 3+deep),
				cross(dense("dense20 200x150", 200, 150, 20, 4, 67, 41), 2),
				cross(dense("dense30 200x150", 200, 150, 30, 3, 67, 41), 2+deep, true),
				cross(dense("dense50 400x350", 400, 350, 50, 2, 167, 141), 2, true),
				cross(sub("collide 100x100", 5, 2, []int{0, 1, 1, 2}), 4+deep, true),
				cross(sub("generic 97x61", 4, 1, []int{0, 1, 2}), 5+deep, true),
				protocol(sub("generic 97x61", 6, 2, []int{0, 1, 2, 3}), 2, 2+deep, 1),
				protocol(sub("edges 100x80", 6, 2, []int{0, 1, 2, 3, 4}), 3, 2, 1),
				protocol(sub("circle 50x50", 6, 2, []int{0, 1, 2, 3}), 2, 1+deep, 2),
				protocol(dense("dense25 300x200", 300, 200, 25, 5, 101, 67), 2, 1, 1),
			}
			items = append(items,
				bulk(dense("dense30 200x150", 200, 150, 30, 3, 67, 41), 9, 9),
				bulk(dense("dense50 400x350", 400, 350, 50, 2, 167, 141), 25, 5),
				bulk(sub("collide full 100x100", 8, 1, seq(6)), 6, 6),
			)
			for _, h := range oracle.Hubs(55) {
				items = append(items, cross(hubConfig(h), 2, true))
			}
			for _, h := range oracle.Hubs(300) {
				if len(h.Init) > 100 {
					items = append(items, crossBy(hubConfig(h), 2, locally, true))
				}
			}
			items = append(items, vorCopies(tier)...)
			return items
		},
	})
}
