package tri

import (
	"fmt"
	"sort"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

type cells [][]oracle.FPt

func fpts(p []incrdelaunay.FloatPoint) []oracle.FPt {
	out := make([]oracle.FPt, len(p))
	for i, v := range p {
		out[i] = oracle.FPt{X: v.X, Y: v.Y}
	}
	return out
}

func incremental(v *incrdelaunay.IVoronoi) cells {
	out := cells{}
	v.IterPolygons(func(p []incrdelaunay.FloatPoint) { out = append(out, fpts(p)) })
	return out
}

type vorCache map[uint64][]oracle.FPt

// reference is the exact cell of every present point.
func reference(m *model) cells {
	ps := m.present()
	out := cells{}
	for _, p := range ps {
		out = append(out, oracle.VoronoiCell(p, ps, float64(m.cfg.w), float64(m.cfg.h)))
	}
	return out
}

// tolerance: circumcentres are kept in single precision.
func tol(m *model) float64 {
	s := m.cfg.w
	if m.cfg.h > s {
		s = m.cfg.h
	}
	return 2e-3 + 1e-5*float64(s)
}

func centre(p []oracle.FPt) (float64, float64) {
	var x, y float64
	for _, v := range p {
		x += v.X
		y += v.Y
	}
	return x / float64(len(p)), y / float64(len(p))
}

// compareCells matches reported polygons to reference cells one to one.
func compareCells(got, want cells, t float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d cells are reported for %d distinct points", len(got), len(want))
	}
	used := make([]bool, len(got))
	for _, w := range want {
		ok := false
		why := ""
		for i, g := range got {
			if used[i] {
				continue
			}
			msg := oracle.SamePolygon(g, w, t)
			if msg == "" {
				used[i] = true
				ok = true
				break
			}
			if why == "" || len(g) > 0 && len(w) > 0 && near(g, w) {
				why = fmt.Sprintf("%s (reported %v)", msg, g)
			}
		}
		if !ok {
			return fmt.Sprintf("no reported cell equals %v: %s", w, why)
		}
	}
	return ""
}

func near(a, b []oracle.FPt) bool {
	x, y := centre(a)
	return oracle.Dist(oracle.FPt{X: x, Y: y}, b) == 0
}

func hashCells(cs cells) uint64 {
	hs := []int{}
	for _, p := range cs {
		h := 0
		for _, v := range p {
			h += int(explore.NewH().I(int(v.X*16)).I(int(v.Y*16)).Sum() >> 8)
		}
		hs = append(hs, h)
	}
	sort.Ints(hs)
	h := explore.NewH()
	for _, x := range hs {
		h = h.I(x)
	}
	return h.Sum()
}

type refCache map[uint64]cells

func (rc refCache) get(m *model) cells {
	k := m.maskKey()
	if c, ok := rc[k]; ok {
		return c
	}
	if len(rc) > 20000 {
		for k := range rc {
			delete(rc, k)
		}
	}
	c := reference(m)
	rc[k] = c
	return c
}

func startV(cfg *config) (*incrdelaunay.IVoronoi, *model) {
	v := incrdelaunay.NewVoronoi(cfg.w, cfg.h)
	m := newModel(cfg)
	for _, i := range cfg.init {
		v.Insert(cfg.pts[i])
		m.apply(op{false, i})
	}
	return v, m
}

func doOpV(c *explore.Ctx, v *incrdelaunay.IVoronoi, m *model, o op) {
	p := m.cfg.pts[o.i]
	c.Logf("%v=(%d,%d)", o, p.X, p.Y)
	if o.remove {
		v.Remove(p)
	} else {
		v.Insert(p)
	}
	m.apply(o)
}

func checkV(c *explore.Ctx, rc refCache, v *incrdelaunay.IVoronoi, m *model) {
	got := incremental(v)
	c.State(hashCells(got) ^ m.key())
	c.Eval(1)
	if msg := compareCells(got, rc.get(m), tol(m)); msg != "" {
		c.Fail("image %dx%d, points %v: %s", m.cfg.w, m.cfg.h, m.present(), msg)
	}
	c.Outcome(hashCells(got))
}

// batch compares the one-shot diagram of the same points.
func batch(c *explore.Ctx, rc refCache, m *model) {
	d := incrdelaunay.NewDelaunay(m.cfg.w, m.cfg.h)
	for i, n := range m.count {
		for ; n > 0; n-- {
			d.Insert(m.cfg.pts[i])
		}
	}
	got := cells{}
	incrdelaunay.Voronoi(d, func(p []incrdelaunay.FloatPoint) { got = append(got, fpts(p)) }, m.cfg.w, m.cfg.h)
	c.Eval(1)
	if msg := compareCells(got, rc.get(m), tol(m)); msg != "" {
		c.Fail("one-shot diagram, image %dx%d, points %v: %s", m.cfg.w, m.cfg.h, m.present(), msg)
	}
}

func vorHistories(cfg config, depth int) explore.Item {
	rc := refCache{}
	done := map[uint64]bool{}
	return explore.Item{Name: fmt.Sprintf("%s voronoi histories depth %d", cfg.name, depth), Run: func(c *explore.Ctx) {
		v, m := startV(&cfg)
		for i := 0; i < depth; i++ {
			ops := m.ops()
			doOpV(c, v, m, ops[c.Choose(len(ops))])
			if c.Fresh() {
				checkV(c, rc, v, m)
				if k := m.key(); !done[k] || c.Recording() {
					batch(c, rc, m)
					done[k] = true
				}
			}
		}
	}}
}

func vorPerms(cfg config, n int, both bool) explore.Item {
	rc := refCache{}
	return explore.Item{Name: fmt.Sprintf("%s voronoi orders of %d, removals %v", cfg.name, n, both), Run: func(c *explore.Ctx) {
		v, m := startV(&cfg)
		pass := func(remove bool) {
			left := seq(n)
			for len(left) > 0 {
				k := c.Choose(len(left))
				doOpV(c, v, m, op{remove, left[k]})
				left = append(left[:k:k], left[k+1:]...)
				if c.Fresh() {
					checkV(c, rc, v, m)
				}
			}
		}
		pass(false)
		if both {
			pass(true)
		}
	}}
}

func vorCopies(tier string) []explore.Item {
	deep := 0
	if tier == "thorough" {
		deep = 1
	}
	item := func(cfg config, depth int, twins ...bool) explore.Item {
		twin := len(twins) > 0
		if twin {
			cfg.name += " twins"
		}
		rc := refCache{}
		return explore.Item{Name: fmt.Sprintf("%s voronoi copies depth %d", cfg.name, depth), Run: func(c *explore.Ctx) {
			var vs [2]*incrdelaunay.IVoronoi
			var ms [2]*model
			vs[0], ms[0] = startV(&cfg)
			vs[1], ms[1] = incrdelaunay.NewVoronoi(cfg.w, cfg.h), newModel(&cfg)
			if twin {
				vs[1].Set(vs[0])
				ms[1] = ms[0].clone()
			}
			for i := 0; i < depth; i++ {
				o0, o1 := ms[0].ops(), ms[1].ops()
				k := c.Choose(2 + len(o0) + len(o1))
				switch {
				case k < 2:
					c.Logf("%d.Set(%d)", k, 1-k)
					vs[k].Set(vs[1-k])
					ms[k] = ms[1-k].clone()
				case k < 2+len(o0):
					c.Logf("on 0:")
					doOpV(c, vs[0], ms[0], o0[k-2])
				default:
					c.Logf("on 1:")
					doOpV(c, vs[1], ms[1], o1[k-2-len(o0)])
				}
				if c.Fresh() {
					checkV(c, rc, vs[0], ms[0])
					checkV(c, rc, vs[1], ms[1])
				}
			}
		}}
	}
	cs := configs()
	g := cs["generic 97x61"]
	g.pts, g.maxCopies = g.pts[:4], 2
	g.name += "/4"
	e := cs["edges 100x80"]
	e.init = []int{0, 1, 2, 3, 6}
	e.pts, e.maxCopies = e.pts[:7], 2
	e.name += "/7"
	return []explore.Item{item(g, 4+deep), item(e, 3+deep), item(dense("dense15 120x90", 120, 90, 15, 3, 41, 29), 2),
		item(g, 4+deep, true), item(dense("dense24 120x90", 120, 90, 24, 2, 41, 29), 2, true), item(dense("dense15 120x90", 120, 90, 15, 3, 41, 29), 2+deep, true)}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C13",
		Bounds: "every history of insertions and removals up to the stated depth over each alphabet, incremental and one-shot diagram compared with half-plane clipping after every step; points with up to 300 neighbours, bands along each side and many points likewise",
		Items: func(tier string) []explore.Item {
			deep := 0
			if tier == "thorough" {
				deep = 1
			}
			cs := configs()
			items := []explore.Item{}
			for _, n := range []string{"one 1x1", "unit 2x2", "grid3x3 4x4", "generic 97x61", "edges 100x80", "collinear 60x60", "diagonal 64x64", "circle 50x50", "large 3000x2000", "huge 8000x6000", "tall 7x211", "wide 211x7", "collide 100x100", "alias 8190x8190", "middles 8191x8191", "bottom 8190x7000"} {
				items = append(items, vorHistories(cs[n], 4+deep))
			}
			items = append(items, vorHistories(cs["collide full 100x100"], 2+deep))
			for _, n := range []string{"generic 97x61", "circle 50x50", "collinear 60x60"} {
				items = append(items, vorPerms(cs[n], 5, true))
			}
			items = append(items, vorPerms(cs["edges 100x80"], 6+deep, false),
				vorHistories(dense("dense12 61x43", 61, 43, 12, 6, 23, 17), 2+deep),
				vorHistories(dense("dense30 400x300", 400, 300, 30, 8, 131, 97), 1+deep))
			for _, h := range oracle.Hubs(300) {
				items = append(items, vorHistories(hubConfig(h), 1+deep))
			}
			for _, h := range oracle.Hubs(60) {
				items = append(items, vorHistories(hubConfig(h), 2+deep))
			}
			for _, r := range rings(deep == 1) {
				items = append(items, cellsNearCircle(r))
			}
			return items
		},
	})
}
