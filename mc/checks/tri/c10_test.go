package tri

import (
	"fmt"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

func start(cfg *config) (*incrdelaunay.Delaunay, *model) {
	d := incrdelaunay.NewDelaunay(cfg.w, cfg.h)
	m := newModel(cfg)
	for _, i := range cfg.init {
		d.Insert(cfg.pts[i])
		m.apply(op{false, i})
	}
	return d, m
}

func doOp(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model, o op) {
	p := m.cfg.pts[o.i]
	c.Logf("%v=(%d,%d)", o, p.X, p.Y)
	if o.remove {
		d.Remove(p)
	} else {
		d.Insert(p)
	}
	m.apply(o)
}

// histories explores every sequence of at most depth insertions and removals.
func histories(cfg config, depth int, check func(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model)) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%s histories depth %d", cfg.name, depth), Run: func(c *explore.Ctx) {
		d, m := start(&cfg)
		if c.Fresh() {
			check(c, d, m)
		}
		for i := 0; i < depth; i++ {
			ops := m.ops()
			k := c.Choose(len(ops))
			doOp(c, d, m, ops[k])
			if c.Fresh() {
				check(c, d, m)
			}
		}
	}}
}

// permutations inserts the first n points in every order and then removes them in every order.
func permutations(cfg config, n int, both bool, check func(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model)) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%s orders of %d, removals %v", cfg.name, n, both), Run: func(c *explore.Ctx) {
		d, m := start(&cfg)
		pass := func(remove bool) {
			left := seq(n)
			for len(left) > 0 {
				k := c.Choose(len(left))
				doOp(c, d, m, op{remove, left[k]})
				left = append(left[:k:k], left[k+1:]...)
				if c.Fresh() {
					check(c, d, m)
				}
			}
		}
		pass(false)
		if both {
			pass(true)
		}
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C10",
		Bounds: "every history of insertions and removals up to the stated depth over each alphabet; every insertion order and every removal order of small sets; depth-2 histories from dense states and from points with up to 300 neighbours; changes in dense bands along each side; every three points on and one next to circles of large radius; 1400 to 32942 points; up to 65537 copies of a point",
		Items: func(tier string) []explore.Item {
			cs := configs()
			cc := map[string]cellCache{}
			check := func(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model) {
				if cc[m.cfg.name] == nil {
					cc[m.cfg.name] = cellCache{}
				}
				ts := tris(d)
				c.State(hashTris(ts) ^ m.key())
				c.Eval(1)
				if msg := cc[m.cfg.name].get(m).Check(ts); msg != "" {
					c.Fail("image %dx%d, points %v: %s", m.cfg.w, m.cfg.h, m.present(), msg)
				}
				c.Outcome(hashTris(ts))
			}
			items := append(triItems(tier, cs, check), many(40, 35, 9, 2), many(182, 181, 7, 1))
			items = append(items, bands(tier == "thorough", false)...)
			for _, r := range rings(tier == "thorough") {
				items = append(items, trianglesNearCircle(r, exactly))
			}
			d := 2
			if tier == "thorough" {
				d = 3
			}
			items = append(items, hubs(55, d, check)...)
			items = append(items, hubs(300, d, locally)...)
			if tier == "thorough" {
				items = append(items, many(100, 90, 5, 2), many(215, 190, 7, 1), many(181, 181, 8, 2))
			}
			return items
		},
	})
}

// exactly decides with every cell of the Delaunay diagram.
func exactly(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model) {
	ts := tris(d)
	c.State(hashTris(ts) ^ m.key())
	c.Eval(1)
	if msg := oracle.Delaunay(m.present(), m.cfg.w, m.cfg.h).Check(ts); msg != "" {
		c.Fail("image %dx%d, points %v: %s", m.cfg.w, m.cfg.h, m.present(), msg)
	}
	c.Outcome(hashTris(ts))
}

func triItems(tier string, cs map[string]config, check func(c *explore.Ctx, d *incrdelaunay.Delaunay, m *model)) []explore.Item {
	items := []explore.Item{}
	deep := 0
	if tier == "thorough" {
		deep = 1
	}
	for _, n := range []string{"grid3x3 4x4", "one 1x1", "unit 2x2", "generic 97x61", "edges 100x80", "collinear 60x60", "diagonal 64x64", "circle 50x50", "large 3000x2000", "huge 8000x6000", "sliver 3000x1500", "tall 7x211", "wide 211x7", "collide 100x100", "alias 8190x8190", "middles 8191x8191", "bottom 8190x7000"} {
		items = append(items, histories(cs[n], 4+deep, check))
	}
	for _, n := range []string{"generic 97x61", "collinear 60x60", "circle 50x50", "sliver 3000x1500", "large 3000x2000"} {
		items = append(items, permutations(cs[n], 5+deep, true, check))
	}
	for _, n := range []string{"grid3x3 4x4", "edges 100x80", "diagonal 64x64"} {
		items = append(items, permutations(cs[n], 7, false, check))
	}
	items = append(items,
		histories(cs["collide full 100x100"], 3+deep, check),
		permutations(cs["collide full 100x100"], 5, true, check),
		histories(dense("dense12 61x43", 61, 43, 12, 6, 23, 17), 2+deep, check),
		histories(dense("dense30 400x300", 400, 300, 30, 8, 131, 97), 2, check),
		histories(dense("dense45 1900x2900", 1900, 2900, 45, 5, 731, 1297), 1, check),
	)
	return append(items, copies(deep == 1))
}
