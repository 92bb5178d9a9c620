package tri

import (
	"fmt"
	"sort"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"verifmc/explore"
	"verifmc/oracle"
)

type pt = incrdelaunay.Point

// A config is an image size, an alphabet of points and an initial multiset (indices).
type config struct {
	name string
	w, h int
	pts  []pt
	init []int
	// maxCopies bounds the copies of a point.
	maxCopies int
	// free, when positive, is the number of points that operations use: the first ones.
	free int
}

func P(x, y int) pt { return pt{X: int16(x), Y: int16(y)} }

func grid(xs, ys []int) []pt {
	out := []pt{}
	for _, y := range ys {
		for _, x := range xs {
			out = append(out, P(x, y))
		}
	}
	return out
}

// spread makes n distinct points of an image by a fixed rule (a low-discrepancy lattice).
func spread(n, w, h, a, b int) []pt {
	out := []pt{}
	seen := map[pt]bool{}
	for i := 0; len(out) < n; i++ {
		p := P((i*a+i*i/3)%(w+1), (i*b+i/2)%(h+1))
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func seq(n int) []int {
	r := []int{}
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}

// model is the reference: a multiset of points.
type model struct {
	cfg   *config
	count []int
	total int
}

func newModel(cfg *config) *model { return &model{cfg: cfg, count: make([]int, len(cfg.pts))} }

func (m *model) clone() *model {
	return &model{m.cfg, append([]int{}, m.count...), m.total}
}

func (m *model) key() uint64 {
	h := explore.NewH()
	for i, c := range m.count {
		if c > 0 {
			h = h.I(i).I(c)
		}
	}
	return h.Sum()
}

func (m *model) present() []oracle.Pt {
	out := []oracle.Pt{}
	for i, c := range m.count {
		if c > 0 {
			out = append(out, oracle.Pt{X: int64(m.cfg.pts[i].X), Y: int64(m.cfg.pts[i].Y)})
		}
	}
	return out
}

func (m *model) maskKey() uint64 {
	h := explore.NewH().S(m.cfg.name)
	for i, c := range m.count {
		if c > 0 {
			h = h.I(i)
		}
	}
	return h.Sum()
}

type cellCache map[uint64]*oracle.Cells

func (cc cellCache) get(m *model) *oracle.Cells {
	k := m.maskKey()
	if c, ok := cc[k]; ok {
		return c
	}
	c := oracle.Delaunay(m.present(), m.cfg.w, m.cfg.h)
	if len(cc) > 20000 {
		for k := range cc {
			delete(cc, k)
		}
	}
	cc[k] = c
	return c
}

func tris(d *incrdelaunay.Delaunay) []oracle.Tri {
	out := []oracle.Tri{}
	d.IterTriangles(func(t incrdelaunay.Triangle) {
		out = append(out, oracle.Tri{o(t.A), o(t.B), o(t.C)})
	})
	return out
}

func o(p pt) oracle.Pt { return oracle.Pt{X: int64(p.X), Y: int64(p.Y)} }

// canon is a canonical form of a set of triangles.
func canon(ts []oracle.Tri) []oracle.Tri {
	out := make([]oracle.Tri, len(ts))
	for i, t := range ts {
		s := t[:]
		s = append([]oracle.Pt{}, s...)
		sort.Slice(s, func(i, j int) bool { return s[i].X < s[j].X || s[i].X == s[j].X && s[i].Y < s[j].Y })
		out[i] = oracle.Tri{s[0], s[1], s[2]}
	}
	sort.Slice(out, func(i, j int) bool {
		for k := 0; k < 3; k++ {
			if out[i][k] != out[j][k] {
				return out[i][k].X < out[j][k].X || out[i][k].X == out[j][k].X && out[i][k].Y < out[j][k].Y
			}
		}
		return false
	})
	return out
}

func sameTris(a, b []oracle.Tri) bool {
	a, b = canon(a), canon(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hashTris(ts []oracle.Tri) uint64 {
	h := explore.NewH()
	for _, t := range canon(ts) {
		for _, v := range t {
			h = h.I(int(v.X)).I(int(v.Y))
		}
	}
	return h.Sum()
}

// op is one step of a history.
type op struct {
	remove bool
	i      int
}

func (o op) String() string {
	if o.remove {
		return fmt.Sprintf("remove %d", o.i)
	}
	return fmt.Sprintf("insert %d", o.i)
}

// ops lists the operations enabled in m.
func (m *model) ops() []op {
	out := []op{}
	count := m.count
	if m.cfg.free > 0 {
		count = count[:m.cfg.free]
	}
	for i, c := range count {
		if c < m.cfg.maxCopies {
			out = append(out, op{false, i})
		}
	}
	for i, c := range count {
		if c > 0 {
			out = append(out, op{true, i})
		}
	}
	return out
}

func (m *model) apply(o op) {
	if o.remove {
		m.count[o.i]--
		m.total--
	} else {
		m.count[o.i]++
		m.total++
	}
}

// inBucket are n points of one bucket of the multiset of a square image, or of very few.
func inBucket(side, mul, n int) []pt {
	out := []pt{}
	for x := 3; len(out) < n; x += 9 {
		for y := x % 7; y <= side; y++ {
			if ((mul+x)*mul+y)%side == 11 {
				out = append(out, P(x%side, y))
				break
			}
		}
	}
	return out
}

func configs() map[string]config {
	cs := []config{
		{"grid3x3 4x4", 4, 4, grid([]int{0, 2, 4}, []int{0, 2, 4}), nil, 2, 0},
		{"one 1x1", 1, 1, grid([]int{0, 1}, []int{0, 1}), nil, 2, 0},
		{"huge 8000x6000", 8000, 6000, []pt{P(0, 0), P(8000, 6000), P(4000, 3000), P(7999, 5), P(20, 5990), P(6600, 1200)}, nil, 1, 0},
		{"unit 2x2", 2, 2, grid([]int{0, 1, 2}, []int{0, 1, 2}), nil, 1, 0},
		{"generic 97x61", 97, 61, []pt{P(0, 0), P(97, 61), P(13, 47), P(71, 9), P(40, 33), P(88, 52), P(5, 20)}, nil, 2, 0},
		{"edges 100x80", 100, 80, []pt{P(0, 0), P(100, 0), P(0, 80), P(100, 80), P(50, 0), P(0, 40), P(100, 37), P(51, 41)}, nil, 1, 0},
		{"collinear 60x60", 60, 60, []pt{P(0, 30), P(15, 30), P(30, 30), P(45, 30), P(60, 30), P(30, 0), P(20, 50)}, nil, 1, 0},
		{"diagonal 64x64", 64, 64, []pt{P(0, 0), P(16, 16), P(32, 32), P(48, 48), P(64, 64), P(0, 64), P(64, 0)}, nil, 1, 0},
		{"circle 50x50", 50, 50, []pt{P(50, 25), P(45, 40), P(40, 45), P(25, 50), P(10, 45), P(0, 25), P(5, 10), P(25, 25)}, nil, 1, 0},
		{"large 3000x2000", 3000, 2000, []pt{P(0, 0), P(3000, 2000), P(1500, 1000), P(1499, 1001), P(2999, 3), P(12, 1988), P(300, 200)}, nil, 2, 0},
		{"sliver 3000x1500", 3000, 1500, []pt{P(0, 750), P(3000, 751), P(1500, 750), P(750, 751), P(2250, 750), P(1200, 749)}, nil, 1, 0},
		{"tall 7x211", 7, 211, []pt{P(0, 0), P(7, 211), P(3, 100), P(4, 101), P(1, 180), P(6, 20), P(0, 211)}, nil, 1, 0},
		{"wide 211x7", 211, 7, []pt{P(0, 0), P(211, 7), P(100, 3), P(101, 4), P(180, 1), P(20, 6), P(211, 0)}, nil, 1, 0},
		// (53+x)*53+y is equal modulo 100 for all of these: one bucket of the multiset
		{"collide 100x100", 100, 100, []pt{P(10, 10), P(11, 57), P(12, 4), P(30, 50), P(50, 90), P(70, 30), P(20, 80)}, nil, 2, 0},
		{"collide full 100x100", 100, 100, inBucket(100, 53, 10), seq(7), 2, 0},
		// differences of 256, 512, 768 and 4096 in one coordinate: alike to code that keeps low bits only
		{"alias 8190x8190", 8190, 8190, []pt{P(37, 41), P(37, 809), P(37, 297), P(37, 4137), P(4133, 41), P(805, 41)}, nil, 1, 0},
		// the circumcircles around the middles of the sides are the largest ones
		{"middles 8191x8191", 8191, 8191, []pt{P(4096, 0), P(0, 4096), P(8191, 4095), P(4095, 8191), P(4096, 4095), P(4100, 0)}, nil, 1, 0},
		{"bottom 8190x7000", 8190, 7000, []pt{P(4095, 0), P(4094, 0), P(4090, 1), P(3000, 2000), P(5000, 3000), P(8190, 0)}, nil, 1, 0},
	}
	m := map[string]config{}
	for _, c := range cs {
		m[c.name] = c
	}
	return m
}

// dense is a configuration that starts from n points; the alphabet has extra more.
func dense(name string, w, h, n, extra, a, b int) config {
	return config{name, w, h, spread(n+extra, w, h, a, b), seq(n), 2, 0}
}
