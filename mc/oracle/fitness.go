package oracle

import (
	"math"
	"sort"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
)

// MaxPixel is the largest possible squared difference of one pixel.
const MaxPixel = 3 * 255 * 255

// Img is an image with 8-bit channels. It implements the image interface of the code under test.
type Img struct {
	W, H int
	Px   [][3]int
}

func NewImg(w, h int, f func(x, y int) [3]int) *Img {
	im := &Img{W: w, H: h, Px: make([][3]int, w*h)}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			im.Px[y*w+x] = f(x, y)
		}
	}
	return im
}

func (im *Img) Size() (int, int) { return im.W, im.H }
func (im *Img) RGBAt(x, y int) color.RGB {
	p := im.Px[y*im.W+x]
	return color.RGB{R: float64(p[0]) / 255, G: float64(p[1]) / 255, B: float64(p[2]) / 255}
}

// SSE is the sum of squared differences between the pixels of a convex polygon and their mean.
// ties is the number of pixels next to which a border runs exactly through a pixel boundary (either side is
// right); each of them changes the sum by at most MaxPixel. in is false when pixels lie outside the image.
func (im *Img) SSE(poly []geom.Point) (sse float64, ties int, in bool) {
	in = true
	n := 0
	var s [3]int64
	var sq int64
	for y, r := range ConvexRows(poly) {
		if r.Lox {
			ties++
			in = in && r.Lo > 0
		}
		if r.Hix {
			ties++
		}
		for x := r.Lo; x < r.Hi; x++ {
			if x < 0 || y < 0 || x >= im.W || y >= im.H {
				in = false
				continue
			}
			p := im.Px[y*im.W+x]
			for k := 0; k < 3; k++ {
				s[k] += int64(p[k])
				sq += int64(p[k] * p[k])
			}
			n++
		}
	}
	if n == 0 {
		return 0, ties, in
	}
	return float64(sq) - float64(s[0]*s[0]+s[1]*s[1]+s[2]*s[2])/float64(n), ties, in
}

// TriFitness returns the fitnesses of all Delaunay triangulations of the points (one, unless
// neighbouring points are cocircular), which may be off by slack. ok is false when the reference cannot decide.
func (im *Img) TriFitness(c *Cells) (vals []float64, slack float64, ok bool) {
	ok = true
	ties := 0
	acc := []float64{0}
	gain := func(a, b, d int) float64 {
		if a >= c.NP || b >= c.NP || d >= c.NP {
			return 0
		}
		pa, pb, pd := c.All[a], c.All[b], c.All[d]
		s, t, in := im.SSE([]geom.Point{gp(pa), gp(pb), gp(pd)})
		ties += t
		if !in {
			ok = false
		}
		return s - MaxPixel*float64(abs64(Cross(pa, pb, pd)))/2
	}
	for _, m := range c.Masks {
		ids := []int{}
		real := 0
		for l := range c.All {
			if m>>l&1 == 1 {
				ids = append(ids, l)
				if l < c.NP {
					real++
				}
			}
		}
		if real < 3 {
			continue
		}
		if len(ids) > 6 {
			return nil, 0, false
		}
		ids = around(c.All, ids)
		var rec func(i, j int) []float64
		rec = func(i, j int) []float64 {
			if j-i < 2 {
				return []float64{0}
			}
			out := []float64{}
			for k := i + 1; k < j; k++ {
				g := gain(ids[i], ids[k], ids[j])
				for _, a := range rec(i, k) {
					for _, b := range rec(k, j) {
						out = append(out, a+b+g)
					}
				}
			}
			return dedupe(out)
		}
		opts := rec(0, len(ids)-1)
		next := make([]float64, 0, len(acc)*len(opts))
		for _, a := range acc {
			for _, b := range opts {
				next = append(next, a+b)
			}
		}
		acc = dedupe(next)
		if len(acc) > 4096 {
			return nil, 0, false
		}
	}
	area := float64(im.W * im.H)
	for _, a := range acc {
		vals = append(vals, 1-(a+MaxPixel*area)/(MaxPixel*area))
	}
	return vals, float64(ties) / area, ok
}

func gp(p Pt) geom.Point { return geom.Point{X: int(p.X), Y: int(p.Y)} }

func dedupe(v []float64) []float64 {
	sort.Float64s(v)
	out := v[:0]
	for i, x := range v {
		if i == 0 || x-out[len(out)-1] > 1e-7 {
			out = append(out, x)
		}
	}
	return out
}

// around sorts points in convex position by angle.
func around(all []Pt, ids []int) []int {
	var sx, sy int64
	n := int64(len(ids))
	for _, i := range ids {
		sx += all[i].X
		sy += all[i].Y
	}
	ang := func(i int) float64 {
		return math.Atan2(float64(all[i].Y*n-sy), float64(all[i].X*n-sx))
	}
	out := append([]int{}, ids...)
	sort.Slice(out, func(a, b int) bool { return ang(out[a]) < ang(out[b]) })
	return out
}

// InSet tells whether v is one of the values, up to rounding and slack.
func InSet(v float64, set []float64, slack float64) bool {
	for _, s := range set {
		if math.Abs(v-s) <= 1e-9+slack {
			return true
		}
	}
	return false
}

// CellFitness is the fitness of Voronoi cells, rounded to pixels. ok is false when that is not well
// defined; sure is false when the rounding of a corner may go either way, so that another computation of
// the cells, whose corners are no more than within away, may have another fitness.
func (im *Img) CellFitness(cells [][]FPt, within float64) (v, slack float64, ok, sure bool) {
	var sum float64
	ties := 0
	sure = true
	for _, c := range cells {
		r, good := roundCell(c, within)
		if !good {
			sure = false
		}
		if !convex(r) {
			return 0, 0, false, sure
		}
		if len(r) < 3 {
			continue
		}
		s, t, in := im.SSE(r)
		ties += t
		if !in {
			return 0, 0, false, sure
		}
		sum += s
	}
	return 1 - sum/(MaxPixel*float64(im.W*im.H)), float64(ties) / float64(im.W*im.H), true, sure
}

// Halfway is how near to the middle between two pixels a corner may be rounded to either of them:
// circumcentres are kept in single precision.
const Halfway = 5e-3

// Ambiguous tells whether a coordinate may be rounded up or down.
func Ambiguous(x float64) bool { return ambiguous(x, Halfway) }

func ambiguous(x, within float64) bool { return math.Abs(x-math.Floor(x)-0.5) < within }

// CellTolerance is how far a corner of a cell of an image may be from the exact one.
func CellTolerance(w, h int) float64 {
	if h > w {
		w = h
	}
	return math.Max(Halfway, 2e-3+1e-5*float64(w))
}

// RoundCell rounds the corners of a cell to pixels (halves up). sure is false when a corner may be
// rounded either way.
func RoundCell(cell []FPt) (r []geom.Point, sure bool) { return roundCell(cell, Halfway) }

func roundCell(cell []FPt, within float64) (r []geom.Point, sure bool) {
	sure = true
	for _, v := range cell {
		if ambiguous(v.X, within) || ambiguous(v.Y, within) {
			sure = false
		}
		g := geom.Point{X: int(math.Floor(v.X + 0.5)), Y: int(math.Floor(v.Y + 0.5))}
		if len(r) == 0 || r[len(r)-1] != g {
			r = append(r, g)
		}
	}
	for len(r) > 1 && r[0] == r[len(r)-1] {
		r = r[:len(r)-1]
	}
	return r, sure
}

func convex(r []geom.Point) bool {
	pos, neg := false, false
	for i := range r {
		a, b, c := r[i], r[(i+1)%len(r)], r[(i+2)%len(r)]
		x := (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
		if x > 0 {
			pos = true
		}
		if x < 0 {
			neg = true
		}
	}
	return !(pos && neg)
}

// Exact tells whether the fitness functions represent a colour without a rounding error
// (the sum of the squares of its channels is truncated after a division and a multiplication by 255).
func Exact(c [3]int) bool {
	r, g, b := float64(c[0])/255, float64(c[1])/255, float64(c[2])/255
	got := uint32(r*255*r*255 + g*255*g*255 + b*255*b*255)
	return int(got) == c[0]*c[0]+c[1]*c[1]+c[2]*c[2]
}

// Palette makes exact colours only.
func Palette(n int) [][3]int {
	out := [][3]int{{0, 0, 0}, {255, 255, 255}, {255, 0, 0}, {0, 255, 0}, {0, 0, 255}}
	for i := 1; len(out) < n; i++ {
		c := [3]int{(i * 37) % 256, (i * 91) % 256, (i * 151) % 256}
		if Exact(c) {
			out = append(out, c)
		}
	}
	keep := [][3]int{}
	for _, c := range out {
		if Exact(c) {
			keep = append(keep, c)
		}
	}
	return keep
}

// Pattern makes an image of exact colours.
func Pattern(kind, w, h int) *Img {
	pal := Palette(40)
	grey := [][3]int{}
	for i := 0; i < 256; i++ {
		if c := [3]int{i, i, i}; Exact(c) {
			grey = append(grey, c)
		}
	}
	return NewImg(w, h, func(x, y int) [3]int {
		switch kind {
		case 0: // noise
			z := uint32(x*7919 + y*104729 + 12345)
			z ^= z >> 7
			z *= 2654435761
			z ^= z >> 15
			return pal[int(z%uint32(len(pal)))]
		case 1: // gradient
			return grey[(x*13+y*29)%len(grey)]
		case 2: // two halves
			if x*2 < w {
				return [3]int{0, 0, 0}
			}
			return [3]int{255, 255, 255}
		case 3: // white
			return [3]int{255, 255, 255}
		default: // one bright pixel per column
			if y == (x*x)%h {
				return [3]int{255, 0, 0}
			}
			return [3]int{0, 0, 255}
		}
	})
}
