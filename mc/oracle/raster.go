package oracle

import "github.com/RH12503/Triangula/geom"

func floorDiv(a, b int) int {
	if b < 0 {
		a, b = -a, -b
	}
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

// edgeX is the exact x of the line a-b at row y, as a fraction.
func edgeX(a, b geom.Point, y int) (num, den int) {
	den = b.Y - a.Y
	num = a.X*den + (b.X-a.X)*(y-a.Y)
	if den < 0 {
		num, den = -num, -den
	}
	return
}

// Row is one row of the reference: for every row from the top vertex to just above the bottom one, the
// pixels from the left border to just before the right border, both rounded down. A border that
// crosses the row exactly at a pixel boundary may be rounded to either side: exact is false then.
type Row struct {
	Lo, Hi   int
	Lox, Hix bool // exact multiples: may be one less
}

// ConvexRows is the reference raster of a convex polygon.
func ConvexRows(v []geom.Point) map[int]Row {
	miny, maxy := v[0].Y, v[0].Y
	for _, p := range v {
		if p.Y < miny {
			miny = p.Y
		}
		if p.Y > maxy {
			maxy = p.Y
		}
	}
	out := map[int]Row{}
	for y := miny; y < maxy; y++ {
		var r Row
		first := true
		var ln, ld, hn, hd int
		var ls, hs bool
		for i := range v {
			a, b := v[i], v[(i+1)%len(v)]
			if a.Y == b.Y || y < a.Y && y < b.Y || y > a.Y && y > b.Y {
				// a flat border on this row bounds it at its ends, which other borders touch
				continue
			}
			n, d := edgeX(a, b, y)
			// slopes with a power of two as denominator have no rounding error
			den := abs(a.Y-b.Y) / gcd(abs(a.Y-b.Y), abs(a.X-b.X))
			slack := den&(den-1) != 0 && n%d == 0 && y != a.Y && y != b.Y
			if first || n*ld < ln*d {
				ln, ld, ls = n, d, slack
			}
			if first || n*hd > hn*d {
				hn, hd, hs = n, d, slack
			}
			first = false
		}
		if first {
			continue
		}
		r.Lo, r.Hi, r.Lox, r.Hix = floorDiv(ln, ld), floorDiv(hn, hd), ls, hs
		out[y] = r
	}
	return out
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
