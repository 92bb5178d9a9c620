package algo

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"verifmc/explore"
)

// land assigns a fitness to every group when it is first evaluated.
type land struct {
	memo map[string]float64
	vals []float64 // distinct, ascending
	mode string
	c    *explore.Ctx
	n    int

	// the fitness reported for a value v is base + v*scale: values may lie very close together, or far from 1
	base, scale float64
}

var scales = [][2]float64{{0, 1}, {1, 0x1p-40}, {-1, 0x1p-40}, {0, 0x1p-600}, {0, 0x1p900}, {0.75, 0x1p-26}, {-0.75, 0x1p-31}}

func newLand(c *explore.Ctx, mode string) *land {
	return &land{memo: map[string]float64{}, mode: mode, c: c, scale: 1}
}

func key(g group) string {
	b := make([]byte, 0, 16*len(g))
	for _, p := range g {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(p.X))
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(p.Y))
	}
	return string(b)
}

func (l *land) fit(_ int, d fitness.PointsData) float64 {
	k := key(d.Points)
	if v, ok := l.memo[k]; ok {
		return v
	}
	v := l.choose()
	l.memo[k] = l.base + v*l.scale
	i := sort.SearchFloat64s(l.vals, v)
	if i == len(l.vals) || l.vals[i] != v {
		l.vals = append(l.vals, 0)
		copy(l.vals[i+1:], l.vals[i:])
		l.vals[i] = v
	}
	return l.memo[k]
}

func (l *land) gap(i int) float64 { // a value between vals[i-1] and vals[i]
	n := len(l.vals)
	switch {
	case i == 0:
		return l.vals[0] - 1
	case i == n:
		return l.vals[n-1] + 1
	}
	return (l.vals[i-1] + l.vals[i]) / 2
}

func (l *land) choose() float64 {
	n := len(l.vals)
	if n == 0 {
		return []float64{-1, 1}[l.c.Choose(2)]
	}
	switch l.mode {
	case "all": // every weak order
		k := l.c.Choose(2*n + 1)
		if k%2 == 1 {
			return l.vals[k/2]
		}
		return l.gap(k / 2)
	case "order": // every strict order
		return l.gap(l.c.Choose(n + 1))
	case "coarse":
		switch l.c.Choose(4) {
		case 0:
			return l.gap(0)
		case 1:
			return l.vals[n-1]
		case 2:
			return l.gap(n)
		}
		return l.gap(n - 1)
	case "three":
		switch l.c.Choose(3) {
		case 0:
			return l.gap(0)
		case 1:
			return l.gap(n)
		}
		return l.gap(n - 1)
	case "flat":
		return l.vals[0]
	case "two":
		if l.c.Choose(2) == 0 {
			return l.gap(0)
		}
		return l.gap(n)
	}
	// a fixed arithmetic pattern, wrapped: "pattern a b m"
	var a, b, m int
	fmt.Sscanf(l.mode, "pattern %d %d %d", &a, &b, &m)
	l.n++
	return float64((l.n*a+b)%m) - float64(m)/2
}

// fresh hands out positions that are used only once.
type freshPts struct{ n int }

func (f *freshPts) next() normgeom.NormPoint {
	f.n++
	// fractions that no sum of differences gives back exactly
	return normgeom.NormPoint{X: float64(f.n) / 65521, Y: float64(f.n%977) / 1021}
}

// menu describes which subsets of points a mutation call may change.
var menus = map[string][][]int{
	"subsets2": {{}, {0}, {1}, {0, 1}},
	"singles2": {{0}, {1}},
	"one":      {{0}},
	"overlap3": {{0}, {0, 1}, {1, 2}, {0, 1, 2}},
	"subsets3": {{}, {0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}},
	"pair3":    {{0, 1}, {1, 2}},
	"maybe":    {{}, {0}},
	"bytes":    {{0, 255}, {256}, {255, 256, 299}, {63, 64, 65}, {31, 32, 127, 128}, {0}, span(0, 300), span(32, 300), {}},
	"words":    {{65535}, {65536, 0}, {69999, 65535}, {0, 4464}, {32767, 32768}, span(32760, 32776)},
}

func span(from, to int) (out []int) {
	for ; from < to; from++ {
		out = append(out, from)
	}
	return
}

type lcfg struct {
	acfg
	menu    string
	modes   []string // per round, the last one repeats
	orders  bool
	twins   bool // the initial groups are equal in pairs
	reverse bool // mutations are reported from the last point to the first
	stacked bool // the points of an initial group lie on each other
	onto    bool // every other mutation moves a point onto another of the group
	scale   int  // index of scales
	order   int  // 0: results arrive as submitted, 1: reversed, 2: from the middle, 3: in strides
}

func (l lcfg) name() string {
	s := l.acfg.String() + " menu " + l.menu + " fitness " + strings.Join(l.modes, "/")
	if l.orders {
		s += ", every order of results"
	}
	if l.twins {
		s += ", equal initial groups"
	}
	if l.reverse {
		s += ", reported backwards"
	}
	if l.stacked {
		s += ", points on each other"
	}
	if l.onto {
		s += ", moves onto other points"
	}
	if l.scale != 0 {
		s += fmt.Sprintf(", %g plus multiples of %g", scales[l.scale][0], scales[l.scale][1])
	}
	return s
}

func lineageItem(l lcfg, verify func(c *explore.Ctx, l lcfg, w *world)) explore.Item {
	return explore.Item{Name: l.name(), Run: func(c *explore.Ctx) {
		w := &world{}
		ld := newLand(c, l.modes[0])
		ld.base, ld.scale = scales[l.scale][0], scales[l.scale][1]
		fp := &freshPts{}
		w.fit = ld.fit
		menu := menus[l.menu]
		w.mutate = func(call int, points group) []mutation.Mutation {
			k := 0
			if strings.HasPrefix(ld.mode, "pattern") {
				k = call % len(menu)
			} else {
				k = c.Choose(len(menu))
			}
			ms := []mutation.Mutation{}
			for _, i := range menu[k] {
				m := mutation.Mutation{Old: points[i], New: fp.next(), Index: i}
				if l.onto && (call+i)%2 == 0 {
					m.New = points[len(points)-1]
					if i == len(points)-1 {
						m.New = points[0]
					}
				}
				ms = append(ms, m)
			}
			if l.reverse {
				for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
					ms[i], ms[j] = ms[j], ms[i]
				}
			}
			return ms
		}
		first := []group{}
		newGroup := func(k int) group {
			if l.twins && k%2 == 1 {
				return first[len(first)-1].Copy()
			}
			g := group{}
			for i := 0; i < l.points; i++ {
				if l.stacked && i > 0 {
					g = append(g, g[0])
					continue
				}
				g = append(g, fp.next())
			}
			first = append(first, g.Copy())
			return g
		}
		body := func() {
			al := l.construct(w, newGroup)
			for g := 0; g < l.gens; g++ {
				if g+1 < len(l.modes) {
					ld.mode = l.modes[g+1]
				}
				step(w, al)
			}
		}
		stride := 0
		switch {
		case l.orders:
			ordered(c, c.Choose, body)
		case l.order == 1:
			ordered(c, func(n int) int { return n - 1 }, body)
		case l.order == 2:
			ordered(c, func(n int) int { return n / 2 }, body)
		case l.order == 3:
			ordered(c, func(n int) int { stride += 5; return stride % n }, body)
		default:
			inline(c, body)
		}
		if c.Skipped() {
			return
		}
		h := explore.NewH()
		for g, r := range w.rounds {
			for _, e := range r.evals {
				h = h.F(e.fit)
				if c.Recording() {
					c.Logf("round %d: member %d %s fitness %v", g, e.slot, show(e.points), e.fit)
				}
			}
			for _, m := range r.muts {
				h = h.I(len(m.muts))
				if c.Recording() {
					c.Logf("round %d: mutated %s to %s", g, show(m.pre), show(m.post))
				}
			}
			if c.Recording() {
				c.Logf("round %d: best %s, %v", g, show(r.best), r.stats)
			}
			c.State(h.Sum())
		}
		c.Outcome(h.Sum())
		verify(c, l, w)
	}}
}

func show(g group) string {
	s := []string{}
	for _, p := range g {
		s = append(s, fmt.Sprint(int(p.X*65521+.5)))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// C01

func verifyBest(c *explore.Ctx, l lcfg, w *world) {
	for g := 1; g < len(w.rounds); g++ {
		c.Eval(1)
		if a, b := w.rounds[g-1].stats.BestFitness, w.rounds[g].stats.BestFitness; b < a || b != b {
			c.Fail("the best fitness fell from %v to %v in generation %d", a, b, g)
		}
	}
}

// C02

func verifyReported(c *explore.Ctx, l lcfg, w *world) {
	for g, r := range w.rounds {
		c.Eval(1)
		if r.stats.Generation != g {
			c.Fail("%d generations were run, %d are reported", g, r.stats.Generation)
		}
		found, max := false, 0.
		for i, e := range r.evals {
			if i == 0 || e.fit > max {
				max = e.fit
			}
			if e.fit == r.stats.BestFitness && key(e.points) == key(r.best) {
				found = true
			}
		}
		if len(r.evals) == 0 {
			c.Fail("no member was evaluated in round %d", g)
		}
		if r.stats.BestFitness != max {
			c.Fail("round %d: the best fitness is reported as %v, the fittest member evaluated has %v", g, r.stats.BestFitness, max)
		}
		if !found {
			c.Fail("round %d: the best group %s with fitness %v is no member that was evaluated with this fitness", g, show(r.best), r.stats.BestFitness)
		}
	}
	// unevaluated members never survive: the unchanged members of a round were evaluated before
	for g := 1; g < len(w.rounds); g++ {
		prev := map[string]bool{}
		for _, e := range w.rounds[g-1].evals {
			prev[key(e.points)] = true
		}
		for _, m := range w.rounds[g].muts {
			if !prev[key(m.pre)] {
				c.Fail("generation %d: %s became a parent without having been evaluated", g, show(m.pre))
			}
		}
	}
}

type member struct {
	g group
	f float64
}

// split sorts the evaluations of a round into parents and combined members, for a choice of the
// parents among members of equal fitness. It returns every possibility.
func split(prev, cur *round, cutoff int, exact bool) (parents [][]member, rest [][]evalRec, why string) {
	// the evaluations that are no mutants
	mut := map[string]int{}
	for _, m := range cur.muts {
		mut[key(m.post)]++
	}
	other := []evalRec{}
	for _, e := range cur.evals {
		if k := key(e.points); mut[k] > 0 {
			mut[k]--
		} else {
			other = append(other, e)
		}
	}
	for _, m := range cur.muts {
		if mut[key(m.post)] > 0 {
			return nil, nil, fmt.Sprintf("the mutated member %s was not evaluated", show(m.post))
		}
	}
	ms := []member{}
	for _, e := range prev.evals {
		ms = append(ms, member{e.points, e.fit})
	}
	if len(ms) < cutoff {
		return nil, nil, "fewer members than parents"
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].f > ms[j].f })
	bound := ms[cutoff-1].f
	sure, tied := []member{}, []member{}
	for _, m := range ms {
		if m.f > bound {
			sure = append(sure, m)
		} else if m.f == bound {
			tied = append(tied, m)
		}
	}
	// of the tied ones, only members evaluated again can be parents
	avail := map[string]int{}
	for _, e := range other {
		avail[key(e.points)]++
	}
	for _, m := range sure {
		avail[key(m.g)]--
	}
	kept := tied[:0]
	for _, m := range tied {
		if k := key(m.g); avail[k] > 0 {
			avail[k]--
			kept = append(kept, m)
		}
	}
	tied = kept
	seen := map[string]bool{}
	var rec func(i int, sel []member)
	rec = func(i int, sel []member) {
		if len(sel) == cutoff {
			left := map[string]int{}
			ks := []string{}
			for _, m := range sel {
				left[key(m.g)]++
				ks = append(ks, key(m.g))
			}
			sort.Strings(ks)
			sig := strings.Join(ks, "|")
			if seen[sig] {
				return
			}
			seen[sig] = true
			r := []evalRec{}
			for _, e := range other {
				if k := key(e.points); left[k] > 0 {
					left[k]--
				} else {
					r = append(r, e)
				}
			}
			for _, n := range left {
				if n > 0 {
					return
				}
			}
			parents = append(parents, append([]member{}, sel...))
			rest = append(rest, r)
			return
		}
		if i == len(tied) {
			return
		}
		rec(i+1, append(sel[:len(sel):len(sel)], tied[i]))
		rec(i+1, sel)
	}
	rec(0, sure)
	if len(parents) == 0 {
		return nil, nil, fmt.Sprintf("the unchanged members evaluated are not the %d fittest of the previous round", cutoff)
	}
	return
}

// balanced tells whether the parents took turns.
func balanced(parents []member, cur *round) (bool, string) {
	n := len(cur.muts)
	lo := n / len(parents)
	hi := lo
	if n%len(parents) != 0 {
		hi++
	}
	mult := map[string]int{}
	for _, p := range parents {
		mult[key(p.g)]++
	}
	kids := map[string]int{}
	for _, m := range cur.muts {
		k := key(m.pre)
		if mult[k] == 0 {
			return false, fmt.Sprintf("%s was mutated, but is no parent", show(m.pre))
		}
		kids[k]++
	}
	for k, m := range mult {
		if kids[k] < m*lo || kids[k] > m*hi {
			return false, fmt.Sprintf("%d of %d children have the same %d of %d parents", kids[k], n, m, len(parents))
		}
	}
	return true, ""
}

// combination checks the combined members.
func combination(parents []member, rest []evalRec, cur *round, l lcfg, fits map[string]float64) (bool, string) {
	if l.alg != "mg" {
		if len(rest) > 0 {
			return false, fmt.Sprintf("%s is neither a parent nor a mutated member", show(rest[0].points))
		}
		return true, ""
	}
	type expect struct {
		base    group
		choices map[int][]normgeom.NormPoint
	}
	wants := []expect{}
	for _, p := range parents {
		best := map[int]float64{}
		ch := map[int][]normgeom.NormPoint{}
		for _, m := range cur.muts {
			f := fits[key(m.post)]
			if key(m.pre) != key(p.g) || !(f > p.f) {
				continue
			}
			for _, x := range m.muts {
				if b, ok := best[x.Index]; !ok || f > b {
					best[x.Index] = f
					ch[x.Index] = []normgeom.NormPoint{x.New}
				} else if f == b {
					ch[x.Index] = append(ch[x.Index], x.New)
				}
			}
		}
		if len(ch) > 0 {
			wants = append(wants, expect{p.g, ch})
		}
	}
	if len(wants) != len(rest) {
		return false, fmt.Sprintf("%d bases have fitter mutated copies, %d combined members were evaluated", len(wants), len(rest))
	}
	used := make([]bool, len(rest))
	for _, x := range wants {
		ok := false
		why := ""
		for i, e := range rest {
			if used[i] {
				continue
			}
			good := len(e.points) == len(x.base)
			for j := 0; good && j < len(x.base); j++ {
				if ch := x.choices[j]; ch == nil {
					good = e.points[j] == x.base[j]
				} else {
					good = false
					for _, p := range ch {
						good = good || p == e.points[j]
					}
				}
			}
			if !good {
				continue
			}
			// the mutations passed along lead from the base to the member
			if len(e.muts) != len(x.choices) {
				why = fmt.Sprintf(": evaluated with %d mutations for %d changed points", len(e.muts), len(x.choices))
				continue
			}
			for _, m := range e.muts {
				if m.Index < 0 || m.Index >= len(x.base) || x.choices[m.Index] == nil || m.Old != x.base[m.Index] || m.New != e.points[m.Index] {
					why = fmt.Sprintf(": evaluated with the mutation %v", m)
					good = false
				}
			}
			if good {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return false, fmt.Sprintf("no evaluated member combines the beneficial mutations of %s%s", show(x.base), why)
		}
	}
	return true, ""
}

func distinctGroups(ps []member) bool {
	seen := map[string]bool{}
	for _, p := range ps {
		if seen[key(p.g)] {
			return false
		}
		seen[key(p.g)] = true
	}
	return true
}

// C05 and C06

func verifyLineage(combine bool) func(c *explore.Ctx, l lcfg, w *world) {
	return func(c *explore.Ctx, l lcfg, w *world) {
		made := map[string]int{}
		for _, g := range w.created {
			made[key(g)]++
		}
		if !combine {
			for _, e := range w.rounds[0].evals {
				if made[key(e.points)]--; made[key(e.points)] < 0 {
					c.Fail("the initial member %s was not generated, or evaluated twice", show(e.points))
				}
			}
		}
		for g := 1; g < len(w.rounds); g++ {
			prev, cur := w.rounds[g-1], w.rounds[g]
			fits := map[string]float64{}
			for _, e := range cur.evals {
				fits[key(e.points)] = e.fit
			}
			ps, rs, why := split(prev, cur, l.cutoff, true)
			if ps == nil {
				if combine {
					continue // lineage itself is the other property
				}
				c.Fail("generation %d: %s", g, why)
			}
			okAny, whyAny := false, ""
			judged := false
			for i, p := range ps {
				if ok, why := balanced(p, cur); !ok {
					whyAny = why
					continue
				}
				if !combine {
					okAny = true
					break
				}
				if !distinctGroups(p) {
					okAny = true // children cannot be told apart
					break
				}
				judged = true
				ok, why := combination(p, rs[i], cur, l, fits)
				if ok {
					okAny = true
					break
				}
				whyAny = why
			}
			if combine {
				if judged {
					c.Eval(1)
				}
				if judged && !okAny {
					c.Fail("generation %d: %s", g, whyAny)
				}
				continue
			}
			c.Eval(1)
			if !okAny {
				c.Fail("generation %d: %s", g, whyAny)
			}
			want := l.size - l.cutoff
			if l.alg == "mg" {
				want -= l.cutoff
			}
			if len(cur.muts) != want {
				c.Fail("generation %d: %d members were mutated instead of %d", g, len(cur.muts), want)
			}
			// whatever else was evaluated combines changes of children
			for _, m := range cur.muts {
				if len(m.pre) != l.points {
					c.Fail("a group has %d points instead of %d", len(m.pre), l.points)
				}
			}
			pos := map[normgeom.NormPoint]bool{}
			for _, e := range prev.evals {
				for _, p := range e.points {
					pos[p] = true
				}
			}
			for _, m := range cur.muts {
				for _, x := range m.muts {
					pos[x.New] = true
				}
			}
			for _, e := range cur.evals {
				if len(e.points) != l.points {
					c.Fail("a group has %d points instead of %d", len(e.points), l.points)
				}
				for _, p := range e.points {
					if !pos[p] {
						c.Fail("generation %d: the point %v of an evaluated member comes from nowhere", g, p)
					}
				}
			}
			// members handed over with their changes
			with := map[string][]int{}
			for i, e := range cur.evals {
				with[key(e.points)] = append(with[key(e.points)], i)
			}
			for _, m := range cur.muts {
				ok := len(m.muts) == 0
				for _, i := range with[key(m.post)] {
					ok = ok || sameMuts(cur.evals[i].muts, m.muts)
				}
				if !ok {
					c.Fail("generation %d: the mutated member %s was not evaluated with its %d mutations", g, show(m.post), len(m.muts))
				}
			}
		}
	}
}

func sameMuts(a, b []mutation.Mutation) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[mutation.Mutation]int{}
	for _, m := range a {
		n[m]++
	}
	for _, m := range b {
		n[m]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

func lineageConfigs(tier string) []lcfg {
	mg := func(size, cutoff, points, gens int) acfg { return acfg{"mg", size, cutoff, points, gens} }
	si := func(size, cutoff, points, gens int) acfg { return acfg{"simple", size, cutoff, points, gens} }
	cs := []lcfg{
		{acfg: mg(3, 1, 2, 1), menu: "subsets2", modes: []string{"all"}},
		{acfg: mg(4, 1, 2, 1), menu: "subsets2", modes: []string{"order", "all"}},
		{acfg: mg(3, 1, 2, 2), menu: "subsets2", modes: []string{"order", "all"}},
		{acfg: mg(4, 1, 2, 2), menu: "singles2", modes: []string{"flat", "all", "coarse"}},
		{acfg: mg(4, 1, 2, 3), menu: "one", modes: []string{"flat", "coarse", "three"}},
		{acfg: mg(3, 1, 2, 4), menu: "singles2", modes: []string{"flat", "three"}},
		{acfg: mg(5, 1, 3, 1), menu: "overlap3", modes: []string{"flat", "order"}},
		{acfg: mg(5, 1, 3, 1), menu: "pair3", modes: []string{"flat", "all"}, reverse: true},
		{acfg: mg(5, 1, 3, 1), menu: "pair3", modes: []string{"flat", "all"}, stacked: true},
		{acfg: mg(4, 1, 2, 2), menu: "singles2", modes: []string{"flat", "all", "coarse"}, stacked: true},
		{acfg: mg(5, 1, 3, 1), menu: "overlap3", modes: []string{"flat", "order"}, onto: true},
		{acfg: mg(4, 1, 2, 2), menu: "singles2", modes: []string{"flat", "all", "coarse"}, onto: true},
		{acfg: si(4, 2, 2, 2), menu: "singles2", modes: []string{"order", "three"}, onto: true},
		{acfg: mg(4, 2, 2, 2), menu: "one", modes: []string{"all", "all"}},
		{acfg: mg(5, 2, 2, 2), menu: "subsets2", modes: []string{"all", "three"}},
		{acfg: mg(6, 2, 2, 1), menu: "singles2", modes: []string{"order", "all"}},
		{acfg: mg(6, 2, 2, 2), menu: "one", modes: []string{"two", "coarse", "three"}},
		{acfg: mg(7, 2, 2, 1), menu: "singles2", modes: []string{"two", "three"}},
		{acfg: mg(7, 2, 2, 2), menu: "one", modes: []string{"two", "three", "two"}},
		{acfg: mg(9, 3, 2, 1), menu: "singles2", modes: []string{"two", "three"}},
		{acfg: mg(8, 3, 2, 3), menu: "one", modes: []string{"two", "two"}},
		{acfg: mg(5, 2, 2, 4), menu: "one", modes: []string{"two", "coarse"}},
		{acfg: mg(6, 2, 2, 2), menu: "maybe", modes: []string{"two", "two"}, twins: true},
		{acfg: mg(4, 1, 2, 1), menu: "singles2", modes: []string{"flat", "all"}, orders: true},
		{acfg: mg(5, 1, 2, 1), menu: "singles2", modes: []string{"flat", "three"}, orders: true},
		{acfg: mg(6, 2, 2, 1), menu: "one", modes: []string{"two", "two"}, orders: true},
		{acfg: si(3, 1, 2, 1), menu: "subsets2", modes: []string{"all"}},
		{acfg: si(3, 1, 2, 3), menu: "one", modes: []string{"order", "three"}},
		{acfg: si(4, 2, 2, 2), menu: "singles2", modes: []string{"order", "three"}},
		{acfg: si(5, 2, 2, 2), menu: "one", modes: []string{"two", "three"}},
		{acfg: si(5, 3, 2, 2), menu: "one", modes: []string{"order", "coarse"}},
		{acfg: si(7, 3, 2, 2), menu: "one", modes: []string{"two", "two"}},
		{acfg: si(2, 2, 2, 2), menu: "one", modes: []string{"all"}},
		{acfg: si(1, 1, 2, 2), menu: "one", modes: []string{"all"}},
		{acfg: mg(2, 1, 2, 3), menu: "one", modes: []string{"all"}},
		{acfg: si(4, 2, 2, 2), menu: "maybe", modes: []string{"two", "two"}, twins: true},
		{acfg: si(4, 1, 2, 1), menu: "one", modes: []string{"two", "two"}, orders: true},
	}
	if tier == "thorough" {
		cs = append(cs,
			lcfg{acfg: mg(4, 1, 2, 2), menu: "subsets2", modes: []string{"order", "coarse", "coarse"}},
			lcfg{acfg: mg(4, 1, 2, 3), menu: "singles2", modes: []string{"flat", "three"}},
			lcfg{acfg: mg(5, 1, 3, 1), menu: "subsets3", modes: []string{"flat", "all"}},
			lcfg{acfg: mg(6, 2, 2, 2), menu: "singles2", modes: []string{"two", "three"}},
			lcfg{acfg: mg(5, 2, 2, 3), menu: "singles2", modes: []string{"two", "three"}},
			lcfg{acfg: mg(6, 1, 2, 1), menu: "singles2", modes: []string{"flat", "two"}, orders: true},
			lcfg{acfg: mg(4, 1, 2, 2), menu: "singles2", modes: []string{"flat", "three"}, orders: true},
			lcfg{acfg: si(5, 2, 2, 3), menu: "singles2", modes: []string{"two", "three"}},
			lcfg{acfg: si(4, 2, 2, 3), menu: "singles2", modes: []string{"order", "three"}},
		)
	}
	return cs
}

// patternItems run larger populations with many arithmetic patterns of fitnesses.
func patternItems(tier string, verify func(c *explore.Ctx, l lcfg, w *world)) []explore.Item {
	out := []explore.Item{}
	big := []acfg{{"mg", 600, 3, 3, 2}, {"mg", 70, 33, 3, 2}, {"simple", 300, 17, 3, 2}, {"simple", 400, 5, 3, 2}, {"simple", 1100, 9, 3, 2}, {"mg", 1500, 2, 3, 2}, {"mg", 6, 1, 300, 4}, {"mg", 24, 2, 300, 3}, {"simple", 9, 2, 300, 3}, {"mg", 5, 1, 70000, 2}, {"mg", 4, 1, 3, 300}, {"mg", 7, 2, 3, 300}, {"simple", 4, 1, 3, 300}}
	for _, a := range big {
		a := a
		out = append(out, explore.Item{Name: a.String() + " with some arithmetic patterns of fitnesses", Run: func(c *explore.Ctx) {
			menu := []string{"overlap3"}
			if a.points == 300 {
				menu = []string{"bytes"}
			}
			if a.points > 300 {
				menu = []string{"words"}
			}
			m := []int{17, 1009}[c.Choose(2)]
			st := []int{1, 3, 10, -1, -4}[c.Choose(5)]
			order := c.Choose(4)
			if c.Skipped() {
				return
			}
			l := lcfg{acfg: a, menu: menu[0], modes: []string{fmt.Sprintf("pattern %d %d %d", st*7, 5, m)}, order: order, scale: (order + st + 4) % len(scales)}
			lineageItem(l, verify).Run(c)
		}})
	}
	for _, a := range []acfg{{"mg", 14, 2, 3, 3}, {"mg", 17, 5, 3, 3}, {"mg", 30, 4, 3, 4}, {"mg", 60, 7, 3, 3}, {"simple", 13, 3, 3, 3}, {"simple", 40, 5, 3, 3}, {"mg", 24, 12, 3, 3}, {"mg", 25, 8, 3, 3}, {"simple", 20, 19, 3, 3}} {
		a := a
		if tier == "thorough" {
			a.gens += 3
		}
		out = append(out, explore.Item{Name: a.String() + " with arithmetic patterns of fitnesses", Run: func(c *explore.Ctx) {
			m := []int{3, 17, 101, 1009}[c.Choose(4)]
			st := 1 + c.Choose(16)
			b := c.Choose(6) * 5
			menu := []string{"overlap3", "pair3", "subsets3"}[c.Choose(3)]
			if c.Skipped() {
				return
			}
			l := lcfg{acfg: a, menu: menu, modes: []string{fmt.Sprintf("pattern %d %d %d", st*7, b, m)}, order: b % 4, scale: (b/5 + st) % len(scales)}
			lineageItem(l, verify).Run(c)
		}})
	}
	return out
}

var _ = algorithm.Stats{}

func register(id string, verify func(c *explore.Ctx, l lcfg, w *world), keep func(l lcfg) bool) {
	explore.Register(&explore.Check{
		ID:     id,
		Bounds: "every outcome of the mutations among the listed menus, every assignment of fitnesses of the listed kinds, every order of results where listed, for each population, cutoff and number of generations",
		Items: func(tier string) []explore.Item {
			items := []explore.Item{}
			for i, l := range lineageConfigs(tier) {
				l.scale = i % len(scales)
				if keep == nil || keep(l) {
					items = append(items, lineageItem(l, verify))
				}
			}
			if id == "C02" {
				items = append(items, timeItems(tier)...)
			}
			return append(items, patternItems(tier, verify)...)
		},
	})
}

func init() {
	register("C01", verifyBest, nil)
	register("C02", verifyReported, nil)
	register("C05", verifyLineage(true), func(l lcfg) bool { return l.alg == "mg" })
	register("C06", verifyLineage(false), nil)
}
