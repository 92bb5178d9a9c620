// Package sched explores the schedules of the real algorithms: the orders in which the tasks of a generation run,
// and delays of any thread at the points woven into the code, while the race detector watches each execution.
package sched

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/panjf2000/ants/v2"
	"verifmc/explore"
	"verifmc/oracle"
	"verifmc/vpt"
)

type group = normgeom.NormPointGroup
type np = normgeom.NormPoint

// The threads of an execution: 0 is the one that runs the algorithm, the others are tasks in the order of
// their submission. The tables are only touched by functions the race detector does not see, so that
// they neither order the threads nor count as shared memory.

const (
	maxThreads = 64
	maxSites   = 1024
	unit       = 100 * time.Millisecond
)

type delay struct {
	thread, site, occ int
	d                 time.Duration
}

type position struct{ thread, site, occ int }

var (
	selfs     [maxThreads]uintptr
	occs      [maxThreads][maxSites]uint8
	nThreads  int
	plan      [4]delay
	nPlan     int
	hits      int
	keep      int // occurrences of a site kept per thread while calibrating
	positions [1 << 15]position
	nPos      int
	submitted int
	inRound   int
	roundNo   int
	perms     [8][8]int
	nPerms    int

	stride, crowd int // the order of many tasks
)

//go:norace
func setStride(s, n int) { stride, crowd = s, n }

//go:norace
func reset() {
	nThreads, nPlan, hits, keep, nPos, submitted, inRound, roundNo, nPerms = 0, 0, 0, 0, 0, 0, 0, 0, 0
	stride = 0
}

//go:norace
func enter(id int) {
	if id >= maxThreads {
		return
	}
	for i := range selfs {
		if selfs[i] == vpt.Self() {
			selfs[i] = 0
		}
	}
	selfs[id] = vpt.Self()
	for i := range occs[id] {
		occs[id][i] = 0
	}
	if id >= nThreads {
		nThreads = id + 1
	}
}

//go:norace
func point(site int) {
	if keep == 0 && nPlan == 0 {
		return
	}
	g := vpt.Self()
	t := -1
	for i := 0; i < nThreads; i++ {
		if selfs[i] == g {
			t = i
		}
	}
	if t < 0 || site >= maxSites {
		return
	}
	o := int(occs[t][site])
	if o < 255 {
		occs[t][site]++
	}
	if o < keep && nPos < len(positions) {
		positions[nPos] = position{t, site, o}
		nPos++
	}
	for i := 0; i < nPlan; i++ {
		if p := &plan[i]; p.thread == t && p.site == site && p.occ == o {
			hits++
			time.Sleep(p.d)
		}
	}
}

// next numbers a submitted task and tells how long it waits before it starts.
//
//go:norace
func next() (id int, wait time.Duration) {
	submitted++
	slot := inRound
	if stride != 0 {
		// in strides, or backwards; all at different times
		wait = time.Duration((inRound*stride%crowd+crowd)%crowd+1)*unit + time.Duration(inRound)*time.Millisecond
		inRound++
		return submitted, wait
	}
	if roundNo < nPerms && inRound < 8 {
		slot = perms[roundNo][inRound]
	}
	inRound++
	return submitted, time.Duration(slot+1) * unit
}

//go:norace
func startRound(r int) { roundNo, inRound = r, 0 }

//go:norace
func addDelay(d delay) { plan[nPlan] = d; nPlan++ }

//go:norace
func setPerm(r, i, v int) {
	perms[r][i] = v
	if r >= nPerms {
		nPerms = r + 1
	}
}

//go:norace
func calibrate(k int) { keep = k }

//go:norace
func kept() []position { return append([]position{}, positions[:nPos]...) }

// cfg is a configuration of the system.
type cfg struct {
	alg          string
	size, cutoff int
	points, gens int
	kind         string // tri, poly or plain
	cache        int
	w, h, block  int
	seed         int
}

func (c cfg) String() string {
	return fmt.Sprintf("%s %s, population %d cutoff %d, %d points, %d generations, cache of %d, image %dx%d, variant %d", c.alg, c.kind, c.size, c.cutoff, c.points, c.gens, 1<<c.cache, c.w, c.h, c.seed)
}

func (c cfg) tasks() int {
	if c.alg == "mg" {
		return c.size - c.cutoff
	}
	return c.size
}

// probe is a fitness function that notes its calls; each instance belongs to one use of a member.
type probe struct {
	inner  fitness.Function
	slot   int
	calls  int
	points string
	fit    float64
}

func (p *probe) Calculate(d fitness.PointsData) float64 {
	p.calls++
	p.points = key(d.Points)
	p.fit = p.inner.Calculate(d)
	return p.fit
}

func key(g group) string {
	var b strings.Builder
	for _, p := range g {
		fmt.Fprintf(&b, "%x,%x ", math.Float64bits(p.X), math.Float64bits(p.Y))
	}
	return b.String()
}

// plain is a fitness function without shared data.
type plain struct{}

func (plain) Calculate(d fitness.PointsData) float64 {
	vpt.P(1000)
	s := 0.
	for i, p := range d.Points {
		vpt.P(1001)
		s -= (p.X-0.31)*(p.X-0.31)*float64(i+1) + (p.Y-0.6)*(p.Y-0.6)
	}
	vpt.P(1002)
	for _, m := range d.Mutations {
		s -= 1e-3 * math.Abs(m.New.X-m.Old.X)
	}
	return s
}

// scratch is a fitness function that works in memory of its own.
type scratch struct {
	plain
	seen []normgeom.NormPoint
}

func (s *scratch) Calculate(d fitness.PointsData) float64 {
	s.seen = append(s.seen[:0], d.Points...)
	d.Points = s.seen
	return s.plain.Calculate(d)
}

type watched struct {
	evaluator.Evaluator
	used []*probe
}

func (w *watched) Get(i int) fitness.Function {
	p := &probe{inner: w.Evaluator.Get(i), slot: i}
	w.used = append(w.used, p)
	return p
}

// variant is a mutation method with a fixed sequence of moves.
type variant struct {
	state uint32
	seen  []string
}

func (v *variant) next() float64 {
	v.state = v.state*1664525 + 1013904223
	return float64(v.state>>8) / (1 << 24)
}

func (v *variant) Mutate(points group, mutated func(mutation.Mutation)) {
	v.seen = append(v.seen, key(points))
	n := 1 + int(v.next()*2)
	for i := 0; i < n; i++ {
		k := (int(v.next()*float64(len(points))) + i) % len(points)
		if i > 0 && k == 0 {
			k = len(points) - 1
		}
		if i > 0 {
			break
		}
		old := points[k]
		points[k] = np{X: v.next(), Y: v.next()}
		mutated(mutation.Mutation{Old: old, New: points[k], Index: k})
	}
}

type result struct {
	rounds []string
	ties   bool
	text   []string
}

// run executes the configuration under the current plan.
func run(c *explore.Ctx, f cfg) (res result) {
	vpt.Epoch++
	var fail interface{}
	finished := false
	synctest.Test(c.T, func(t *testing.T) {
		ants.SubmitHook = func(task func()) {
			id, wait := next()
			go func() {
				enter(id)
				time.Sleep(wait)
				task()
			}()
		}
		vpt.PointHook = point
		vpt.GoHook = func(g func()) {
			id, _ := next()
			go func() {
				enter(id)
				g()
			}()
		}
		go func() {
			enter(0)
			defer func() {
				fail = recover()
				finished = true
			}()
			res = body(f)
		}()
		time.Sleep(1000 * time.Hour)
		synctest.Wait()
		if !finished {
			panic("the generation never finishes: every thread is blocked")
		}
	})
	ants.SubmitHook, vpt.PointHook, vpt.GoHook = nil, nil, nil
	if fail != nil {
		panic(fail)
	}
	return
}

func body(f cfg) (res result) {
	w := &watched{}
	v := &variant{state: uint32(f.seed*7919 + 17)}
	k := 0
	factory := func() group {
		g := group{}
		for i := 0; i < f.points; i++ {
			k++
			g = append(g, np{X: math.Mod(float64(k+f.seed*5)*0.6180339887, 1), Y: math.Mod(float64(k)*0.7548776662, 1)})
		}
		return g
	}
	evaluators := func(n int) evaluator.Evaluator {
		im := oracle.Pattern(0, f.w, f.h)
		switch f.kind {
		case "tri":
			w.Evaluator = evaluator.NewParallel(fitness.TrianglesImageFunctions(im, f.block, n), f.cache)
		case "poly":
			w.Evaluator = evaluator.NewParallel(fitness.PolygonsImageFunctions(im, f.block, n), f.cache)
		case "many":
			w.Evaluator = evaluator.NewMany(func() fitness.Function { return &scratch{} }, n)
		default:
			w.Evaluator = evaluator.NewOne(plain{})
		}
		return w
	}
	note := func(al algorithm.Algorithm) {
		evals := []string{}
		ps := append([]*probe{}, w.used...)
		for _, p := range w.used {
			evals = append(evals, fmt.Sprintf("%d calls, slot %d, points %s, fitness %.9f", p.calls, p.slot, p.points, p.fit))
		}
		sort.Strings(evals)
		sort.Slice(ps, func(i, j int) bool { return ps[i].fit < ps[j].fit })
		for i := 1; i < len(ps); i++ {
			if ps[i].fit-ps[i-1].fit < 1e-9 && ps[i].points != ps[i-1].points {
				res.ties = true
			}
		}
		s := al.Stats()
		res.rounds = append(res.rounds, fmt.Sprintf("generation %d, best %.9f %s\nevaluated:\n %s\nmutated:\n %s", s.Generation, s.BestFitness, key(al.Best()), strings.Join(evals, "\n "), strings.Join(v.seen, "\n ")))
		res.text = append(res.text, fmt.Sprintf("generation %d: best %.9f of %d", s.Generation, s.BestFitness, len(evals)))
		w.used, v.seen = nil, nil
	}
	startRound(0)
	var al algorithm.Algorithm
	if f.alg == "mg" {
		al = algorithm.NewModifiedGenetic(factory, f.size, f.cutoff, evaluators, v)
	} else {
		al = algorithm.NewSimple(factory, f.size, f.cutoff, evaluators, v)
	}
	note(al)
	for g := 0; g < f.gens; g++ {
		startRound(g + 1)
		al.Step()
		note(al)
	}
	return
}

type base struct {
	res result
	pos []position
}

var bases = map[cfg]*base{}

// reference is the execution in which the tasks run one after the other in the order of their submission.
func reference(c *explore.Ctx, f cfg, occ int) *base {
	b := bases[f]
	if b == nil {
		reset()
		calibrate(occ)
		b = &base{res: run(c, f)}
		b.pos = kept()
		reset()
		bases[f] = b
		if os.Getenv("VMC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, f.String(), "ties", b.res.ties, "positions", len(b.pos))
		}
	}
	return b
}

func compare(c *explore.Ctx, f cfg, want, got result) {
	c.Eval(len(want.rounds))
	h := explore.NewH()
	for i := range want.rounds {
		if i >= len(got.rounds) || want.rounds[i] != got.rounds[i] {
			c.Fail("round %d depends on the schedule:\n%s\ninstead of:\n%s", i, got.rounds[i], want.rounds[i])
		}
		h = h.S(got.rounds[i])
	}
	c.Outcome(h.Sum())
	for _, t := range got.text {
		c.Logf("%s", t)
	}
}

func permutation(c *explore.Ctx, n int) []int {
	left := []int{}
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	out := []int{}
	for len(left) > 0 {
		k := c.Choose(len(left))
		out = append(out, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return out
}

// ordersItem explores every order of the tasks of every generation.
func ordersItem(f cfg) explore.Item {
	return explore.Item{Name: "orders: " + f.String(), Run: func(c *explore.Ctx) {
		ps := [][]int{}
		for r := 0; r <= f.gens; r++ {
			ps = append(ps, permutation(c, f.tasks()))
		}
		if c.Skipped() {
			return
		}
		b := reference(c, f, 2)
		if b.res.ties {
			return
		}
		reset()
		for r, p := range ps {
			for i, v := range p {
				setPerm(r, i, v)
			}
		}
		c.Logf("orders %v", ps)
		compare(c, f, b.res, run(c, f))
		c.State(explore.NewH().S(fmt.Sprint(ps)).Sum())
	}}
}

// crowdItem explores orders of many tasks: one after the other, backwards and in every stride up to a bound.
func crowdItem(f cfg, strides int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("many tasks, strides up to %d: %s", strides, f), Run: func(c *explore.Ctx) {
		s := 1 + c.Choose(strides)
		if c.Choose(2) == 1 {
			s = -s
		}
		if c.Skipped() {
			return
		}
		// without ties, which the order of the tasks may decide
		f := f
		b := reference(c, f, 0)
		for i := 0; i < 20 && b.res.ties; i++ {
			f.seed += 10
			b = reference(c, f, 0)
		}
		if b.res.ties {
			panic("ties")
		}
		reset()
		setStride(s, f.tasks())
		c.Logf("stride %d", s)
		compare(c, f, b.res, run(c, f))
		c.State(explore.NewH().S(f.String()).I(s).Sum())
	}}
}

// delaysItem explores every placement of a number of delays, with a few orders of the tasks.
func delaysItem(f cfg, bound, occ, orders, stride int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("%d delays, first %d executions of a statement, %d orders, %s", bound, occ, orders, f), Run: func(c *explore.Ctx) {
		b := reference(c, f, occ)
		if b.res.ties {
			return
		}
		n := f.tasks()
		o := c.Choose(orders)
		ds := []delay{}
		lo := 0
		for i := 0; i < bound; i++ {
			left := (len(b.pos) - lo + stride - 1) / stride
			if left == 0 {
				return
			}
			at := lo + c.Choose(left)*stride
			k := 1 + c.Choose(n)
			p := b.pos[at]
			ds = append(ds, delay{p.thread, p.site, p.occ, time.Duration(k)*unit + unit/2 + time.Duration(i)*7*time.Millisecond})
			lo = at + 1
		}
		if c.Skipped() {
			return
		}
		reset()
		for r := 0; r <= f.gens; r++ {
			for i := 0; i < n && i < 8; i++ {
				switch o {
				case 0:
					setPerm(r, i, i)
				case 1:
					setPerm(r, i, n-1-i)
				case 2:
					setPerm(r, i, (i+1+r)%n)
				}
			}
		}
		for _, d := range ds {
			addDelay(d)
		}
		c.Logf("order %d, delays %v", o, ds)
		compare(c, f, b.res, run(c, f))
		c.State(explore.NewH().S(fmt.Sprint(ds, o)).Sum())
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C04",
		Bounds: "every order of the tasks of every generation; every placement of one delay (two for some configurations) at the first executions of each statement of the algorithm, evaluator and fitness packages and each function of the triangulation, by every number of tasks, with three orders of the tasks; populations of 40 and 131 in strides and backwards; the race detector judges every execution",
		Assumptions: []string{
			fmt.Sprintf("race detector on: %v", raceOn),
			"the worker pool runs every submitted task eventually, in any order, on any goroutine; what it synchronizes beyond that is not used",
			"scheduling points have sequentially consistent memory; weaker behaviour needs a data race, which the race detector reports",
		},
		Items: func(tier string) []explore.Item {
			tri := cfg{"mg", 4, 1, 4, 2, "tri", 3, 7, 5, 2, 1}
			poly := cfg{"mg", 4, 1, 3, 2, "poly", 2, 6, 5, 2, 1}
			stri := cfg{"simple", 3, 1, 4, 2, "tri", 0, 7, 5, 2, 2}
			spoly := cfg{"simple", 3, 2, 3, 2, "poly", 4, 6, 5, 3, 2}
			mg2 := cfg{"mg", 6, 2, 3, 2, "many", 0, 3, 3, 1, 3}
			sone := cfg{"simple", 4, 2, 3, 2, "one", 0, 3, 3, 1, 4}
			items := []explore.Item{}
			for _, f := range []cfg{tri, poly, stri, spoly} {
				items = append(items, ordersItem(f))
			}
			short := mg2
			short.gens = 1
			sshort := sone
			sshort.gens = 1
			items = append(items, ordersItem(short), ordersItem(sshort))
			for _, f := range []cfg{tri, poly, stri, spoly, mg2, sone} {
				items = append(items, delaysItem(f, 1, 2, 3, 1))
			}
			for _, n := range []int{40, 131} {
				for _, f := range []cfg{
					{"mg", n, 3, 5, 2, "tri", 10, 131, 117, 3, 34}, {"mg", n, 1, 5, 2, "poly", 10, 131, 117, 3, 2},
					{"simple", n, n / 3, 5, 2, "tri", 10, 131, 117, 3, 3}, {"simple", n, 2, 5, 2, "poly", 10, 131, 117, 3, 56},
					{"mg", n, n / 2, 4, 3, "many", 0, 3, 3, 1, 5}, {"simple", n, 1, 4, 3, "many", 0, 3, 3, 1, 6},
					{"mg", n, n / 4, 4, 3, "one", 0, 3, 3, 1, 7}, {"simple", n, n / 2, 4, 3, "one", 0, 3, 3, 1, 8},
				} {
					items = append(items, crowdItem(f, 280/n-1))
				}
			}
			if tier == "thorough" {
				one := func(f cfg) cfg { f.gens = 1; return f }
				items = append(items, ordersItem(cfg{"simple", 5, 2, 4, 1, "tri", 2, 8, 6, 3, 5}), ordersItem(cfg{"mg", 6, 1, 4, 1, "poly", 2, 8, 6, 3, 6}), ordersItem(cfg{"mg", 7, 2, 4, 1, "tri", 6, 9, 6, 3, 7}))
				for _, f := range []cfg{short, sshort, one(stri)} {
					items = append(items, delaysItem(f, 2, 1, 1, 1))
				}
				items = append(items, delaysItem(one(tri), 2, 1, 1, 2))
				for _, f := range []cfg{one(spoly), one(poly)} {
					items = append(items, delaysItem(f, 2, 1, 1, 4))
				}
			}
			return items
		},
	})
}
