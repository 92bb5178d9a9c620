// Package algo drives the real genetic algorithms through their interfaces, with enumerated
// mutations, fitnesses and orders of results.
package algo

import (
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/panjf2000/ants/v2"
	"verifmc/explore"
)

type group = normgeom.NormPointGroup

// evalRec is one evaluation of a member.
type evalRec struct {
	slot   int
	points group
	muts   []mutation.Mutation
	fit    float64
}

// mutRec is one call of the mutation method.
type mutRec struct {
	pre, post group
	muts      []mutation.Mutation
}

// round is what happens during construction or during one generation.
type round struct {
	evals []evalRec
	muts  []mutRec
	best  group
	stats algorithm.Stats
}

// world records everything an algorithm does.
type world struct {
	mu      sync.Mutex
	created []group
	rounds  []*round
	cur     *round

	fit    func(slot int, d fitness.PointsData) float64 // synthetic fitness
	inner  evaluator.Evaluator                          // or a real evaluator
	mutate func(call int, points group) []mutation.Mutation
	calls  int
	after  func(r *evalRec)
}

func (w *world) begin() {
	w.cur = &round{}
	w.rounds = append(w.rounds, w.cur)
}

func (w *world) end(a algorithm.Algorithm) {
	w.cur.best = a.Best().Copy()
	w.cur.stats = a.Stats()
}

// Mutate implements mutation.Method.
func (w *world) Mutate(points group, mutated func(mutation.Mutation)) {
	pre := points.Copy()
	ms := w.mutate(w.calls, points)
	w.calls++
	for _, m := range ms {
		points[m.Index] = m.New
		mutated(m)
	}
	w.cur.muts = append(w.cur.muts, mutRec{pre, points.Copy(), ms})
}

type recFn struct {
	w     *world
	slot  int
	inner fitness.Function
}

func (f recFn) Calculate(d fitness.PointsData) float64 {
	r := evalRec{slot: f.slot, points: d.Points.Copy(), muts: append([]mutation.Mutation{}, d.Mutations...)}
	if f.inner != nil {
		r.fit = f.inner.Calculate(d)
	} else {
		f.w.mu.Lock()
		r.fit = f.w.fit(f.slot, d)
		f.w.mu.Unlock()
	}
	f.w.mu.Lock()
	f.w.cur.evals = append(f.w.cur.evals, r)
	if f.w.after != nil {
		f.w.after(&r)
	}
	f.w.mu.Unlock()
	return r.fit
}

// The evaluator interface.

func (w *world) Get(i int) fitness.Function {
	if w.inner != nil {
		return recFn{w, i, w.inner.Get(i)}
	}
	return recFn{w, i, nil}
}
func (w *world) Update(i int) {
	if w.inner != nil {
		w.inner.Update(i)
	}
}
func (w *world) Prepare() {
	if w.inner != nil {
		w.inner.Prepare()
	}
}
func (w *world) SetBase(i, b int) {
	if w.inner != nil {
		w.inner.SetBase(i, b)
	}
}
func (w *world) Swap(i, j int) {
	if w.inner != nil {
		w.inner.Swap(i, j)
	}
}

type acfg struct {
	alg    string // mg or simple
	size   int
	cutoff int
	points int
	gens   int
}

func (a acfg) String() string {
	return fmt.Sprintf("%s population %d cutoff %d points %d generations %d", a.alg, a.size, a.cutoff, a.points, a.gens)
}

// construct builds the algorithm.
func (a acfg) construct(w *world, newGroup func(k int) group) algorithm.Algorithm {
	w.begin()
	k := 0
	factory := func() group {
		g := newGroup(k)
		k++
		w.created = append(w.created, g.Copy())
		return g
	}
	ev := func(n int) evaluator.Evaluator { return w }
	var al algorithm.Algorithm
	if a.alg == "mg" {
		al = algorithm.NewModifiedGenetic(factory, a.size, a.cutoff, ev, w)
	} else {
		al = algorithm.NewSimple(factory, a.size, a.cutoff, ev, w)
	}
	w.end(al)
	return al
}

func step(w *world, al algorithm.Algorithm) {
	w.begin()
	al.Step()
	w.end(al)
}

// pool decides how submitted tasks run.

var inlineOK, probed bool

// probe finds out whether tasks may run right when they are submitted; an implementation that
// collects results through a small channel needs them to run later.
func probe() bool {
	if probed {
		return inlineOK
	}
	probed = true
	done := make(chan bool, 1)
	go func() {
		ants.SubmitHook = func(task func()) { task() }
		for _, alg := range []string{"mg", "simple"} {
			w := &world{fit: func(int, fitness.PointsData) float64 { return 1 }, mutate: func(int, group) []mutation.Mutation { return nil }}
			a := acfg{alg, 300, 2, 3, 1}
			al := a.construct(w, func(k int) group { return group{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}} })
			step(w, al)
		}
		done <- true
	}()
	select {
	case inlineOK = <-done:
	case <-time.After(3 * time.Second):
	}
	return inlineOK
}

// inline runs body with tasks running in the order of their submission.
func inline(c *explore.Ctx, body func()) {
	if probe() {
		ants.SubmitHook = func(task func()) { task() }
		defer func() { ants.SubmitHook = nil }()
		body()
		return
	}
	ordered(c, func(n int) int { return 0 }, body)
}

// ordered runs body in a bubble in which tasks wait until everything else is blocked; then pick
// chooses the next of the n waiting ones, which runs until everything is blocked again.
func ordered(c *explore.Ctx, pick func(n int) int, body func()) {
	var fail interface{}
	synctest.Test(c.T, func(t *testing.T) {
		type waiting struct{ gate chan struct{} }
		var mu sync.Mutex
		var queue []*waiting
		over := false
		ants.SubmitHook = func(task func()) {
			wt := &waiting{make(chan struct{})}
			mu.Lock()
			queue = append(queue, wt)
			mu.Unlock()
			go func() {
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						if fail == nil {
							fail = r
						}
						mu.Unlock()
					}
				}()
				<-wt.gate
				task()
			}()
		}
		finished := make(chan struct{})
		go func() {
			defer close(finished)
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if fail == nil {
						fail = r
					}
					mu.Unlock()
				}
				over = true
			}()
			body()
		}()
		for {
			synctest.Wait()
			mu.Lock()
			n := len(queue)
			f := fail
			mu.Unlock()
			if over {
				break
			}
			if f != nil {
				// the panic of a task; the main goroutine waits for it for ever
				panic(f)
			}
			if n == 0 {
				panic("the generation never finishes: no task is left and the results are still awaited")
			}
			k := pick(n)
			mu.Lock()
			wt := queue[k]
			queue = append(queue[:k:k], queue[k+1:]...)
			mu.Unlock()
			close(wt.gate)
		}
		<-finished
		mu.Lock()
		for _, wt := range queue {
			close(wt.gate)
		}
		mu.Unlock()
	})
	ants.SubmitHook = nil
	if fail != nil {
		panic(fail)
	}
}
