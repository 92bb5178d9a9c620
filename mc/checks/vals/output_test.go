package vals

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/trace"
	"strconv"
	"strings"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/utils"
	"verifmc/explore"
)

// scripted is an algorithm whose best group follows a script.
type scripted struct {
	gen   int
	best  func(gen int) (group, float64)
	step  func(s *scripted)
	calls int
}

func (s *scripted) Step() {
	s.step(s)
	s.gen++
	s.calls++
}
func (s *scripted) Best() group { g, _ := s.best(s.gen); return g }
func (s *scripted) Stats() algorithm.Stats {
	_, f := s.best(s.gen)
	return algorithm.Stats{BestFitness: f, Generation: s.gen}
}

type stopped struct{}

var outGroups = []group{
	{{X: 0, Y: 1}, {X: 0.5, Y: 0.25}, {X: 1, Y: 0}},
	{{X: 0.1, Y: 1. / 3}, {X: 5e-324, Y: 1e-9}, {X: math.Nextafter(1, 0), Y: 0.30000000000000004}, {X: 0.7071067811865476, Y: 1e-300}, {X: 1e-7, Y: 1e-6}},
	{{X: 1, Y: 1}},
	{},
	{{X: 0.123456789012345678, Y: 0.2}, {X: 0.2, Y: 0.123456789012345678}, {X: 0.2, Y: 0.2}},
}
var outFits = []float64{0.5, -3.25, 0.30000000000000004, 1e-9, 123456789.125, -1. / 3, 1e21, 0, 0.1234567890123456, -7e-300, 2147483649, -9007199254740993, 100, 1e6, 0.99999999999}

// quietly runs f with the standard output going to a file, until f stops.
func quietly(out *os.File, f func()) {
	old := os.Stdout
	os.Stdout = out
	defer func() {
		os.Stdout = old
		if r := recover(); r != nil {
			if _, ok := r.(stopped); !ok {
				panic(r)
			}
		}
	}()
	f()
}

func scratch(c *explore.Ctx) (string, func()) {
	dir, err := os.MkdirTemp("", "out")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

var collections int

type report struct {
	gen int
	g   group
	f   float64
}

func checkLines(c *explore.Ctx, what, text string, reports []report, number func(i int) (int, float64)) {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] != "" {
		c.Fail("%s ends with an incomplete line: %q", what, text)
	}
	lines = lines[:len(lines)-1]
	if len(lines) != len(reports) {
		c.Fail("%s has %d lines after %d reports: %q", what, len(lines), len(reports), text)
	}
	for i, l := range lines {
		p := strings.Split(l, ", ")
		if len(p) != 2 {
			c.Fail("%s has the line %q", what, l)
		}
		g, e1 := strconv.Atoi(p[0])
		f, e2 := strconv.ParseFloat(p[1], 64)
		if e1 != nil || e2 != nil || g != reports[i].gen || f != reports[i].f {
			c.Fail("line %d of %s is %q, generation %d had the best fitness %v", i, what, l, reports[i].gen, reports[i].f)
		}
	}
}

// outputItem explores the reports of a run and the point at which it ends, looking at the files before every generation.
func outputItem(maxReports, ng, nf int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("output files of up to %d reports", maxReports), Run: func(c *explore.Ctx) {
		reps := 1 + c.Choose(3)
		start := []int{0, 7}[c.Choose(2)]
		reportsN := c.Choose(maxReports + 1)
		extra := c.Choose(reps)
		stale := c.Choose(2) == 1
		var script []report
		for i := 0; i < reportsN; i++ {
			script = append(script, report{start + (i+1)*reps, outGroups[c.Choose(ng)], outFits[c.Choose(nf)]})
		}
		if c.Skipped() {
			return
		}
		collections++
		if collections%200 == 0 {
			runtime.GC() // the code under test never closes the statistics file when a run is ended
		}
		dir, done := scratch(c)
		defer done()
		file := filepath.Join(dir, "best.json")
		if stale {
			os.WriteFile(file, bytes.Repeat([]byte("old contents "), 100), 0644)
			os.WriteFile(file+"-stats", bytes.Repeat([]byte("1, 2\n"), 100), 0644)
		}
		out, err := os.Create(filepath.Join(dir, "stdout"))
		if err != nil {
			panic(err)
		}
		defer out.Close()
		alg := &scripted{gen: start}
		alg.best = func(gen int) (group, float64) {
			for _, r := range script {
				if r.gen == gen {
					return r.g.Copy(), r.f
				}
			}
			return group{{X: 0.99, Y: 0.98}}, -float64(gen) - 0.5
		}
		look := func() {
			// reports so far
			k := (alg.gen - start) / reps
			c.Eval(1)
			st, err := os.ReadFile(file + "-stats")
			if err != nil {
				c.Fail("the statistics file cannot be read: %v", err)
			}
			checkLines(c, "the statistics file", string(st), script[:k], nil)
			if k == 0 {
				return
			}
			b, err := os.ReadFile(file)
			if err != nil {
				c.Fail("the output file cannot be read after %d reports: %v", k, err)
			}
			var got group
			if err := json.Unmarshal(b, &got); err != nil {
				c.Fail("the output file does not hold JSON after %d reports: %v: %q", k, err, b)
			}
			want := script[k-1].g
			if len(got) != len(want) {
				c.Fail("the output file holds %v, the best group of generation %d is %v", got, script[k-1].gen, want)
			}
			for i := range want {
				if got[i] != want[i] {
					c.Fail("the output file holds %v, the best group of generation %d is %v", got, script[k-1].gen, want)
				}
			}
		}
		alg.step = func(s *scripted) {
			look()
			if s.calls == reportsN*reps+extra {
				panic(stopped{})
			}
		}
		c.Logf("%d generations per report from generation %d: %v, ended %d generations later", reps, start, script, extra)
		quietly(out, func() { utils.GenerateAlgorithmOutput(file, alg, reps) })
		look()
		h := explore.NewH().I(reps).I(start).I(extra)
		for _, r := range script {
			h = h.S(fmt.Sprint(r))
		}
		c.State(h.Sum())
		c.Outcome(h.Sum())
	}}
}

func bigGroup(n int) group {
	g := make(group, n)
	for i := range g {
		g[i] = np{X: float64((i*7919+n)%10007) / 10006, Y: float64((i*104729+5)%100003) / 100002}
	}
	return g
}

// longOutputItem: groups of the given numbers of points in turn, many reports, many generations per report.
func longOutputItem(reports int, reps, starts []int, sizes []int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("output files of %d reports, %v generations each, %v points", reports, reps, sizes), Run: func(c *explore.Ctx) {
		reps := reps[c.Choose(len(reps))]
		start := starts[c.Choose(len(starts))]
		first := c.Choose(len(sizes))
		if c.Skipped() {
			return
		}
		dir, done := scratch(c)
		defer done()
		file := filepath.Join(dir, "best.json")
		out, err := os.Create(filepath.Join(dir, "stdout"))
		if err != nil {
			panic(err)
		}
		defer out.Close()
		at := func(k int) report { // the k-th report
			return report{start + (k+1)*reps, bigGroup(sizes[(first+k*(first+1))%len(sizes)]), 0.25 + float64(k)/3}
		}
		alg := &scripted{gen: start}
		alg.best = func(gen int) (group, float64) {
			if d := gen - start; d > 0 && d%reps == 0 {
				r := at(d/reps - 1)
				return r.g, r.f
			}
			return group{{X: 0.99, Y: 0.98}}, -float64(gen) - 0.5
		}
		look := func() {
			k := (alg.gen - start) / reps
			c.Eval(1)
			st, err := os.ReadFile(file + "-stats")
			if err != nil {
				c.Fail("the statistics file cannot be read: %v", err)
			}
			so, _ := os.ReadFile(filepath.Join(dir, "stdout"))
			script := make([]report, k)
			for i := range script {
				script[i] = report{start + (i+1)*reps, nil, 0.25 + float64(i)/3}
			}
			checkLines(c, "the statistics file", string(st), script, nil)
			if len(so) > 0 {
				c.Outcome(uint64(len(so)))
			}
			if k == 0 {
				return
			}
			b, err := os.ReadFile(file)
			if err != nil {
				c.Fail("the output file cannot be read after %d reports: %v", k, err)
			}
			var got group
			if err := json.Unmarshal(b, &got); err != nil {
				c.Fail("the output file of %d bytes does not hold JSON after %d reports: %v", len(b), k, err)
			}
			want := at(k - 1).g
			if len(got) != len(want) {
				c.Fail("the output file holds %d points, the best group of generation %d has %d", len(got), alg.gen, len(want))
			}
			for i := range want {
				if got[i] != want[i] {
					c.Fail("point %d is %v in the output file, in the best group of generation %d it is %v", i, got[i], alg.gen, want[i])
				}
			}
		}
		alg.step = func(s *scripted) {
			if s.calls%reps == 0 || s.calls%reps == reps-1 {
				look()
			}
			if s.calls == reports*reps+reps/2 {
				panic(stopped{})
			}
		}
		c.Logf("%d generations per report from generation %d, sizes from %d", reps, start, sizes[first])
		quietly(out, func() { utils.GenerateAlgorithmOutput(file, alg, reps) })
		look()
		c.State(explore.NewH().I(reps).I(start).I(first).Sum())
	}}
}

// printItem does the same for the utility that prints.
func printItem(maxReports, nf int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("printed statistics of up to %d reports", maxReports), Run: func(c *explore.Ctx) {
		reps := 1 + c.Choose(4)
		start := []int{0, 7}[c.Choose(2)]
		reportsN := c.Choose(maxReports + 1)
		extra := c.Choose(reps)
		var script []report
		for i := 0; i < reportsN; i++ {
			script = append(script, report{start + (i+1)*reps, nil, outFits[c.Choose(nf)]})
		}
		if c.Skipped() {
			return
		}
		dir, done := scratch(c)
		defer done()
		name := filepath.Join(dir, "stdout")
		out, err := os.Create(name)
		if err != nil {
			panic(err)
		}
		defer out.Close()
		alg := &scripted{gen: start}
		alg.best = func(gen int) (group, float64) {
			for _, r := range script {
				if r.gen == gen {
					return nil, r.f
				}
			}
			return nil, -float64(gen) - 0.5
		}
		alg.step = func(s *scripted) {
			c.Eval(1)
			b, _ := os.ReadFile(name)
			checkLines(c, "the standard output", string(b), script[:(s.gen-start)/reps], nil)
			if s.calls == reportsN*reps+extra {
				panic(stopped{})
			}
		}
		quietly(out, func() { utils.RunAlgorithm(alg, reps) })
		c.State(explore.NewH().I(reps).I(start).S(fmt.Sprint(script)).Sum())
	}}
}

// longPrintItem prints many reports.
func longPrintItem(reports int, reps, starts []int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("printed statistics of %d reports, %v generations each", reports, reps), Run: func(c *explore.Ctx) {
		reps := reps[c.Choose(len(reps))]
		start := starts[c.Choose(len(starts))]
		if c.Skipped() {
			return
		}
		dir, done := scratch(c)
		defer done()
		name := filepath.Join(dir, "stdout")
		out, err := os.Create(name)
		if err != nil {
			panic(err)
		}
		defer out.Close()
		fit := func(k int) float64 { return 0.25 + float64(k)/3 }
		script := make([]report, reports)
		for i := range script {
			script[i] = report{start + (i+1)*reps, nil, fit(i)}
		}
		alg := &scripted{gen: start}
		alg.best = func(gen int) (group, float64) {
			if d := gen - start; d > 0 && d%reps == 0 {
				return nil, fit(d/reps - 1)
			}
			return nil, -float64(gen) - 0.5
		}
		alg.step = func(s *scripted) {
			if k := s.calls / reps; s.calls%reps == reps/2 && (k%16 == 1 || k == reports) {
				c.Eval(1)
				b, _ := os.ReadFile(name)
				checkLines(c, "the standard output", string(b), script[:k], nil)
			}
			if s.calls == reports*reps+reps/2 {
				panic(stopped{})
			}
		}
		c.Logf("%d generations per report from generation %d", reps, start)
		quietly(out, func() { utils.RunAlgorithm(alg, reps) })
		c.State(explore.NewH().I(reps).I(start).Sum())
	}}
}

// framed parses the framing of a trace: a header and batches up to the very end.
func framed(b []byte) error {
	if len(b) < 16 || !bytes.HasPrefix(b, []byte("go 1.")) || !bytes.Contains(b[:16], []byte(" trace")) {
		return fmt.Errorf("no header")
	}
	p := 16
	uv := func() (uint64, error) {
		var v uint64
		for s := uint(0); ; s += 7 {
			if p >= len(b) || s > 63 {
				return 0, fmt.Errorf("truncated at byte %d", p)
			}
			x := b[p]
			p++
			v |= uint64(x&0x7f) << s
			if x < 0x80 {
				return v, nil
			}
		}
	}
	n := 0
	last := byte(0)
	for p < len(b) {
		last = b[p]
		p++
		switch last {
		case 1, 49: // a batch, an experimental batch
			if last == 49 {
				p++
			}
			var v uint64
			var err error
			for i := 0; i < 4; i++ {
				if v, err = uv(); err != nil {
					return err
				}
			}
			if uint64(len(b)-p) < v {
				return fmt.Errorf("a batch of %d bytes is cut to %d", v, len(b)-p)
			}
			p += int(v)
			n++
		case 52: // the end of a generation
		default:
			return fmt.Errorf("unknown event %d at byte %d", last, p-1)
		}
	}
	if n == 0 {
		return fmt.Errorf("no batches")
	}
	if minor := strings.Fields(string(b[5:16]))[0]; minor >= "26" && len(minor) == 2 && last != 52 {
		return fmt.Errorf("its end is missing")
	}
	return nil
}

var markRE = regexp.MustCompile("mark[0-9]{6}")

// traceItem generates traces of different lengths.
func traceItem(lens int) explore.Item {
	return explore.Item{Name: "traces", Run: func(c *explore.Ctx) {
		n := c.Choose(lens)
		stale := c.Choose(2) == 1
		if c.Skipped() {
			return
		}
		dir, done := scratch(c)
		defer done()
		file := filepath.Join(dir, "run")
		if stale {
			os.WriteFile(file+".trace", bytes.Repeat([]byte("old contents "), 1<<16), 0644)
		}
		pad := strings.Repeat("x", n*n*3)
		alg := &scripted{}
		alg.step = func(s *scripted) {
			if trace.IsEnabled() {
				trace.Log(context.Background(), "generation", fmt.Sprintf("mark%06d%s", s.calls, pad))
			}
		}
		utils.GenerateTrace(file, alg)
		b, err := os.ReadFile(file + ".trace")
		if err != nil {
			c.Fail("no trace: %v", err)
		}
		c.Eval(1)
		if trace.IsEnabled() {
			c.Fail("the trace was not ended")
		}
		if err := framed(b); err != nil {
			c.Fail("the trace of %d bytes is malformed: %v", len(b), err)
		}
		marks := map[string]bool{}
		for _, m := range markRE.FindAll(b, -1) {
			marks[string(m)] = true
		}
		first := -1
		for i := 0; i < alg.calls; i++ {
			has := marks[fmt.Sprintf("mark%06d", i)]
			if has && first < 0 {
				first = i
			}
			if !has && first >= 0 {
				c.Fail("the trace contains generation %d but not generation %d", first, i)
			}
		}
		if first < 0 || first != alg.calls-1000 {
			c.Fail("the trace starts at generation %d of %d", first, alg.calls)
		}
		c.Logf("%d bytes", len(b))
		c.State(explore.NewH().I(n).Sum())
	}}
}

// profileItem generates profiles.
func profileItem() explore.Item {
	return explore.Item{Name: "profiles", Run: func(c *explore.Ctx) {
		secs := c.Choose(2)
		d := []time.Duration{70 * time.Millisecond, 3 * time.Millisecond}[c.Choose(2)]
		if c.Skipped() {
			return
		}
		dir, done := scratch(c)
		defer done()
		file := filepath.Join(dir, "run")
		alg := &scripted{step: func(s *scripted) { time.Sleep(d) }}
		t0 := time.Now()
		utils.GenerateProfile(file, alg, secs)
		took := time.Since(t0)
		c.Eval(1)
		if took < time.Duration(secs)*time.Second || alg.calls > 0 && secs == 0 || alg.calls == 0 && secs > 0 {
			c.Fail("profiling for %d s ran %d generations in %v", secs, alg.calls, took)
		}
		b, err := os.ReadFile(file + ".prof")
		if err != nil {
			c.Fail("no profile: %v", err)
		}
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err == nil {
			_, err = io.ReadAll(z)
		}
		if err != nil {
			c.Fail("the profile of %d bytes is malformed: %v", len(b), err)
		}
		c.Logf("%d s, %v per generation: %d generations, %d bytes", secs, d, alg.calls, len(b))
		c.State(explore.NewH().I(secs).I(int(d)).Sum())
	}}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C24",
		Bounds: "every sequence of reports over alphabets of point groups and fitnesses, every number of generations per report up to three, and every generation at which the run may end, looking at the files before every generation; long runs of up to 1000 (thorough: 3000) reports and groups of up to 60000 points; traces and profiles of several lengths",
		Items: func(tier string) []explore.Item {
			if tier == "thorough" {
				return []explore.Item{outputItem(3, 4, 4), outputItem(2, 5, 8), outputItem(1, 5, len(outFits)), printItem(4, 8), longPrintItem(2000, []int{1, 3, 70}, []int{0, 999999, 1 << 53}), traceItem(12), profileItem(),
					longOutputItem(60, []int{1, 2, 5, 100}, []int{0, 999999, 1 << 31, 1 << 53}, []int{60000, 3, 300, 3000, 1, 17, 0, 20000}), longOutputItem(3000, []int{1, 4}, []int{0, 12345}, []int{4, 30})}
			}
			return []explore.Item{outputItem(2, 4, 3), outputItem(1, 5, len(outFits)), printItem(3, 6), longPrintItem(600, []int{1, 3, 40}, []int{0, 999999}), traceItem(4), profileItem(),
				longOutputItem(12, []int{1, 5, 100}, []int{0, 999999, 1 << 33}, []int{60000, 3, 300, 3000, 1, 17, 0}), longOutputItem(1000, []int{1}, []int{0}, []int{4, 30})}
		},
	})
}
