package explore

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// A Check decides one property.
type Check struct {
	ID    string
	Items func(tier string) []Item
	// Bounds says what was enumerated.
	Bounds string
	Notes  []string
	// Assumptions of the check.
	Assumptions []string
	// Workers bounds the number of worker processes (0: one per core).
	Workers int
	// Extra runs in the coordinator before the exploration (a separate free-running pass, say);
	// it returns evidence to include and a violation message or "".
	Extra func(tier string) (map[string]interface{}, string)
}

var registry = map[string]*Check{}

// Register makes a check known.
func Register(c *Check) { registry[c.ID] = c }

type itemStat struct {
	Name       string `json:"name"`
	Executions int64  `json:"executions"`
	Done       bool   `json:"done"`
}

type stats struct {
	Executions  int64
	Transitions int64
	Evaluations int64
	MaxDepth    int
	Diverged    int64
	Known       map[string]int64
	Items       []itemStat
	Exhaustive  bool
	Samples     []string
	Violation   *violation
}

type violation struct {
	Property string   `json:"property"`
	Item     string   `json:"item"`
	Tier     string   `json:"tier"`
	Choices  []int    `json:"choices"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Replays  string   `json:"replays,omitempty"`
}

type worker struct {
	stats    stats
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	known    map[string]bool
	mm       []byte
	full     bool
}

const maxStates = 6 << 20

func (w *worker) addState(h uint64) {
	if len(w.states) >= maxStates {
		w.full = true
		return
	}
	w.states[h] = struct{}{}
}

const crumbSize = 1 << 16

// layout of the breadcrumb: [0:8] progress, [8:12] item, [12:16] depth, then the choices.
func (w *worker) crumb(pos, v int) {
	if w.mm == nil {
		return
	}
	off := 16 + 4*pos
	if off+4 > len(w.mm) {
		return
	}
	binary.LittleEndian.PutUint32(w.mm[off:], uint32(v))
	binary.LittleEndian.PutUint32(w.mm[12:], uint32(pos+1))
}

func (w *worker) begin(item int) {
	if w.mm == nil {
		return
	}
	binary.LittleEndian.PutUint64(w.mm[0:], binary.LittleEndian.Uint64(w.mm[0:])+1)
	binary.LittleEndian.PutUint32(w.mm[8:], uint32(item))
	binary.LittleEndian.PutUint32(w.mm[12:], 0)
}

func readCrumb(file string) (progress uint64, item int, choices []int) {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 16 {
		return
	}
	progress = binary.LittleEndian.Uint64(b)
	item = int(binary.LittleEndian.Uint32(b[8:]))
	n := int(binary.LittleEndian.Uint32(b[12:]))
	for i := 0; i < n && 16+4*i+4 <= len(b); i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(b[16+4*i:])))
	}
	return
}

func mmapFile(file string) []byte {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil
	}
	defer f.Close()
	f.Truncate(crumbSize)
	m, err := syscall.Mmap(int(f.Fd()), 0, crumbSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return m
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func tierOf() string {
	if env("VERIF_TIER", "quick") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Main is the TestMain of every package of checks.
func Main(m *testing.M) {
	switch os.Getenv("VMC_ROLE") {
	case "worker", "replay":
		os.Exit(m.Run())
	default:
		os.Exit(coordinate())
	}
}

// Worker is the body of the one test of every package of checks.
func Worker(t *testing.T) {
	switch os.Getenv("VMC_ROLE") {
	case "worker":
		runWorker(t)
	case "replay":
		runReplay(t)
	}
}

func memGuard() {
	debug.SetMemoryLimit(2 << 30) // collect more often than GOGC says when there is much garbage
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(300 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 5<<29 {
				// Most of it may be garbage
				runtime.GC()
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc > 5<<29 {
				fmt.Fprintln(os.Stderr, "fatal: the execution needs unbounded memory")
				os.Exit(3)
			}
		}
	}()
}

func runWorker(t *testing.T) {
	memGuard()
	id := os.Getenv("VMC_ID")
	ck := registry[id]
	tier := tierOf()
	shard, _ := strconv.Atoi(os.Getenv("VMC_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("VMC_SHARDS"))
	dir := os.Getenv("VMC_DIR")
	dl, _ := strconv.ParseInt(os.Getenv("VMC_DEADLINE"), 10, 64)
	deadline := time.Unix(dl, 0)
	w := &worker{states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, known: loadKnown(id)}
	w.stats.Known = map[string]int64{}
	w.stats.Exhaustive = true
	w.mm = mmapFile(filepath.Join(dir, fmt.Sprintf("crumb%d", shard)))

	items := ck.Items(tier)
	out := false
	for i := range items {
		it := &items[i]
		is := itemStat{Name: it.Name}
		if !out {
			is.Done = exploreItem(t, w, it, i, tier, shard, shards, deadline, &is)
			if !is.Done {
				w.stats.Exhaustive = false
				if w.stats.Violation != nil || !time.Now().Before(deadline) {
					out = true
				}
			}
		}
		items[i] = Item{} // what it keeps can be collected
		w.stats.Items = append(w.stats.Items, is)
		if w.stats.Violation != nil {
			break
		}
	}
	if w.full {
		w.stats.Samples = append(w.stats.Samples, fmt.Sprintf("state table of worker %d full", shard))
	}
	dump := func(name string, m map[uint64]struct{}) {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("%s%d", name, shard)))
		if err != nil {
			return
		}
		bw := bufio.NewWriterSize(f, 1<<16)
		var b [8]byte
		for h := range m {
			binary.LittleEndian.PutUint64(b[:], h)
			bw.Write(b[:])
		}
		bw.Flush()
		f.Close()
	}
	dump("states", w.states)
	dump("outcomes", w.outcomes)
	b, _ := json.Marshal(w.stats)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("stats%d.json", shard)), b, 0644)
}

func exploreItem(t *testing.T, w *worker, it *Item, idx int, tier string, shard, shards int, deadline time.Time, is *itemStat) bool {
	c := &Ctx{T: t, Tier: tier, shard: shard, shards: shards, itemHash: NewH().S(it.Name).Sum(), w: w, fresh: true}
	c.changed = -1
	first := true
	runs := 0
	for {
		w.begin(idx)
		sample := first && len(w.stats.Samples) < 2 && (idx+shard)%3 == 0
		c.rec = sample
		msg := c.run(it)
		if msg == "" && !c.skip && c.pos < len(c.path) && !c.diverged && c.pos <= c.changed {
			c.diverged = true
		}
		c.decide(true)
		if c.diverged {
			w.stats.Diverged++
		}
		if msg != "" && !c.skip {
			w.stats.Violation = &violation{Property: os.Getenv("VMC_ID"), Item: it.Name, Tier: tier, Choices: append([]int{}, c.path[:c.pos]...), Message: msg}
			return false
		}
		runs++
		if !c.skip {
			w.stats.Executions++
			w.stats.Evaluations += c.evals
			is.Executions++
			if c.pos > w.stats.MaxDepth {
				w.stats.MaxDepth = c.pos
			}
			if sample {
				w.stats.Samples = append(w.stats.Samples, it.Name+" "+fmt.Sprint(c.path[:c.pos])+": "+strings.Join(c.log, "; "))
			}
		}
		first = false
		c.fresh = false
		if c.skip && it.NoShard {
			return true
		}
		// advance
		d := c.pos
		if d > len(c.path) {
			d = len(c.path)
		}
		d--
		for d >= 0 && c.path[d] >= c.widths[d]-1 {
			d--
		}
		if d < 0 {
			return true
		}
		c.path = c.path[:d+1]
		c.widths = c.widths[:d+1]
		c.path[d]++
		c.changed = d
		if runs&15 == 0 || !c.skip {
			if !time.Now().Before(deadline) {
				return false
			}
		}
	}
}

func runReplay(t *testing.T) {
	memGuard()
	b, err := os.ReadFile(os.Getenv("VMC_REPLAY"))
	if err != nil {
		fmt.Println("cannot read the replay file:", err)
		os.Exit(2)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println("cannot parse the replay file:", err)
		os.Exit(2)
	}
	ck := registry[v.Property]
	if ck == nil {
		fmt.Println("unknown property", v.Property)
		os.Exit(2)
	}
	for _, it := range ck.Items(v.Tier) {
		if it.Name != v.Item {
			continue
		}
		w := &worker{states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, known: loadKnown(v.Property)}
		w.stats.Known = map[string]int64{}
		c := &Ctx{T: t, Tier: v.Tier, rec: true, fixed: true, fresh: true, shards: 1, w: w, changed: -1}
		c.path = append([]int{}, v.Choices...)
		msg := c.run(&it)
		for _, l := range c.log {
			fmt.Println("trace:", l)
		}
		if msg != "" {
			fmt.Println("reproduced:", msg)
			out := struct {
				Msg   string
				Trace []string
			}{msg, c.log}
			j, _ := json.Marshal(out)
			if o := os.Getenv("VMC_OUT"); o != "" {
				os.WriteFile(o, j, 0644)
			}
			os.Exit(1)
		}
		fmt.Println("the property held on this trace")
		os.Exit(0)
	}
	fmt.Println("unknown item", v.Item)
	os.Exit(2)
}

func loadKnown(id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(env("VMC_KNOWN", "/verif/known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k struct {
			Property string   `json:"property"`
			Status   string   `json:"status"`
			Keys     []string `json:"keys"`
		}
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == id && k.Status == "known" {
			for _, key := range k.Keys {
				m[key] = true
			}
		}
	}
	return m
}

func knownText(id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(env("VMC_KNOWN", "/verif/known_findings.jsonl"))
	for _, l := range strings.Split(string(b), "\n") {
		var k struct {
			Property string   `json:"property"`
			Status   string   `json:"status"`
			What     string   `json:"what"`
			Keys     []string `json:"keys"`
		}
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == id && k.Status == "known" {
			for _, key := range k.Keys {
				m[key] = k.What
			}
		}
	}
	return m
}

type procResult struct {
	shard  int
	err    error
	stderr string
	hung   bool
}

const hangLimit = 75 * time.Second

// start runs this binary again in another role; it is killed when the breadcrumb stands still.
func start(role string, extra []string, crumbFile string, stop <-chan struct{}, limit time.Duration) (res procResult) {
	cmd := exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0", "-test.v=false")
	cmd.Env = append(os.Environ(), append([]string{"VMC_ROLE=" + role, "GOMAXPROCS=" + env("VMC_PROCS", "1"), "GOGC=" + env("VMC_GOGC", "400"), "GOTRACEBACK=all", "GORACE=halt_on_error=1"}, extra...)...)
	var eb tail
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		res.err = err
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	last, lastT := uint64(0), time.Now()
	for {
		select {
		case err := <-done:
			res.err = err
			res.stderr = eb.String()
			return
		case <-stop:
			kill()
			<-done
			res.err = fmt.Errorf("stopped")
			res.stderr = "stopped"
			return
		case <-tick.C:
			if crumbFile != "" {
				p, _, _ := readCrumb(crumbFile)
				if p != last {
					last, lastT = p, time.Now()
				}
			}
			if time.Since(lastT) > limit {
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				kill()
				<-done
				res.hung = true
				res.err = fmt.Errorf("no progress for %v", limit)
				res.stderr = eb.String()
				return
			}
		}
	}
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func coordinate() int {
	if f := os.Getenv("VMC_REPLAY_FILE"); f != "" {
		cmd := exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0")
		cmd.Env = append(os.Environ(), "VMC_ROLE=replay", "VMC_REPLAY="+f)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			return 1
		}
		return 0
	}
	id := os.Getenv("VMC_ID")
	ck := registry[id]
	if ck == nil {
		fmt.Println("no such check:", id)
		return 2
	}
	t0 := time.Now()
	tier := tierOf()
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	budget := 240
	if tier == "thorough" {
		budget = 780
	}
	if b, err := strconv.Atoi(os.Getenv("VMC_BUDGET")); err == nil {
		budget = b
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	dir, err := os.MkdirTemp("", "vmc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)

	var viol *violation
	var extraEv map[string]interface{}
	if ck.Extra != nil {
		ev, msg := ck.Extra(tier)
		extraEv = ev
		if msg != "" {
			viol = &violation{Property: id, Item: "free-running pass", Tier: tier, Message: msg, Replays: "rerun the check"}
		}
	}

	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if ck.Workers > 0 && ck.Workers < n {
		n = ck.Workers
	}
	items := ck.Items(tier)
	var merged stats
	merged.Known = map[string]int64{}
	merged.Exhaustive = true
	states := map[uint64]struct{}{}
	outcomes := map[uint64]struct{}{}
	unreproduced := []string{}

	if viol == nil {
		results := make(chan procResult, n)
		stop := make(chan struct{})
		var once sync.Once
		for k := 0; k < n; k++ {
			go func(k int) {
				r := start("worker", []string{
					"VMC_SHARD=" + strconv.Itoa(k), "VMC_SHARDS=" + strconv.Itoa(n), "VMC_DIR=" + dir,
					"VMC_DEADLINE=" + strconv.FormatInt(deadline.Unix(), 10),
				}, filepath.Join(dir, fmt.Sprintf("crumb%d", k)), stop, hangLimit)
				r.shard = k
				results <- r
			}(k)
		}
		cands := []*violation{}
		for k := 0; k < n; k++ {
			r := <-results
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stats%d.json", r.shard)))
			var s stats
			if err == nil {
				json.Unmarshal(b, &s)
			}
			if err != nil {
				merged.Exhaustive = false
				if r.stderr == "stopped" {
					continue
				}
				_, item, choices := readCrumb(filepath.Join(dir, fmt.Sprintf("crumb%d", r.shard)))
				if item < len(items) {
					what := "the execution ended the process"
					if r.hung {
						what = "the execution did not terminate"
					}
					cands = append(cands, &violation{Property: id, Item: items[item].Name, Tier: tier, Choices: choices,
						Message: what + ": " + firstLines(r.stderr, 30)})
					if os.Getenv("VMC_DEBUG") != "" {
						fmt.Println(r.err, r.stderr)
					}
				}
				once.Do(func() { close(stop) })
				continue
			}
			merged.Executions += s.Executions
			merged.Transitions += s.Transitions
			merged.Evaluations += s.Evaluations
			merged.Diverged += s.Diverged
			if s.MaxDepth > merged.MaxDepth {
				merged.MaxDepth = s.MaxDepth
			}
			for k, v := range s.Known {
				merged.Known[k] += v
			}
			if !s.Exhaustive {
				merged.Exhaustive = false
			}
			merged.Samples = append(merged.Samples, s.Samples...)
			for i, it := range s.Items {
				if i >= len(merged.Items) {
					merged.Items = append(merged.Items, it)
					continue
				}
				merged.Items[i].Executions += it.Executions
				merged.Items[i].Done = merged.Items[i].Done && it.Done
			}
			load(filepath.Join(dir, fmt.Sprintf("states%d", r.shard)), states)
			load(filepath.Join(dir, fmt.Sprintf("outcomes%d", r.shard)), outcomes)
			if s.Violation != nil {
				cands = append(cands, s.Violation)
				once.Do(func() { close(stop) })
			}
		}
		// The simplest first: fewest choices.
		sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].Choices) < len(cands[j].Choices) })
		for _, v := range cands {
			if confirm(v, dir) {
				viol = v
				break
			}
			unreproduced = append(unreproduced, v.Item+" "+fmt.Sprint(v.Choices)+": "+firstLines(v.Message, 4))
			merged.Exhaustive = false
		}
	}

	known := knownText(id)
	keys := []string{}
	for k := range merged.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	byWhat := map[string]int{}
	whats := []string{}
	for _, k := range keys {
		if byWhat[known[k]] == 0 {
			whats = append(whats, known[k])
		}
		byWhat[known[k]]++
	}
	for _, wh := range whats {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d listed inputs reproduced)\n", id, wh, byWhat[wh])
	}

	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   merged.Transitions,
		"traces_validated_against_impl": merged.Executions,
		"oracle_comparisons":            merged.Evaluations,
		"distinct_outcomes":             len(outcomes),
		"max_choice_depth":              merged.MaxDepth,
		"exhaustive":                    merged.Exhaustive && merged.Diverged == 0,
		"bounds":                        ck.Bounds,
		"workers":                       n,
	}
	if merged.Diverged > 0 {
		cov["diverged_replays"] = merged.Diverged
	}
	if len(unreproduced) > 0 {
		cov["unreproduced_candidates"] = clip(unreproduced, 5, 2000)
	}
	if len(keys) > 0 {
		cov["known_findings_reproduced"] = len(keys)
	}
	sort.Strings(merged.Samples)
	cov["samples"] = clip(merged.Samples, 6, 1500)
	its := []map[string]interface{}{}
	unfinished := []string{}
	for i, it := range merged.Items {
		if i < 60 {
			its = append(its, map[string]interface{}{"item": it.Name, "executions": it.Executions, "complete": it.Done})
		}
		if !it.Done {
			unfinished = append(unfinished, it.Name)
		}
	}
	cov["items_total"] = len(merged.Items)
	cov["items"] = its
	if len(unfinished) > 0 {
		cov["items_not_completed"] = clip(unfinished, 30, 200)
	}
	for k, v := range extraEv {
		cov[k] = v
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": append([]string{}, ck.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  nv,
	}
	evdir := env("VMC_EVIDENCE", "/verif/evidence")
	os.MkdirAll(evdir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), b, 0644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 2
	}
	if viol != nil {
		rdir := env("VMC_REPLAYS", "/verif/replays")
		os.MkdirAll(rdir, 0755)
		rp := filepath.Join(rdir, id+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, b, 0644)
		fmt.Println(firstLines(viol.Message, 20))
		fmt.Printf("item %s, choices %v, %s\n", viol.Item, viol.Choices, viol.Replays)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("%s held: %d executions, %d states, %d transitions, %d comparisons, %d outcomes, exhaustive=%v, %.1fs\n",
		id, merged.Executions, len(states), merged.Transitions, merged.Evaluations, len(outcomes), cov["exhaustive"], time.Since(t0).Seconds())
	for _, u := range unreproduced {
		fmt.Println("not reproduced:", u)
	}
	return 0
}

func clip(s []string, n, l int) []string {
	out := []string{}
	for i := 0; i < len(s) && i < n; i++ {
		x := s[i]
		if len(x) > l {
			x = x[:l] + "..."
		}
		out = append(out, x)
	}
	return out
}

// confirm replays a candidate in fresh processes.
func confirm(v *violation, dir string) bool {
	f := filepath.Join(dir, "cand.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0644)
	hits, tries := 0, 0
	begin := time.Now()
	for tries < 5 || (hits == 0 && tries < 20) {
		if tries > 0 && time.Since(begin) > 150*time.Second {
			break
		}
		tries++
		of := filepath.Join(dir, "out.json")
		os.Remove(of)
		r := start("replay", []string{"VMC_REPLAY=" + f, "VMC_OUT=" + of}, "", nil, 2*hangLimit)
		ok := false
		if b, err := os.ReadFile(of); err == nil {
			var o struct {
				Msg   string
				Trace []string
			}
			json.Unmarshal(b, &o)
			v.Message, v.Trace = o.Msg, o.Trace
			ok = true
		} else if r.err != nil {
			ok = true
			if r.hung {
				v.Message = "the execution did not terminate: " + firstLines(r.stderr, 30)
			} else {
				v.Message = "the execution ended the process: " + firstLines(r.stderr, 30)
			}
			if r.hung {
				hits++
				break
			}
		}
		if ok {
			hits++
		}
	}
	v.Replays = fmt.Sprintf("reproduced in %d of %d replays", hits, tries)
	return hits > 0
}

func load(file string, m map[uint64]struct{}) {
	f, err := os.Open(file)
	if err != nil {
		return
	}
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<16)
	var b [8]byte
	for {
		if _, err := io.ReadFull(r, b[:]); err != nil {
			return
		}
		m[binary.LittleEndian.Uint64(b[:])] = struct{}{}
	}
}

var _ = debug.Stack
