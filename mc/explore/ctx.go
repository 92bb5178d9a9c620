// Package explore is a stateless explorer: it enumerates, depth first and without
// repetition, every sequence of answers to the Choose calls of a harness, and runs the
// harness (which drives the real code) once per sequence.
package explore

import (
	"fmt"
	"hash/fnv"
	"math"
	"runtime/debug"
	"strings"
	"testing"
)

// An Item is one harness together with one configuration.
type Item struct {
	Name string
	Run  func(c *Ctx)
	// NoShard keeps the item on a single worker.
	NoShard bool
}

// Ctx is the view a harness has of one execution.
type Ctx struct {
	T    *testing.T // only for harnesses that need a synctest bubble
	Tier string

	widths  []int
	path    []int
	pos     int
	changed int // the first index at which this execution differs from the previous one
	fixed   bool

	shard, shards int
	itemHash      uint64
	prod          uint64
	decided       bool
	skip          bool
	diverged      bool

	rec   bool
	log   []string
	w     *worker
	obs   uint64
	fresh bool
	evals int64
}

type failure struct{ msg string }

type pruned struct{}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

const shardTarget = 512

func (c *Ctx) decide(final bool) {
	if c.decided || c.shards <= 1 || c.fixed {
		return
	}
	if c.prod < shardTarget && !final {
		return
	}
	c.decided = true
	h := c.itemHash
	for i := 0; i < c.pos; i++ {
		h = mix(h, uint64(c.path[i])+1)
	}
	if int(h%uint64(c.shards)) != c.shard {
		c.skip = true
	}
}

// Choose returns a value in [0,n); over all executions it returns every one of them.
func (c *Ctx) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if c.skip {
		return 0
	}
	var v int
	if c.pos < len(c.path) {
		v = c.path[c.pos]
		if v >= n {
			c.diverged = true
			v = 0
		}
		if c.pos < len(c.widths) && c.widths[c.pos] != n && c.pos < c.changed {
			c.diverged = true
		}
	} else {
		c.path = append(c.path, 0)
	}
	if c.pos < len(c.widths) {
		c.widths[c.pos] = n
	} else {
		c.widths = append(c.widths, n)
	}
	c.pos++
	if c.w != nil {
		c.w.crumb(c.pos-1, v)
		if c.pos > c.changed && (c.decided || c.shards <= 1 || c.shard == 0) {
			c.w.stats.Transitions++
		}
	}
	if c.prod < 1<<40 {
		c.prod *= uint64(n)
	}
	c.decide(false)
	return v
}

// Skipped tells whether this execution belongs to another worker; its checks may be left out.
func (c *Ctx) Skipped() bool { return c.skip }

// Fresh tells whether the current prefix of the execution has not been visited before.
func (c *Ctx) Fresh() bool { return !c.skip && (c.pos > c.changed || c.fresh) }

// Prune ends the execution quietly: the branch is outside the domain.
func (c *Ctx) Prune() { panic(pruned{}) }

// Fail reports a violation of the property.
func (c *Ctx) Fail(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Finding reports a violation that may be listed as known; it returns when it is.
func (c *Ctx) Finding(key, format string, args ...interface{}) {
	if c.w != nil && c.w.known[key] {
		c.w.stats.Known[key]++
		return
	}
	c.Fail("["+key+"] "+format, args...)
}

// Recording tells whether the trace of this execution is kept.
func (c *Ctx) Recording() bool { return c.rec }

// Logf adds a line to the trace.
func (c *Ctx) Logf(format string, args ...interface{}) {
	if c.rec && len(c.log) < 400 {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// State records a state of the system reached by this execution.
func (c *Ctx) State(h uint64) {
	c.obs = mix(c.obs, h)
	if c.w == nil || c.skip {
		return
	}
	c.w.addState(mix(c.itemHash, h))
}

// Outcome records an observable result of an execution.
func (c *Ctx) Outcome(h uint64) {
	c.obs = mix(c.obs, h)
	if c.w == nil || c.skip {
		return
	}
	if len(c.w.outcomes) < 1<<20 {
		c.w.outcomes[h] = struct{}{}
	}
}

// Eval counts property evaluations (comparisons with the oracle).
func (c *Ctx) Eval(n int) {
	if !c.skip {
		c.evals += int64(n)
	}
}

// run executes the item once. It returns a violation message or "".
func (c *Ctx) run(it *Item) (msg string) {
	c.pos = 0
	c.evals = 0
	c.prod = 1
	c.decided = false
	c.skip = false
	c.diverged = false
	c.obs = 1469598103934665603
	c.log = c.log[:0]
	if it.NoShard {
		c.decided = true
		if c.shards > 1 && int(c.itemHash%uint64(c.shards)) != c.shard {
			c.skip = true
			return ""
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch f := r.(type) {
			case failure:
				msg = f.msg
			case pruned:
				msg = ""
			default:
				msg = fmt.Sprintf("the code under test panicked: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}
	}()
	it.Run(c)
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "Triangula") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Hash helpers.

type H uint64

func NewH() H                    { return 14695981039346656037 }
func (h H) I(v int) H            { return H(mix(uint64(h), uint64(v))) }
func (h H) U(v uint64) H         { return H(mix(uint64(h), v)) }
func (h H) F(v float64) H        { return H(mix(uint64(h), math.Float64bits(v))) }
func (h H) S(s string) H         { f := fnv.New64a(); f.Write([]byte(s)); return h.U(f.Sum64()) }
func (h H) Sum() uint64          { return uint64(h) }
func HashString(s string) uint64 { return NewH().S(s).Sum() }
