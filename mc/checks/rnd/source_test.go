package rnd

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/RH12503/Triangula/random"
	"github.com/dgryski/go-pcgr"
	"verifmc/explore"
)

// feed supplies given words and counts what was taken.
type feed struct {
	words []uint32
	at    int
}

func (f *feed) next() uint32 {
	f.at++
	if f.at <= len(f.words) {
		return f.words[f.at-1]
	}
	if f.at > 10000 {
		panic("10000 words were not enough")
	}
	return uint32(f.at)*2654435761 | 1
}

func float(w uint32) float64 { return float64(float32(w) / float32(math.MaxUint32)) }

// std is a source for the standard library's normal deviates: the first value of each round is a 32-bit word, the
// others are floats.
type std struct {
	vals []int64
	at   int
}

func (s *std) Seed(int64) {}
func (s *std) Int63() int64 {
	if s.at < len(s.vals) {
		s.at++
		return s.vals[s.at-1]
	}
	s.at++
	return 1 << 50
}

// quick decision of the standard library: a word that needs no others.
type layerSource struct {
	w    uint32
	used int
}

func (s *layerSource) Seed(int64) {}
func (s *layerSource) Int63() int64 {
	s.used++
	if s.used == 1 {
		return int64(s.w) << 31
	}
	return 1 << 31 * 0x3fffffff // a word that is accepted at once and a float that is fine as well
}

// wordsItem gives every word of a set to the normal deviate: its fast path has to agree with the standard library.
func wordsItem(name string, blocks, per int, word func(b, i int) uint32) explore.Item {
	return explore.Item{Name: name, Run: func(c *explore.Ctx) {
		b := c.Choose(blocks)
		if c.Skipped() {
			return
		}
		src := &layerSource{}
		ref := rand.New(src)
		f := &feed{words: []uint32{0, 0x3fffffff, 0x3fffffff, 0x3fffffff}}
		pcgr.NextHook = f.next
		defer func() { pcgr.NextHook = nil }()
		slow := 0
		for i := 0; i < per; i++ {
			w := word(b, i)
			f.words[0] = w
			f.at = 0
			got := random.NormFloat64()
			n := f.at
			src.w, src.used = w, 0
			want := ref.NormFloat64()
			fast := src.used == 1
			if fast != (n == 1) {
				c.Fail("the word %#x took %d words, the standard library %d", w, n, src.used)
			}
			if fast && got != want {
				c.Fail("the word %#x gives %v, the standard library %v", w, got, want)
			}
			if math.IsNaN(got) || math.IsInf(got, 0) {
				c.Fail("the word %#x gives %v", w, got)
			}
			if !fast {
				slow++
			}
			f.at = 0
			fl := random.Float32()
			if !(fl >= 0 && fl < 1) {
				c.Fail("the word %#x gives the float %v", w, fl)
			}
			if f.at == 1 && math.Abs(float64(fl)-float64(w)/(1<<32)) > 1e-6 {
				c.Fail("the word %#x gives the float %v", w, fl)
			}
			f.at = 0
			if u := random.Uint32(); u != w {
				c.Fail("the word %#x gives %#x", w, u)
			}
		}
		c.Eval(4 * per)
		c.State(explore.NewH().I(b).I(slow).Sum())
		c.Outcome(explore.NewH().I(slow).Sum())
	}}
}

// slowItem: words that need more words, compared with the standard library given the same floats.
func slowItem(first func(layer, i int) uint32, per int, follow []uint32, chain int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("retries of the normal deviate: %d words for each layer, every chain of %d following words out of %d", per, chain, len(follow)), Run: func(c *explore.Ctx) {
		layer := c.Choose(128)
		w := first(layer, c.Choose(per))
		ch := []uint32{}
		for len(ch) < chain {
			ch = append(ch, follow[c.Choose(len(follow))])
		}
		if c.Skipped() {
			return
		}
		f := &feed{words: append(append([]uint32{w}, ch...), 0x3fffffff, 0x3fffffff, 0x3fffffff)}
		pcgr.NextHook = f.next
		got := random.NormFloat64()
		pcgr.NextHook = nil
		c.Eval(1)
		c.Logf("words %x -> %v after %d", f.words, got, f.at)
		if math.IsNaN(got) || math.IsInf(got, 0) {
			c.Fail("the words %#x give %v", f.words, got)
		}
		c.State(explore.NewH().F(got).I(f.at).Sum())
		if f.at == 1 {
			c.Outcome(0)
			return
		}
		// The standard library takes a word, then either pairs of floats (in the base layer) or one float and a word.
		vals := []int64{}
		at := 0
		edge := false // a float that the standard library cannot draw, or that leads to an infinite deviate
		word := func() int64 {
			v := int64(f.words[at]) << 31
			at++
			return v
		}
		flt := func() int64 {
			v := float(f.words[at])
			at++
			if v >= 1 {
				edge = true
				return 0
			}
			return int64(v * (1 << 63))
		}
		// In the base layer every following value is a float; in the others floats and words alternate.
		j := f.words[0]
		base := j&0x7f == 0
		vals = append(vals, word())
		for len(vals) < f.at && at < len(f.words) {
			if base {
				vals = append(vals, flt())
			} else if len(vals)%2 == 1 {
				vals = append(vals, flt())
			} else {
				vals = append(vals, word())
				// A word of the base layer outside its fast range switches to floats.
				if f.words[at-1]&0x7f == 0 && abs32(f.words[at-1]) >= 0x76ad2212 {
					base = true
				}
			}
		}
		if edge || base && zeroPair(f.words[:f.at]) {
			c.Outcome(1)
			return
		}
		s := &std{vals: vals}
		want := rand.New(s).NormFloat64()
		if s.at != f.at || got != want && math.Abs(got-want) > 1e-12 {
			c.Fail("the words %#x give %v after %d of them, the standard library %v after %d", f.words, got, f.at, want, s.at)
		}
		c.Outcome(explore.NewH().I(f.at).I(2).Sum())
	}}
}

func abs32(w uint32) uint32 {
	if int32(w) < 0 {
		return -w
	}
	return w
}

func zeroPair(ws []uint32) bool {
	for i := 1; i < len(ws); i++ {
		if ws[i] == 0 && ws[i-1] == 0 {
			return true
		}
	}
	return false
}

// boundItem: bounded integers for every word near the edges of acceptance.
func boundItem(bounds []int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("integers below %d bounds, words at the edges", len(bounds)), Run: func(c *explore.Ctx) {
		n := bounds[c.Choose(len(bounds))]
		u := uint32(n)
		th := -u % u // words below are rejected to keep the residues equally likely
		ws := []uint32{0, 1, 2, th - 1, th, th + 1, th / 2, u - 1, u, u + 1, 1 << 31, 1<<31 - 1, 1<<31 + 1, math.MaxUint32, math.MaxUint32 - 1, math.MaxUint32 - u, math.MaxUint32 - u + 1, 0x12345678}
		a, b := ws[c.Choose(len(ws))], ws[c.Choose(len(ws))]
		if c.Skipped() {
			return
		}
		f := &feed{words: []uint32{a, b}}
		pcgr.NextHook = f.next
		got := random.Intn(n)
		pcgr.NextHook = nil
		c.Eval(1)
		c.Logf("below %d from %#x %#x: %d", n, a, b, got)
		if got < 0 || got >= n {
			c.Fail("the integer below %d from the words %#x, %#x is %d", n, a, b, got)
		}
		c.State(explore.NewH().I(n).I(got).Sum())
	}}
}

// evenItem: over all words the values below a bound are equally likely.
func evenItem(bounds []int, high int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("integers below %v: how often each value comes up, over all words with %d high parts", bounds, high), Run: func(c *explore.Ctx) {
		n := bounds[c.Choose(len(bounds))]
		part := c.Choose(high)
		if c.Skipped() {
			return
		}
		// A run of consecutive words, as long as a multiple of the bound, has to give every value equally often.
		count := make([]int, n)
		total := 1 << 16 / n * n
		f := &feed{words: []uint32{0}}
		pcgr.NextHook = f.next
		base := uint32(part)*uint32(math.MaxUint32/high) + uint32(n)
		for i := 0; i < total; i++ {
			f.words[0] = base + uint32(i)
			f.at = 0
			v := random.Intn(n)
			if v < 0 || v >= n {
				pcgr.NextHook = nil
				c.Fail("the integer below %d from the word %#x is %d", n, f.words[0], v)
			}
			if f.at == 1 {
				count[v]++
			}
		}
		pcgr.NextHook = nil
		c.Eval(total)
		lo, hi := total, 0
		for _, k := range count {
			if k < lo {
				lo = k
			}
			if k > hi {
				hi = k
			}
		}
		c.State(explore.NewH().I(n).I(part).Sum())
		if hi-lo > 1+hi/4 {
			c.Fail("of %d consecutive words from %#x on, %d to %d give the same integer below %d", total, base, lo, hi, n)
		}
	}}
}

func int63Item() explore.Item {
	ws := []uint32{0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x12345678, 0xFEDCBA98}
	return explore.Item{Name: "63-bit integers from every pair of words", Run: func(c *explore.Ctx) {
		a, b := ws[c.Choose(len(ws))], ws[c.Choose(len(ws))]
		if c.Skipped() {
			return
		}
		f := &feed{words: []uint32{a, b}}
		pcgr.NextHook = f.next
		got := random.Int63()
		pcgr.NextHook = nil
		c.Eval(2)
		if got < 0 {
			c.Fail("the words %#x, %#x give the negative integer %d", a, b, got)
		}
		want := int64(a&0x7FFFFFFF)<<32 | int64(b)
		if got != want {
			c.Fail("the words %#x, %#x give %#x, not all bits of them", a, b, got)
		}
		c.State(uint64(got))
	}}
}

// ref repeats the calls on a source of its own.
type ref struct{ r pcgr.Rand }

func (r *ref) float() float32 {
	for {
		if f := r.r.Float32(); f < 1 {
			return f
		}
	}
}

// seedItem: every sequence of calls, with seeding in between, determined by the seed alone.
func seedItem(depth int, seeds []int64) explore.Item {
	return explore.Item{Name: fmt.Sprintf("every sequence of %d calls with seeds %v", depth, seeds), Run: func(c *explore.Ctx) {
		first := seeds[c.Choose(len(seeds))]
		random.Seed(first)
		s := &ref{pcgr.New(first, 0)}
		h := explore.NewH().U(uint64(first))
		var ops []int
		seen := map[int64][]uint64{}
		cur := first
		fresh := []uint64{}
		note := func(op int, bits uint64) {
			// the same calls after the same seed give the same values
			fresh = append(fresh, uint64(op), bits)
			prev := seen[cur]
			for i := 0; i < len(fresh) && i < len(prev); i += 2 {
				if prev[i] != fresh[i] {
					break
				}
				if prev[i+1] != fresh[i+1] {
					c.Fail("calls %v: seeding with %d again does not repeat the values", ops, cur)
				}
			}
		}
		for d := 0; d < depth; d++ {
			op := c.Choose(6 + len(seeds))
			ops = append(ops, op)
			if c.Skipped() {
				return
			}
			c.Eval(1)
			switch op {
			case 0:
				got, want := random.Intn(7), int(s.r.Bound(7))
				note(op, uint64(got))
				if got != want {
					c.Fail("seed %d, calls %v: an integer below 7 is %d, not %d", first, ops, got, want)
				}
			case 1:
				got, want := random.Float32(), s.float()
				note(op, uint64(math.Float32bits(got)))
				if math.Abs(float64(got-want)) > 1e-6 {
					c.Fail("seed %d, calls %v: a float is %v, not %v", first, ops, got, want)
				}
			case 2:
				got, want := random.Int63(), s.r.Int63()
				note(op, uint64(got))
				if got != want {
					c.Fail("seed %d, calls %v: a 63-bit integer is %d, not %d", first, ops, got, want)
				}
			case 3:
				got, want := random.Uint32(), s.r.Next()
				note(op, uint64(got))
				if got != want {
					c.Fail("seed %d, calls %v: a word is %d, not %d", first, ops, got, want)
				}
			case 4:
				got := random.NormFloat64()
				note(op, math.Float64bits(got))
				w := s.r
				want, fast := rand.New(&one{&w}).NormFloat64(), false
				if j := s.r.Next(); abs32(j) < 0x70000000 && j&0x7f > 4 {
					fast = true
				}
				if fast && got != want {
					c.Fail("seed %d, calls %v: a normal deviate is %v, not %v", first, ops, got, want)
				}
				if !fast {
					// how many words it took is not known: only later seeding makes it comparable again
					c.Prune()
				}
			case 5:
				got, want := random.Intn(1<<31), int(s.r.Bound(1<<31))
				note(op, uint64(got))
				if got != want {
					c.Fail("seed %d, calls %v: an integer below 2^31 is %d, not %d", first, ops, got, want)
				}
			default:
				if len(fresh) > len(seen[cur]) {
					seen[cur] = fresh
				}
				fresh = nil
				cur = seeds[op-6]
				random.Seed(cur)
				s.r = pcgr.New(cur, 0)
			}
			h = h.I(op)
			c.State(h.U(s.r.State).Sum())
		}
		c.Outcome(h.U(s.r.State).Sum())
	}}
}

// one gives the words of a source to the standard library.
type one struct{ r *pcgr.Rand }

func (o *one) Seed(int64)   {}
func (o *one) Int63() int64 { return int64(o.r.Next()) << 31 }

// Edges of the layers: the words around the largest that is accepted at once.
var edges [128][]uint32

func findEdges() {
	src := &layerSource{}
	r := rand.New(src)
	fast := func(w uint32) bool {
		src.w, src.used = w, 0
		r.NormFloat64()
		return src.used == 1
	}
	for l := 0; l < 128; l++ {
		// multiples of 128 plus the layer, up to 2^31: accepted below an edge
		lo, hi := 0, 1<<24
		for lo < hi {
			mid := (lo + hi) / 2
			if fast(uint32(mid<<7 | l)) {
				lo = mid + 1
			} else {
				hi = mid
			}
		}
		for k := -2; k <= 2; k++ {
			if v := lo + k; v >= 0 && v < 1<<24 {
				w := uint32(v<<7 | l)
				edges[l] = append(edges[l], w)
			}
		}
		// negative words of the same layer
		lo, hi = 0, 1<<24
		for lo < hi {
			mid := (lo + hi) / 2
			if fast(-uint32(mid<<7 | (128-l)&0x7f)) {
				lo = mid + 1
			} else {
				hi = mid
			}
		}
		for k := -2; k <= 2; k++ {
			if v := lo + k; v >= 0 && v < 1<<24 {
				edges[l] = append(edges[l], -uint32(v<<7|(128-l)&0x7f))
			}
		}
		edges[l] = append(edges[l], uint32(1<<31-128|l), uint32(1<<31|l), uint32(1<<31+128|l), uint32(l))
	}
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C23",
		Bounds: "normal deviates, floats and words: every source word whose middle nine bits take one of eight values (2^26 words; thorough: all 2^32), each compared with the standard library where it decides at once; its retries for the words around the edge of each of the 128 layers with every chain of following words from an alphabet with extremes; bounded integers for bounds up to 2^32-1 with words at the edges of acceptance; every sequence of calls and seedings up to a depth",
		Assumptions: []string{
			"the PCG source is replaced by a copy with a hook; the copy itself is the reference for what a seed determines",
		},
		Items: func(tier string) []explore.Item {
			findEdges()
			mids := []uint32{0, 1, 2, 0x55, 0xAA, 0x100, 0x1FE, 0x1FF}
			per := 99
			for _, e := range edges {
				if len(e) < per {
					per = len(e)
				}
			}
			follow := []uint32{0, 1, 0x100, 0x01000000, 0x40000000, 0x80000001, 0xC0000003, 0xFFFFFF00, 0xFFFFFFFF, 0x7FFFFF80, 0x10000005}
			bounds := []int{1, 2, 3, 4, 5, 7, 10, 16, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 1<<24 + 1, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 2, 1<<32 - 1}
			chain, depth := 3, 6
			if tier == "thorough" {
				chain, depth = 4, 7
			}
			its := []explore.Item{
				slowItem(func(l, i int) uint32 { return edges[l][i] }, per, follow, chain),
				boundItem(bounds),
				evenItem([]int{1, 2, 3, 5, 7, 10, 64, 100, 1000}, 32),
				int63Item(),
				seedItem(depth, []int64{0, 1, -1, 2005}),
				seedItem(4, []int64{1 << 40, math.MaxInt64, math.MinInt64}),
			}
			if tier == "thorough" {
				its = append(its, wordsItem("every word", 1<<14, 1<<18, func(b, i int) uint32 { return uint32(b)<<18 | uint32(i) }))
			} else {
				its = append(its, wordsItem("every word with one of eight middle parts", 1<<10, 1<<16, func(b, i int) uint32 {
					return uint32(b)<<22 | uint32(i>>10)<<16 | mids[i>>7&7]<<7 | uint32(i&0x7f)
				}))
			}
			return its
		},
	})
}
