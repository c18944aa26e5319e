// Package pbt is a small choice-sequence property-based testing engine.
//
// Every random decision of a case is one word of a choice sequence. In search
// the words come from a seeded PRNG; in shrinking and replay they come from a
// recorded sequence (missing words are 0, the simplest choice). Cases are a
// pure function of (seed, property, index).
package pbt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Case is one generated case in progress.
type Case struct {
	Index   int
	rng     uint64
	replay  []uint32
	pos     int
	replayM bool
	rec     []uint32
	maxLen  int

	Labels     map[string]int
	Inputs     []string // the concrete inputs given to the code under test
	NonTrivial bool
	Note       func(string) // records the input in the crash slot
	Tier       string
	discarded  bool
}

type failure struct{ msg string }
type discard struct{}
type overrun struct{}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func seedOf(seed int64, prop string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, index)
	return mix(h.Sum64())
}

func (c *Case) word() uint32 {
	var w uint32
	if c.replayM {
		if c.pos < len(c.replay) {
			w = c.replay[c.pos]
		}
		c.pos++
	} else {
		c.rng += 0x9e3779b97f4a7c15
		x := c.rng
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		w = uint32((x ^ (x >> 31)) >> 32)
	}
	c.rec = append(c.rec, w)
	if len(c.rec) > c.maxLen {
		panic(overrun{})
	}
	return w
}

// Intn draws in [0,n); 0 is the simplest.
func (c *Case) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	w := c.word()
	v := int(w % uint32(n))
	c.rec[len(c.rec)-1] = uint32(v)
	return v
}

// Range draws in [lo,hi].
func (c *Case) Range(lo, hi int) int { return lo + c.Intn(hi-lo+1) }

// P is true with probability num/den; false is simplest.
func (c *Case) P(num, den int) bool { return c.Intn(den) >= den-num }

func (c *Case) Bool() bool { return c.Intn(2) == 1 }

// Weighted draws an index according to weights; earlier is simpler.
func (c *Case) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := c.Intn(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func Pick[T any](c *Case, xs []T) T { return xs[c.Intn(len(xs))] }

// Fail aborts the case as a violation.
func (c *Case) Fail(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Discard drops the case (counted).
func (c *Case) Discard() { panic(discard{}) }

func (c *Case) Label(s string) { c.Labels[s]++ }

// Input records a concrete input handed to the code under test.
func (c *Case) Input(s string) {
	c.Inputs = append(c.Inputs, s)
	if c.Note != nil {
		c.Note(s)
	}
}

type Prop func(*Case)

// Result of running one case.
type Result struct {
	Failed    bool
	Msg       string
	Stack     string
	Discarded bool
	Overrun   bool
	Case      *Case
	Choices   []uint32
}

// RunCase runs one case; choices==nil means search mode.
func RunCase(p Prop, seed int64, prop string, index int, choices []uint32, replay bool, note func(string), tier string) (res Result) {
	c := &Case{Index: index, rng: seedOf(seed, prop, index), replay: choices, replayM: replay, Labels: map[string]int{}, maxLen: 200000, Note: note, Tier: tier}
	res.Case = c
	defer func() {
		res.Choices = c.rec
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				res.Failed = true
				res.Msg = v.msg
			case discard:
				res.Discarded = true
			case overrun:
				res.Discarded = true
				res.Overrun = true
			default:
				res.Failed = true
				res.Stack = string(debug.Stack())
				res.Msg = fmt.Sprintf("panic: %v", r)
			}
		}
	}()
	p(c)
	return
}

// Shrink minimises a failing choice sequence. keep decides whether a candidate
// result still shows the failure.
func Shrink(run func([]uint32) Result, best Result, budget int) Result {
	n := 0
	try := func(cand []uint32) bool {
		if n >= budget {
			return false
		}
		n++
		r := run(cand)
		if r.Failed && less(r.Choices, best.Choices) {
			best = r
			return true
		}
		return false
	}
	for improved := true; improved && n < budget; {
		improved = false
		// delete chunks
		for size := len(best.Choices) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Choices) && n < budget; {
				cand := append(append([]uint32{}, best.Choices[:i]...), best.Choices[i+size:]...)
				if try(cand) {
					improved = true
				} else {
					i += size
					if size == 1 && i%1 == 0 {
					}
				}
			}
		}
		// zero chunks
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i < len(best.Choices) && n < budget; i += size {
				cand := append([]uint32{}, best.Choices...)
				ch := false
				for j := i; j < i+size && j < len(cand); j++ {
					if cand[j] != 0 {
						cand[j] = 0
						ch = true
					}
				}
				if ch && try(cand) {
					improved = true
				}
			}
		}
		// lower values
		for i := 0; i < len(best.Choices) && n < budget; i++ {
			for best.Choices[i] > 0 && n < budget {
				cand := append([]uint32{}, best.Choices...)
				cand[i] /= 2
				if try(cand) {
					improved = true
					if i >= len(best.Choices) {
						break
					}
					continue
				}
				cand = append([]uint32{}, best.Choices...)
				cand[i]--
				if !try(cand) {
					break
				}
				improved = true
				if i >= len(best.Choices) {
					break
				}
			}
			if i >= len(best.Choices) {
				break
			}
		}
	}
	return best
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Replay is the file written for a violation.
type Replay struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Index    int      `json:"index"`
	Message  string   `json:"message"`
	Inputs   []string `json:"inputs"`
	Choices  []uint32 `json:"choices,omitempty"`
	Stack    string   `json:"stack,omitempty"`
}

func WriteReplay(path string, r Replay) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func TopLabels(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, m[k])
	}
	return ks
}

var _ = strings.Join
