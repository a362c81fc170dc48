package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/32bitkid/bitreader"
)

// A failure is thrown by Case.Fail and caught by the worker loop.
type failure struct{ msg string }

// Case is one execution of the real code under observation.
type Case struct {
	named   bool                                // X14: the errors are asked for by name
	newBits func(io.Reader) bitreader.BitReader // X15
	Prop    string
	Idx     int
	Tier    string
	Race    bool // running in the build with the race detector
	Delay   bool // running in the build with pauses
	R       *R
	Input   []byte // primary input, for the replay file
	Notes   []string

	routePID uint32
	// AfterEnd, when set, is told what further calls give after a final error.
	AfterEnd func(results int, err error)

	// Live, when set, is told how many results of a sequence a layer has
	// delivered; Keep about results that are held on to.
	Live func(seq, n int)

	// Watch, when set, is told what a layer reported for an input.
	Watch func(o *obs, data []byte)
	Keep  func(h uint64, again func() uint64)

	st  *Stats
	sig uint64
	nt  bool
}

func (c *Case) Fail(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

func (c *Case) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		panic(failure{fmt.Sprintf(format, args...)})
	}
}

func (c *Case) Note(format string, args ...interface{}) {
	c.Notes = append(c.Notes, fmt.Sprintf(format, args...))
}

// Count adds to a named observation counter.
func (c *Case) Count(k string, n int) { c.st.Counters[k] += int64(n) }

// Acc returns a vector of sums for an aggregate oracle.
func (c *Case) Acc(k string, n int) []int64 {
	if c.st.Acc[k] == nil {
		c.st.Acc[k] = make([]int64, n)
	}
	return c.st.Acc[k]
}

// See records a member of a named set of distinct observations.
func (c *Case) See(set string, h uint64) {
	m := c.st.sets[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.st.sets[set] = m
	}
	if len(m) < 4000000 {
		m[h] = struct{}{}
	}
}

// Sig declares what this case is (for counting distinct cases) and that it is
// non-trivial by the property's rule.
func (c *Case) Sig(b []byte, nontrivial bool) {
	c.sig = hashBytes(b) | 1
	c.nt = nontrivial
	c.Input = b
}

// Length is n, the usual number of items of a history, or now and then far
// more: enough for a counter of 8 bits, and seldom of 16 bits, to wrap.
func (c *Case) Length(n int) int {
	switch {
	case c.R.P(1, 1500):
		n = c.R.In(257, 1500)
		c.Count("long_histories", 1)
	case c.R.P(1, 45000) && !c.Race:
		n = c.R.In(65537, 67000)
		c.Count("very_long_histories", 1)
	}
	return n
}

func (c *Case) Sample(format string, args ...interface{}) {
	if len(c.st.Samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.Samples = append(c.st.Samples, fmt.Sprintf("case %d: %s", c.Idx, s))
	}
}

// Stats is what a worker observed.
type Stats struct {
	Cases      int64
	Nontrivial int64
	Counters   map[string]int64
	Sets       map[string][]uint64
	Acc        map[string][]int64
	Samples    []string

	sets map[string]map[uint64]struct{}
}

func newStats() *Stats {
	return &Stats{Counters: map[string]int64{}, Acc: map[string][]int64{}, sets: map[string]map[uint64]struct{}{}}
}

func (s *Stats) seal() {
	s.Sets = map[string][]uint64{}
	for k, m := range s.sets {
		l := make([]uint64, 0, len(m))
		for h := range m {
			l = append(l, h)
		}
		s.Sets[k] = l
	}
}

// Finding is a fixed probe for a recorded or repaired defect.
type Finding struct {
	ID    string
	Desc  string
	Probe func(c *Case) // fails like a case when the defect is present
}

// Prop is one property with its workload and its monitors.
type Prop struct {
	ID        string
	Rule      string
	Quick     int // cases per tier
	Thorough  int
	RaceQuick int // cases in the -race build (0: none)
	RaceThor  int
	// Cases in the build with pauses in the library's concurrent functions.
	DelayQuick int
	DelayThor  int
	// Cases in a build for a 32-bit platform (the same ones as in the plain build).
	NarrowQuick int
	NarrowThor  int
	Run         func(c *Case)
	// Min lists observations a run must have made to count as a verdict.
	Min map[string]int64
	// Post judges the merged observations of all workers (aggregate oracles).
	// It returns a violation message, or "".
	Post      func(st *Merged) string
	Findings  []Finding
	Assume    []string
	Allowance string
	// Quiet workers notice whatever is written to standard output or error.
	Quiet bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var l []string
	for k := range props {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Violation is what a worker reports about a failing case.
type Violation struct {
	Prop    string   `json:"property"`
	Seed    uint64   `json:"seed"`
	Tier    string   `json:"tier"`
	Idx     int      `json:"case"`
	Build   string   `json:"build"`
	Kind    string   `json:"kind"`
	Message string   `json:"message"`
	Notes   []string `json:"notes,omitempty"`
	Input   string   `json:"input_hex,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Finding string   `json:"finding,omitempty"`
	Replay  string   `json:"replay_cmd,omitempty"`
}

// runCase runs one case and returns a violation or nil.
func runCase(p *Prop, seed uint64, tier string, build int, idx int, st *Stats, f func(*Case)) (v *Violation) {
	c := &Case{Prop: p.ID, Idx: idx, Tier: tier, Race: build == raceBuild, Delay: build == delayBuild, R: newR(seed, p.ID, idx), st: st}
	defer func() {
		if e := recover(); e != nil {
			v = &Violation{Prop: p.ID, Seed: seed, Tier: tier, Idx: idx, Build: buildNames[build], Notes: c.Notes}
			if fl, ok := e.(failure); ok {
				v.Kind, v.Message = "oracle", fl.msg
			} else {
				v.Kind, v.Message = "panic", fmt.Sprint(e)
				v.Stack = string(debug.Stack())
				if _, ok := e.(runtime.Error); ok && !strings.Contains(v.Stack, "32bitkid") {
					// The library returned what no caller could use, such as nothing
					// and no error.
					v.Message = "using what the library returned: " + v.Message
				} else if !ok && !strings.Contains(v.Stack, "32bitkid") {
					v.Kind = "harness-panic"
				}
			}
			if len(c.Input) <= 1<<16 {
				v.Input = hex.EncodeToString(c.Input)
			}
		}
	}()
	f(c)
	st.Cases++
	if c.sig != 0 {
		if c.nt {
			st.Nontrivial++
			c.See("distinct_nontrivial", c.sig)
		}
	}
	return nil
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vmon: "+format+"\n", args...)
	os.Exit(2)
}

// deepHash is a hash of the exported content of a value, following pointers
// (of a struct without exported fields, of all of it).
func deepHash(v interface{}) uint64 {
	var b []byte
	var walk func(x reflect.Value, depth int)
	walk = func(x reflect.Value, depth int) {
		b = append(b, byte(x.Kind()))
		switch x.Kind() {
		case reflect.Bool:
			if x.Bool() {
				b = append(b, 1)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			b = binary.BigEndian.AppendUint64(b, uint64(x.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			b = binary.BigEndian.AppendUint64(b, x.Uint())
		case reflect.Float32, reflect.Float64:
			b = binary.BigEndian.AppendUint64(b, math.Float64bits(x.Float()))
		case reflect.String:
			b = append(b, x.String()...)
		case reflect.Ptr:
			if !x.IsNil() && depth < 10 {
				walk(x.Elem(), depth+1)
			}
		case reflect.Slice, reflect.Array:
			b = binary.BigEndian.AppendUint64(b, uint64(x.Len()))
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), depth+1)
			}
		case reflect.Struct:
			t := x.Type()
			exported := false
			for i := 0; i < t.NumField(); i++ {
				exported = exported || t.Field(i).PkgPath == ""
			}
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath == "" || !exported {
					walk(x.Field(i), depth+1)
				}
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	return hashBytes(b)
}
