package main

import (
	"io"
	"sort"
	"sync/atomic"
	"time"
)

// liveSource is a source that has no more than so many bytes yet. When it is
// asked for more, everything that those bytes complete must have been delivered.
type liveSource struct {
	data  []byte
	stops []int
	pos   int
	r     *R
	stop  func(k int)
	waits bool // for more bytes, even where none are asked for
}

func (s *liveSource) Read(p []byte) (int, error) {
	if len(p) == 0 && !s.waits {
		return 0, nil
	}
	for len(s.stops) > 0 && s.pos >= s.stops[0] {
		k := s.stops[0]
		s.stops = s.stops[1:]
		s.stop(k)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	end := len(s.data)
	if len(s.stops) > 0 {
		end = s.stops[0]
	}
	n := copy(p, s.data[s.pos:end])
	if s.r.P(1, 4) && n > 1 {
		n = s.r.In(1, n)
	}
	s.pos += n
	return n, nil
}

// liveLag is how many bytes of an elementary stream may be on their way inside
// a composition: a reader asks the one below for up to eight bytes at once.
const liveLag = 8

func runX09(c *Case) {
	r := c.R
	in := pickLayer(c)
	data := in.data
	async := in.name == "ts demultiplexer" || in.name == "ps decoder"
	need := in.live
	if need == nil {
		need = in.need
	}
	full := need(len(data))
	// places where a result becomes complete
	stops := map[int]bool{}
	at := map[int]bool{}
	for i := range full {
		for t := 0; t < 6 && full[i] > 0; t++ {
			want := r.In(1, full[i])
			k := sort.Search(len(data), func(k int) bool { return need(k)[i] >= want })
			stops[k], at[k] = true, true
			if r.P(1, 4) && k < len(data) {
				stops[k+1] = true
			}
		}
	}
	for t := r.N(6); t > 0; t-- {
		stops[r.N(len(data)+1)] = true
	}
	var l []int
	for k := range stops {
		l = append(l, k)
	}
	sort.Ints(l)
	c.Sig(append([]byte(in.name), data...), full[0] > 0)
	live := make([]int64, len(full))
	var failure interface{}
	src := &liveSource{data: data, stops: l, r: &R{r.U64()}, waits: in.takesSource()}
	src.stop = func(k int) {
		need := need(k)
		c.Count("stops", 1)
		if at[k] {
			c.Count("stops_at_a_result", 1)
			c.Count("stopped at a result: "+in.name, 1)
		}
		deadline := time.Now().Add(20 * time.Second)
		for i := range need {
			c.Count("required_at_stops", need[i])
			for n := 0; int(atomic.LoadInt64(&live[i])) < need[i]; n++ {
				if !async || time.Now().After(deadline) {
					got := atomic.LoadInt64(&live[i])
					src.stops = nil
					if failure == nil {
						failure = k
						c.Note("sequence %d", i)
						c.Note("%s: the source is asked for more than %d of %d bytes when %d results were delivered, %d are complete", in.name, k, len(data), got, need[i])
					}
					return
				}
				if n > 100 {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}
	}
	c.Live = func(seq, n int) { atomic.StoreInt64(&live[seq], int64(n)) }
	o := in.run(c, src, len(data))
	c.Live = nil
	if failure != nil {
		c.Fail("%s: a result that is complete was not delivered before the source was asked for more (stop at byte %v)", in.name, failure)
	}
	c.Count("results", o.count())
	c.Sample("%s: %d bytes, %d stops, %d results", in.name, len(data), len(l), o.count())
}
