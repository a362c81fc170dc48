package main

import (
	"io"
	"sync"

	"github.com/32bitkid/mpeg/pes"
)

// X08: objects that run side by side. X09: nothing waits for what it does not
// need.

func init() {
	min08 := map[string]int64{"objects": 20000, "same_layer": 1000, "switches": 100000, "parallel_runs": 1000, "results_compared": 100000, "results_held": 20000}
	min09 := map[string]int64{"stops": 50000, "required_at_stops": 500000, "stops_at_a_result": 20000}
	for _, l := range sideLayers {
		min08["layer: "+l.name] = 200
	}
	for _, l := range layers {
		min09["layer: "+l.name] = 200
		min09["stopped at a result: "+l.name] = 500
	}
	register(&Prop{
		ID: "X08", Rule: "at least two objects with results each, run side by side",
		Quick: 24000, Thorough: 600000, RaceQuick: 2400, RaceThor: 30000, Run: runX08, Min: min08,
	})
	register(&Prop{
		ID: "X09", Rule: "a stream with at least one result, that stops at many places",
		Quick: 140000, Thorough: 3000000, Run: runX09, Min: min09,
	})
}

// baton lets one of several sources deliver at a time, in an order drawn at random.
type baton struct {
	mu       sync.Mutex
	cond     *sync.Cond
	r        *R
	turn     int
	alive    []int
	switches int
}

func newBaton(r *R, n int) *baton {
	b := &baton{r: r}
	b.cond = sync.NewCond(&b.mu)
	for i := 0; i < n; i++ {
		b.alive = append(b.alive, i)
	}
	b.turn = r.N(n)
	return b
}

func (b *baton) pick() {
	t := -1
	if len(b.alive) > 0 {
		t = b.alive[b.r.N(len(b.alive))]
	}
	if t != b.turn {
		b.switches++
	}
	b.turn = t
	b.cond.Broadcast()
}

func (b *baton) wait(i int) {
	for b.turn != i {
		b.cond.Wait()
	}
}

func (b *baton) start(i int) {
	b.mu.Lock()
	b.wait(i)
	b.mu.Unlock()
}

func (b *baton) yield(i int) {
	b.mu.Lock()
	if b.turn == i {
		b.pick()
	}
	b.wait(i)
	b.mu.Unlock()
}

func (b *baton) done(i int) {
	b.mu.Lock()
	for k, a := range b.alive {
		if a == i {
			b.alive = append(b.alive[:k], b.alive[k+1:]...)
			break
		}
	}
	if b.turn == i {
		b.pick()
	}
	b.mu.Unlock()
}

type batonSource struct {
	io.Reader
	b *baton
	i int
}

func (s *batonSource) Read(p []byte) (int, error) {
	s.b.yield(s.i)
	return s.Reader.Read(p)
}

type held struct {
	mu    sync.Mutex
	first []uint64
	again []func() uint64
}

func (h *held) keep(x uint64, again func() uint64) {
	h.mu.Lock()
	if len(h.first) < 5000 {
		h.first = append(h.first, x)
		h.again = append(h.again, again)
	}
	h.mu.Unlock()
}

// sideLayers also has packets that end with their source: other objects go on
// while one is read.
var sideLayers = append([]layer{
	{"pes packets, the last without length", genUnboundedPackets},
	{"pes payload, the last without length", genUnboundedPayload},
}, layers...)

func unboundedPES(c *Case) []byte {
	p := &pesPkt{id: uint32(0xe0 + c.R.N(16)), unbounded: true}
	p.fill(c.R, pesOpt{})
	p.setPayload(c.R.Bytes(c.R.N(500)))
	data, _ := joinPES(genPESSeq(c, c.R.N(4), pesOpt{maxLoad: 100}))
	return append(data, p.raw...)
}

func genUnboundedPackets(c *Case) *layerIn {
	return &layerIn{data: unboundedPES(c), run: runPESPackets}
}

func genUnboundedPayload(c *Case) *layerIn {
	return &layerIn{data: unboundedPES(c), run: func(c *Case, rd io.Reader, limit int) *obs {
		return readerObs(c, "pes payload reader", pes.NewPayloadReader(rd), nil, limit)
	}}
}

func runX08(c *Case) {
	r := c.R
	n := r.In(2, 5)
	k := c.Idx % len(sideLayers)
	same := r.Bool()
	var ins []*layerIn
	var seeds []uint64
	var sig []byte
	for i := 0; i < n; i++ {
		l := sideLayers[k]
		if i > 0 && !same {
			l = sideLayers[r.N(len(sideLayers))]
		}
		in := l.gen(c)
		in.name = l.name
		c.Count("layer: "+in.name, 1)
		if r.P(1, 8) {
			in.data = mutate(r, in.data)
		}
		if r.P(1, 8) {
			in.data = in.data[:r.N(len(in.data)+1)]
		}
		ins = append(ins, in)
		seeds = append(seeds, r.U64())
		sig = append(append(sig, in.name...), in.data...)
	}
	if same {
		c.Count("same_layer", 1)
	}
	c.Count("objects", n)
	style := []int{chunkOne, chunkSmall, chunkRandom, chunkEmpty}[r.N(4)]
	// each by itself; h holds the results of the run side by side
	h := &held{}
	alone := func(i int) *Case {
		cc := *c
		cc.R = &R{seeds[i]}
		cc.Keep = nil
		cc.AfterEnd = nil
		return &cc
	}
	var base []*obs
	total := 0
	for i, in := range ins {
		o := in.run(alone(i), newSource(in.data, style, &R{seeds[i]}), len(in.data))
		base = append(base, o)
		total += o.count()
	}
	c.Sig(sig, total > 0)
	check := func(how string, f func(i int, cc *Case, src io.Reader) *obs) {
		got := make([]*obs, n)
		fails := make([]interface{}, n)
		var wg sync.WaitGroup
		for i := range ins {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { fails[i] = recover() }()
				cc := alone(i)
				cc.Keep = h.keep
				got[i] = f(i, cc, newSource(ins[i].data, style, &R{seeds[i]}))
			}(i)
		}
		wg.Wait()
		for i, in := range ins {
			if fails[i] != nil {
				c.Note("%s, %s", in.name, how)
				panic(fails[i])
			}
			if d := diffObs(got[i], base[i]); d != "" {
				c.Fail("%s, with %d others %s: %s", in.name, n-1, how, d)
			}
			c.Count("results_compared", base[i].count())
		}
	}
	if !c.Race {
		b := newBaton(&R{r.U64()}, n)
		check("in turns", func(i int, cc *Case, src io.Reader) *obs {
			b.start(i)
			defer b.done(i)
			return ins[i].run(cc, &batonSource{src, b, i}, len(ins[i].data))
		})
		c.Count("switches", b.switches)
	}
	if c.Race || r.P(1, 3) {
		c.Count("parallel_runs", 1)
		check("in parallel", func(i int, cc *Case, src io.Reader) *obs {
			return ins[i].run(cc, src, len(ins[i].data))
		})
	}
	for i, f := range h.again {
		if x := f(); x != h.first[i] {
			c.Fail("a result that was held on to changed while other objects went on (%d of %d)", i, len(h.first))
		}
	}
	c.Count("results_held", len(h.first))
	c.Sample("%d objects, %d results", n, total)
}
