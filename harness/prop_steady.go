package main

import (
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

func init() {
	min := map[string]int64{"heap_measurements": 2000, "results": 100000, "results_compared": 50000, "goroutine_checks": 500, "more_than_65536_packets": 20}
	for _, l := range steadyKinds {
		min["layer: "+l] = 20
	}
	register(&Prop{
		ID: "X05", Rule: "a stream of many repetitions with results in every one",
		Quick: 700, Thorough: 24000, Run: runX05, Min: min,
	})
}

// loopSource delivers data again and again; it calls mark when certain shares
// of the whole have been delivered.
type loopSource struct {
	data  []byte
	total int
	pos   int
	r     *R
	style int
	err   error
	marks []int
	mark  func()
}

func (s *loopSource) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for len(s.marks) > 0 && s.pos >= s.marks[0] {
		s.marks = s.marks[1:]
		s.mark()
	}
	if s.pos >= s.total {
		return 0, s.err
	}
	off := s.pos % len(s.data)
	n := len(s.data) - off
	if n > s.total-s.pos {
		n = s.total - s.pos
	}
	if n > len(p) {
		n = len(p)
	}
	if s.style == chunkRandom {
		if k := s.r.In(1, 2000); k < n {
			n = k
		}
	}
	copy(p, s.data[off:off+n])
	s.pos += n
	return n, nil
}

// periodic checks that a sequence of results repeats.
type periodic struct {
	lead, period int // results of the first repetition, and of every further one
	ring         []uint64
	n            int
	compared     int
	bad          string
}

func (p *periodic) add(h uint64) {
	if p.period > 0 {
		if p.ring == nil {
			p.ring = make([]uint64, p.period)
		}
		k := p.n % p.period
		if p.n >= p.lead+p.period {
			if p.ring[k] != h && p.bad == "" {
				p.bad = fmt.Sprintf("result %d differs from result %d, which the same bytes gave", p.n, p.n-p.period)
			}
			p.compared++
		}
		p.ring[k] = h
	}
	p.n++
}

var steadyKinds = []string{"ts packets", "ts packet object", "ts payload reader", "ts payload unit reader", "ts demultiplexer",
	"pes packets", "pes payload reader", "ps pack reader", "ps decoder", "video sequences", "video groups", "transport stream to video", "program stream to video",
	"ts large units", "pes large packets", "ts packets between junk", "video with optional syntax"}

func drainSteady(rd io.Reader, mark error, buf int, add func(uint64)) error {
	p := make([]byte, buf)
	empty := 0
	for {
		n, err := rd.Read(p)
		for _, x := range p[:n] {
			add(uint64(x))
		}
		if err != nil && mark != nil && err == mark {
			add(evMark)
			err = nil
		} else if n == 0 && err == nil {
			if empty++; empty > 100000 {
				return fmt.Errorf("neither data nor error")
			}
		} else {
			empty = 0
		}
		if err != nil {
			return err
		}
	}
}

func runX05(c *Case) {
	r := c.R
	kind := c.Idx % len(steadyKinds)
	name := steadyKinds[kind]
	c.Count("layer: "+name, 1)
	var data []byte
	size := 3000000 // of the whole stream
	nseq := 1
	units := 0 // packets or packs in a repetition, where streams of very many are made
	slack := 0 // what is being put together at the time of a measurement
	buf := []int{1, 100, 188, 4096, 65536}[r.N(5)]
	var run func(rd io.Reader, add []*periodic) error
	one := func(p []*periodic) func(uint64) { return p[0].add }
	tsBase := func() ([]*tsPkt, []uint32) {
		pids := tsPids(r)
		l := genTSSeq(c, r.In(20, 80), tsOpt{pids: pids})
		l[0].pid, l[0].pusi = pids[0], true
		l[0].build(r)
		units = len(l)
		return l, pids
	}
	esBase := func() []byte {
		o := defaultOpt()
		o.maxMBW, o.maxMBH, o.pics = 3, 3, 8
		o.density = r.N(2)
		o.gopHeaders = 1
		return genVideos(r, r.In(1, 2), o).encode(nil)
	}
	frames := func(vs *video.VideoSequence, add func(uint64)) error {
		for {
			img, err := vs.Next()
			if err == video.EOS {
				add(evMark)
				continue
			}
			if err != nil {
				return err
			}
			add(hashFrame(img))
		}
	}
	switch name {
	case "ts packets", "ts packet object":
		l, _ := tsBase()
		data = joinTS(l)
		run = func(rd io.Reader, add []*periodic) error {
			br := bitreader.NewReader(rd)
			obj := &ts.Packet{}
			for {
				var err error
				if kind == 0 {
					obj, err = ts.NewPacket(br)
				} else {
					err = obj.Next(br)
				}
				if err != nil {
					return err
				}
				one(add)(hashTSPacket(obj))
			}
		}
	case "ts payload reader":
		l, pids := tsBase()
		data = joinTS(l)
		where := genExpr(r, 1, pids)
		run = func(rd io.Reader, add []*periodic) error {
			return drainSteady(ts.NewPayloadReader(rd, where.build(nil)), nil, buf, one(add))
		}
	case "ts payload unit reader":
		l, pids := tsBase()
		data = joinTS(l)
		run = func(rd io.Reader, add []*periodic) error {
			return drainSteady(ts.NewPayloadUnitReader(rd, ts.IsPID(pids[0])), ts.EOP, buf, one(add))
		}
	case "ts demultiplexer":
		l, pids := tsBase()
		data = joinTS(l)
		a, b := genExpr(r, 1, pids), genExpr(r, 1, pids)
		nseq = 4
		run = func(rd io.Reader, add []*periodic) error {
			dm := ts.NewDemuxer(rd)
			ca, cb := dm.Where(a.build(nil)), dm.Where(b.build(nil)).PayloadOnly()
			cu, cx := dm.Where(ts.IsPID(pids[0])).PayloadUnit(), dm.Where(ts.IsPayloadUnitStart)
			done := dm.Go()
			var wg sync.WaitGroup
			wg.Add(4)
			go func() {
				defer wg.Done()
				for p := range ca {
					add[0].add(hashTSPacket(p))
				}
			}()
			go func() {
				defer wg.Done()
				for p := range cb {
					add[1].add(hashBytes(p))
				}
			}()
			go func() {
				defer wg.Done()
				for p := range cu {
					add[2].add(hashBytes(p))
				}
			}()
			go func() {
				defer wg.Done()
				for p := range cx {
					add[3].add(hashTSPacket(p))
				}
			}()
			wg.Wait()
			<-done
			return dm.Err()
		}
	case "pes packets", "pes payload reader":
		units = r.In(3, 20)
		for i := units; i > 0; i-- {
			p := genPES(r, pesOpt{maxLoad: []int{800, 20}[r.N(2)]})
			data = append(data, p.raw...)
		}
		run = func(rd io.Reader, add []*periodic) error {
			br := bitreader.NewReader(rd)
			for {
				p, err := pes.NewPacket(br)
				if err != nil {
					return err
				}
				one(add)(hashPESPacket(p))
			}
		}
		if name == "pes payload reader" {
			run = func(rd io.Reader, add []*periodic) error {
				return drainSteady(pes.NewPayloadReader(rd), nil, buf, one(add))
			}
		}
	case "ps pack reader", "ps decoder":
		units = r.In(1, 6)
		for i := units; i > 0; i-- {
			data = append(data, genPack(r, r.In(0, 5), pesOpt{maxLoad: []int{500, 20}[r.N(2)]}).raw()...)
		}
		run = func(rd io.Reader, add []*periodic) error {
			return drainSteady(ps.NewPackReader(rd), nil, buf, one(add))
		}
		if name == "ps decoder" {
			run = func(rd io.Reader, add []*periodic) error {
				d := ps.NewDecoder(bitreader.NewReader(rd))
				packs := d.Packs()
				done := d.Go()
				for p := range packs {
					one(add)(hashPackHeader(p.PackHeader))
					for q := range p.Packets() {
						one(add)(hashPESPacket(q))
					}
				}
				<-done
				return d.Err()
			}
		}
	case "ts large units":
		// units of many lengths, some of them larger than any buffer
		size, slack = 30000000, 3*400000
		pid := uint32(r.In(32, 8190))
		for i := r.In(2, 6); i > 0; i-- {
			n := r.In(1, 2000)
			if i == 1 || r.P(1, 3) {
				n = r.In(50000, 300000)
			}
			data = append(data, joinTS(muxUnit(r, r.Bytes(n), pid))...)
		}
		nseq = 2
		chans := r.Bool()
		run = func(rd io.Reader, add []*periodic) error {
			if !chans {
				return drainSteady(ts.NewPayloadUnitReader(rd, ts.IsPID(pid)), ts.EOP, max(buf, 1000), one(add))
			}
			dm := ts.NewDemuxer(rd)
			cu, cp := dm.Where(ts.IsPID(pid)).PayloadUnit(), dm.Where(ts.IsPayloadUnitStart).PayloadOnly()
			done := dm.Go()
			var wg sync.WaitGroup
			for i, ch := range []<-chan []byte{cu, cp} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for p := range ch {
						add[i].add(hashBytes(p))
					}
				}()
			}
			wg.Wait()
			<-done
			return dm.Err()
		}
	case "pes large packets":
		size, slack = 20000000, 4*66000
		for i := r.In(2, 6); i > 0; i-- {
			p := genPES(r, pesOpt{maxLoad: []int{10, 3000, 65000}[r.N(3)]})
			data = append(data, p.raw...)
		}
		over := r.Bool()
		run = func(rd io.Reader, add []*periodic) error {
			if over {
				return drainSteady(pes.NewPayloadReader(rd), nil, max(buf, 100), one(add))
			}
			br := bitreader.NewReader(rd)
			p := &pes.Packet{}
			for {
				if err := p.Next(br); err != nil {
					return err
				}
				one(add)(hashPESPacket(p))
			}
		}
	case "ts packets between junk":
		l, _ := tsBase()
		for _, p := range l {
			data = append(data, p.raw...)
			if r.P(1, 3) {
				for k := r.In(1, 400); k > 0; k-- {
					x := byte(r.U64())
					if x == 0x47 {
						x = 0
					}
					data = append(data, x)
				}
			}
		}
		run = func(rd io.Reader, add []*periodic) error {
			br := bitreader.NewReader(rd)
			for {
				p, err := ts.NewPacket(br)
				if err == ts.ErrNoSyncByte {
					one(add)(evMark)
					c.Count("no_sync", 1)
					continue
				}
				if err != nil {
					return err
				}
				one(add)(hashTSPacket(p))
			}
		}
	case "video with optional syntax":
		size = 300000
		o := defaultOpt()
		o.maxMBW, o.maxMBH, o.pics = 2, 2, 8
		o.density = r.N(2)
		o.qm, o.repSeq = true, true
		data = genVideos(r, r.In(1, 2), o).encode(&vDress{r: r, counts: map[string]int{}})
		run = func(rd io.Reader, add []*periodic) error {
			return frames(video.NewVideoSequence(rd), one(add))
		}
	case "video sequences", "video groups":
		size = 250000
		o := defaultOpt()
		o.maxMBW, o.maxMBH, o.pics = 3, 3, 8
		o.density = r.N(2)
		o.gopHeaders = 1
		o.eos = 1
		if name == "video groups" {
			o.eos = 0
		}
		s := genVideo(r, o)
		data = s.encode(nil)
		run = func(rd io.Reader, add []*periodic) error {
			return frames(video.NewVideoSequence(rd), one(add))
		}
	case "transport stream to video":
		size = 600000
		l := muxTS(r, splitES(r, esBase(), 0xe0, true), 0x55)
		// the leftover of an earlier unit is only at the beginning
		for len(l) > 0 && !(l[0].pid == 0x55 && l[0].pusi) {
			l = l[1:]
		}
		data = joinTS(l)
		run = func(rd io.Reader, add []*periodic) error {
			return frames(video.NewVideoSequence(tsVideoChain(rd, 0x55)), one(add))
		}
	case "program stream to video":
		size = 400000
		data = muxPS(r, splitES(r, esBase(), 0xe0, false))
		data = data[:len(data)-4] // without the program end code
		run = func(rd io.Reader, add []*periodic) error {
			return frames(video.NewVideoSequence(ps.NewPackReader(rd)), one(add))
		}
	}
	c.Input = data
	// how many results a repetition gives
	count := func(reps int) (l []int) {
		p := make([]*periodic, nseq)
		for i := range p {
			p[i] = &periodic{}
		}
		run(&loopSource{data: data, total: reps * len(data), r: r, err: io.EOF}, p)
		for _, x := range p {
			l = append(l, x.n)
		}
		return
	}
	one2, two := count(1), count(2)
	reps := size/len(data) + 1
	// (not where that makes too many bytes)
	if units > 0 && c.Idx/len(steadyKinds)%8 == 3 && reps*units < 70000 && 70000/units*len(data) < 30<<20 {
		reps = 70000/units + 1
		c.Count("more_than_65536_packets", 1)
	}
	if reps < 40 {
		reps = 40
	}
	per := make([]*periodic, nseq)
	for i := range per {
		per[i] = &periodic{lead: one2[i], period: two[i] - one2[i]}
	}
	src := &loopSource{data: data, total: reps * len(data), r: &R{r.U64()}, style: []int{chunkAll, chunkRandom}[r.N(2)], err: io.EOF}
	if r.P(1, 3) {
		src.err = errSource
	}
	var heap []uint64
	src.mark = func() {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		heap = append(heap, m.HeapAlloc)
	}
	for i := 2; i <= 10; i++ {
		src.marks = append(src.marks, src.total*i/10)
	}
	before := runtime.NumGoroutine()
	err := run(src, per)
	results := 0
	for i, p := range per {
		results += p.n
		c.Count("results_compared", p.compared)
		c.Check(p.bad == "", "%s: %d repetitions of %d bytes, sequence %d: %s", name, reps, len(data), i, p.bad)
		want := one2[i] + (reps-1)*p.period
		most := 2 // the end of the last repetition may be another one than that of the others
		if err == errSource {
			most += one2[i] // what is in a packet whose end is unknown
		}
		if d := want - p.n; d < 0 || d > most {
			c.Fail("%s: %d repetitions of %d bytes, sequence %d: %d results, %d expected (one repetition gives %d, two %d)", name, reps, len(data), i, p.n, want, one2[i], two[i])
		}
	}
	c.Check(err != nil, "%s: ended without error", name)
	c.Count("results", results)
	c.Count("heap_measurements", len(heap))
	c.Count("ended_with: "+err.Error(), 1)
	if len(heap) >= 9 {
		lo, hi := uint64(0), uint64(1<<62)
		for _, x := range heap[:3] {
			if x > lo {
				lo = x
			}
		}
		for _, x := range heap[len(heap)-3:] {
			if x < hi {
				hi = x
			}
		}
		if allow := uint64(40000 + min(src.total, 3000000)/100 + slack); hi > lo+allow {
			c.Fail("%s: live memory grows with the stream: %v bytes after 20%%..100%% of %d bytes", name, heap, src.total)
		}
		if hi > lo {
			c.See("growth_seen", hi-lo)
		}
	}
	// nothing keeps running
	left := 0
	for i := 0; i < 4000; i++ {
		if left = runtime.NumGoroutine(); left <= before {
			break
		}
		runtime.Gosched()
		if i > 20 {
			time.Sleep(5 * time.Millisecond)
		}
	}
	if left > before {
		b := make([]byte, 1<<16)
		b = b[:runtime.Stack(b, true)]
		lib := ""
		for _, g := range strings.Split(string(b), "\n\n") {
			if strings.Contains(g, "32bitkid/mpeg") {
				lib = g
			}
		}
		if lib != "" {
			c.Fail("%s: %d goroutines are left when everything was received and the end was signalled:\n%s", name, left-before, lib)
		}
	}
	c.Count("goroutine_checks", 1)
	c.Sig(data, two[0] > one2[0])
	c.Sample("%s: %d repetitions of %d bytes, %d results, heap %v, then %v", name, reps, len(data), results, heap, err)
}
