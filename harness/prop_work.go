package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

// X13: work grows no faster than the input. Each kind of stream is made at two
// sizes; processor time and memory allocated are measured for both.

const workScale = 48

func init() {
	min := map[string]int64{"measurements": 300, "megabytes": 100}
	for _, k := range workKinds {
		min["kind: "+k.name] = 4
	}
	register(&Prop{
		ID: "X13", Rule: "a stream of which something was made larger, measured at both sizes",
		Quick: 6 * numWorkKinds, Thorough: 200 * numWorkKinds, Run: runX13, Min: min,
	})
}

// work runs once over data and tells how many results there were.
type work func(rd io.Reader) (results int)

var workKinds = [numWorkKinds]struct {
	name string
	// make makes a stream whose size is about n bytes.
	make func(c *Case, n int) ([]byte, work)
}{
	{"a large unit, unit reader", func(c *Case, n int) ([]byte, work) {
		return joinTS(muxUnit(c.R, c.R.Bytes(n), 0x77)), drainWork(c, func(rd io.Reader) io.Reader { return ts.NewPayloadUnitReader(rd, ts.IsPID(0x77)) }, ts.EOP)
	}},
	{"a large unit, channel", func(c *Case, n int) ([]byte, work) {
		return joinTS(muxUnit(c.R, c.R.Bytes(n), 0x77)), demuxWork(ts.IsPID(0x77))
	}},
	{"many units, unit reader", func(c *Case, n int) ([]byte, work) {
		return many(c, n, func() []byte { return joinTS(muxUnit(c.R, c.R.Bytes(c.R.In(1, 2000)), 0x77)) }), drainWork(c, func(rd io.Reader) io.Reader { return ts.NewPayloadUnitReader(rd, ts.IsPID(0x77)) }, ts.EOP)
	}},
	{"many units, channel", func(c *Case, n int) ([]byte, work) {
		return many(c, n, func() []byte { return joinTS(muxUnit(c.R, c.R.Bytes(c.R.In(1, 2000)), 0x77)) }), demuxWork(ts.IsPID(0x77))
	}},
	{"foreign packets", func(c *Case, n int) ([]byte, work) {
		a := muxUnit(c.R, c.R.Bytes(50), 0x77)
		b := muxUnit(c.R, c.R.Bytes(n), 0x78)
		return joinTS(append(append(append([]*tsPkt{}, a...), b...), a...)), drainWork(c, func(rd io.Reader) io.Reader { return ts.NewPayloadReader(rd, ts.IsPID(0x77)) }, nil)
	}},
	{"packets skipped", func(c *Case, n int) ([]byte, work) {
		return joinTS(muxUnit(c.R, c.R.Bytes(n), 0x77)), drainWork(c, func(rd io.Reader) io.Reader {
			r := ts.NewPayloadReader(rd, ts.IsPID(0x77))
			r.SkipUntil(ts.IsPID(0x79))
			return r
		}, nil)
	}},
	{"payload of many packets", func(c *Case, n int) ([]byte, work) {
		return joinTS(muxUnit(c.R, c.R.Bytes(n), 0x77)), drainWork(c, func(rd io.Reader) io.Reader { return ts.NewPayloadReader(rd, ts.IsPID(0x77)) }, nil)
	}},
	{"packet by packet", func(c *Case, n int) ([]byte, work) {
		l := muxUnit(c.R, c.R.Bytes(n), 0x77)
		junk := c.param(2)
		var data []byte
		for _, p := range l {
			if junk == 1 && c.R.P(1, 3) {
				data = append(data, bytes.Repeat([]byte{0x46}, c.R.In(1, 100))...)
			}
			data = append(data, p.raw...)
		}
		return data, func(rd io.Reader) (k int) {
			br := bitreader.NewReader(rd)
			for {
				if _, err := ts.NewPacket(br); err != nil {
					return
				}
				k++
			}
		}
	}},
	{"junk before a sync byte", func(c *Case, n int) ([]byte, work) {
		return append(bytes.Repeat([]byte{0xa5}, n), joinTS(muxUnit(c.R, c.R.Bytes(50), 0x77))...), func(rd io.Reader) (k int) {
			br := bitreader.NewReader(rd)
			for {
				if _, err := ts.NewPacket(br); err == nil {
					k++
				} else if err != ts.ErrNoSyncByte {
					return
				}
			}
		}
	}},
	{"a packet without a length, parsed", func(c *Case, n int) ([]byte, work) {
		return lengthlessPES(c, n), func(rd io.Reader) (k int) {
			p, err := pes.NewPacket(bitreader.NewReader(rd))
			if err != nil {
				return -1
			}
			return len(p.Payload)
		}
	}},
	{"a packet without a length, read", func(c *Case, n int) ([]byte, work) {
		return lengthlessPES(c, n), drainWork(c, pes.NewPayloadReader, nil)
	}},
	{"many pes packets, read", func(c *Case, n int) ([]byte, work) {
		most := []int{20, 2000, 60000}[c.param(3)]
		return many(c, n, func() []byte { return genPES(c.R, pesOpt{maxLoad: most}).raw }), drainWork(c, pes.NewPayloadReader, nil)
	}},
	{"many packs, read", func(c *Case, n int) ([]byte, work) {
		return manyPacks(c, n), drainWork(c, ps.NewPackReader, nil)
	}},
	{"many packs, decoder", func(c *Case, n int) ([]byte, work) {
		return manyPacks(c, n), packWork
	}},
	{"one pack with many packets", func(c *Case, n int) ([]byte, work) {
		data := genPack(c.R, 0, pesOpt{}).raw()
		data = append(data, many(c, n, func() []byte { return genPES(c.R, pesOpt{maxLoad: 300}).raw })...)
		data = append(data, 0, 0, 1, 0xb9)
		if c.param(2) == 1 {
			return data, packWork
		}
		return data, drainWork(c, ps.NewPackReader, nil)
	}},
	{"many pictures", func(c *Case, n int) ([]byte, work) {
		return many(c, n, func() []byte { return smallVideo(c).encode(nil) }), frameWork
	}},
	{"large pictures", func(c *Case, n int) ([]byte, work) {
		o := defaultOpt()
		mbs := n / 2048 // of about so many bytes in frames
		w := 4
		for w*w < mbs {
			w++
		}
		o.minMBW, o.maxMBW, o.minMBH, o.maxMBH, o.pics, o.density = w, w, w, w, 3, 0
		return genVideo(c.R, o).encode(nil), frameWork
	}},
	{"large user data", func(c *Case, n int) ([]byte, work) {
		return withInserted(c, append([]byte{0, 0, 1, 0xb2}, bytes.Repeat([]byte{0x55}, n)...)), frameWork
	}},
	{"many user data", func(c *Case, n int) ([]byte, work) {
		return withInserted(c, bytes.Repeat([]byte{0, 0, 1, 0xb2, 'a', 'b', 'c', 'd'}, n/8)), frameWork
	}},
	{"zero bytes before a start code", func(c *Case, n int) ([]byte, work) {
		return withInserted(c, make([]byte, n)), frameWork
	}},
	{"search for a start code", func(c *Case, n int) ([]byte, work) {
		data := append(bytes.Repeat([]byte{0, 0, 1, 0xb2, 7}, n/5), smallVideo(c).encode(nil)...)
		return data, func(rd io.Reader) int {
			vs := video.NewVideoSequence(rd)
			if err := vs.AlignTo(video.SequenceHeaderStartCode); err != nil {
				return -1
			}
			return framesOf(vs)
		}
	}},
	{"video in a transport stream", func(c *Case, n int) ([]byte, work) {
		es := many(c, n, func() []byte { return smallVideo(c).encode(nil) })
		return joinTS(muxTS(c.R, splitES(c.R, es, 0xe0, true), 0x77)), func(rd io.Reader) int { return framesOf(video.NewVideoSequence(tsVideoChain(rd, 0x77))) }
	}},
	{"video in a program stream", func(c *Case, n int) ([]byte, work) {
		es := many(c, n, func() []byte { return smallVideo(c).encode(nil) })
		return muxPS(c.R, splitES(c.R, es, 0xe0, false)), func(rd io.Reader) int { return framesOf(video.NewVideoSequence(ps.NewPackReader(rd))) }
	}},
}

// param is a choice that is the same at both sizes.
func (c *Case) param(n int) int { return c.Idx / numWorkKinds % n }

const numWorkKinds = 23

// many repeats a few different pieces (the same ones for any n) up to n bytes.
func many(c *Case, n int, gen func() []byte) (data []byte) {
	var l [][]byte
	for size := 0; size < 20000; size += len(l[len(l)-1]) {
		l = append(l, gen())
	}
	for i := 0; len(data) < n; i++ {
		data = append(data, l[i%len(l)]...)
	}
	return
}

func manyPacks(c *Case, n int) []byte {
	return append(many(c, n, func() []byte { return genPack(c.R, c.R.In(0, 3), pesOpt{maxLoad: 500}).raw() }), 0, 0, 1, 0xb9)
}

func lengthlessPES(c *Case, n int) []byte {
	return append([]byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0, 0}, c.R.Bytes(n)...)
}

// withInserted puts b in front of the second picture or what precedes it.
func withInserted(c *Case, b []byte) []byte {
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.pics, o.gopHeaders = 2, 2, 3, 0
	es := genVideo(c.R, o).encode(nil)
	i := bytes.Index(es, []byte{0, 0, 1, 0})
	// in front of the first slice: extensions and user data may be there
	i += bytes.Index(es[i:], []byte{0, 0, 1, 1})
	return append(append(append([]byte{}, es[:i]...), b...), es[i:]...)
}

func drainWork(c *Case, make_ func(rd io.Reader) io.Reader, mark error) work {
	size := []int{1, 16, 188, 1000, 4096, 65536}[c.param(6)]
	return func(rd io.Reader) (n int) {
		rd = make_(rd)
		b := make([]byte, size)
		for {
			k, err := rd.Read(b)
			n += k
			if err != nil && (mark == nil || err != mark) {
				return
			}
		}
	}
}

func demuxWork(where ts.PacketTester) work {
	return func(rd io.Reader) (n int) {
		d := ts.NewDemuxer(rd)
		ch := d.Where(where).PayloadUnit()
		po := d.Where(where).PayloadOnly()
		done := d.Go()
		var wg sync.WaitGroup
		wg.Add(1)
		m := 0
		go func() {
			for x := range po {
				m += len(x)
			}
			wg.Done()
		}()
		for x := range ch {
			n += len(x)
		}
		wg.Wait()
		<-done
		return n + m
	}
}

func packWork(rd io.Reader) (n int) {
	d := ps.NewDecoder(bitreader.NewReader(rd))
	packs := d.Packs()
	done := d.Go()
	for p := range packs {
		n++
		for range p.Packets() {
			n++
		}
	}
	if !<-done {
		return -1
	}
	return
}

func framesOf(vs *video.VideoSequence) (n int) {
	for {
		_, err := vs.Next()
		if err == video.EOS {
			continue
		}
		if err != nil {
			return
		}
		n++
	}
}

func frameWork(rd io.Reader) int { return framesOf(video.NewVideoSequence(rd)) }

// cpuUsed is the processor time of this process.
func cpuUsed() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// measure gives the least of three measurements.
func measure(data []byte, run work, times int) (cpu time.Duration, alloc int64, results int) {
	for i := 0; i < times; i++ {
		var m0, m1 runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m0)
		t := cpuUsed()
		n := run(bytes.NewReader(data))
		t = cpuUsed() - t
		runtime.ReadMemStats(&m1)
		a := int64(m1.TotalAlloc - m0.TotalAlloc)
		if i == 0 || t < cpu {
			cpu = t
		}
		if i == 0 || a < alloc {
			alloc = a
		}
		results = n
	}
	return
}

func runX13(c *Case) {
	r := c.R
	k := &workKinds[c.Idx%numWorkKinds]
	c.Count("kind: "+k.name, 1)
	n := r.In(20000, 60000)
	seed := r.U64()
	c.R = &R{seed}
	small, run := k.make(c, n)
	c.R = &R{seed}
	large, runLarge := k.make(c, n*workScale)
	c.R = r
	c.Note("%s: %d and %d bytes", k.name, len(small), len(large))
	ratio := float64(len(large)) / float64(len(small))
	if k.name == "large pictures" {
		ratio = workScale // of the frames
	}
	var msg string
	for try := 0; try < 3; try++ {
		t0, a0, n0 := measure(small, run, 5)
		t1, a1, n1 := measure(large, runLarge, 2)
		c.Count("measurements", 7)
		c.Count("megabytes", len(large)*2>>20)
		c.Check(n0 > 0 && n1 > 0 || k.name == "packets skipped", "%s: no results (%d, %d)", k.name, n0, n1)
		lim := time.Duration(4*ratio*float64(t0)) + 50*time.Millisecond
		amost := int64(3*ratio*float64(a0)) + 4<<20
		c.Sample("%s: %d bytes in %v (%d allocated), %d bytes in %v (%d allocated)", k.name, len(small), t0, a0, len(large), t1, a1)
		c.See("cpu_tenths", uint64(10*t1/lim))
		c.See("alloc_tenths", uint64(10*a1/amost))
		if os.Getenv("VERIF_DEBUG") != "" && (10*t1/lim >= 4 || 10*a1/amost >= 5) {
			fmt.Fprintf(os.Stderr, "%s: cpu %d%% alloc %d%%\n", k.name, 100*t1/lim, 100*a1/amost)
		}
		msg = ""
		if t1 > lim {
			msg = fmt.Sprintf("%s: %d bytes take %v of processor time, %d bytes %v (more than 4 times as much per byte)", k.name, len(small), t0, len(large), t1)
		} else if a1 > amost {
			msg = fmt.Sprintf("%s: %d bytes make %d bytes of memory allocated, %d bytes %d (more than 3 times as much per byte)", k.name, len(small), a0, len(large), a1)
		}
		if msg == "" {
			break
		}
	}
	if msg != "" {
		c.Fail("%s", msg)
	}
	c.Sig(small[:min(len(small), 5000)], true)
}
