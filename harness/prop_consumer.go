package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
)

func init() {
	min := map[string]int64{"reads": 1000000, "empty_reads": 20000, "guarded_bytes": 1 << 30, "unit_ends": 10000, "source_failures": 2000, "damaged_streams": 2000, "cut_streams": 2000, "bytes_compared": 10 << 20}
	for _, u := range consumers {
		min["consumer: "+u.name] = 500
	}
	for _, x := range consumed {
		min["reader: "+x] = 500
	}
	register(&Prop{
		ID: "X07", Rule: "a stream with at least one result, read by several consumers",
		Quick: 120000, Thorough: 2000000, Run: runX07, Min: min,
	})
}

var consumed = []string{"ts payload", "ts window", "ts units", "pes payload", "packs", "pes payload over ts payload", "pes payload over ts units"}

// A consumer reads rd to its end and tells what it got.
type consumer struct {
	name string
	// loose: an end in the middle of a read comes as an unexpected end
	loose bool
	run   func(c *Case, rd io.Reader, mark error, limit int) drained
}

var consumers = []consumer{
	{"guarded buffers", false, guardedDrain},
	{"io.ReadAll", false, untilError(func(rd io.Reader, n int) ([]byte, error) { b, err := io.ReadAll(rd); return b, orEOF(err) })},
	{"io.Copy", false, untilError(func(rd io.Reader, n int) ([]byte, error) {
		var b bytes.Buffer
		_, err := io.Copy(&b, rd)
		return b.Bytes(), orEOF(err)
	})},
	{"io.CopyBuffer", false, untilError(func(rd io.Reader, n int) ([]byte, error) {
		var b bytes.Buffer
		_, err := io.CopyBuffer(struct{ io.Writer }{&b}, rd, make([]byte, n))
		return b.Bytes(), orEOF(err)
	})},
	{"io.CopyN", true, untilError(func(rd io.Reader, n int) ([]byte, error) {
		var b bytes.Buffer
		_, err := io.CopyN(&b, rd, int64(n))
		return b.Bytes(), err
	})},
	{"io.ReadFull", true, untilError(func(rd io.Reader, n int) ([]byte, error) {
		b := make([]byte, n)
		k, err := io.ReadFull(rd, b)
		return b[:k], err
	})},
	{"io.LimitReader", true, untilError(func(rd io.Reader, n int) ([]byte, error) {
		b, err := io.ReadAll(io.LimitReader(rd, int64(n)))
		if err == nil && len(b) < n {
			err = io.EOF
		}
		return b, err
	})},
	{"bufio", false, func(c *Case, rd io.Reader, mark error, limit int) drained {
		br := bufio.NewReaderSize(rd, c.R.In(16, 600))
		return untilError(func(_ io.Reader, n int) ([]byte, error) {
			if n%3 == 0 {
				b, err := br.ReadByte()
				if err != nil {
					return nil, err
				}
				return []byte{b}, nil
			}
			b := make([]byte, n)
			k, err := br.Read(b)
			return b[:k], err
		})(c, nil, mark, limit)
	}},
	{"bufio.WriteTo", false, untilError(func(rd io.Reader, n int) ([]byte, error) {
		var b bytes.Buffer
		_, err := bufio.NewReaderSize(rd, n+16).WriteTo(struct{ io.Writer }{&b})
		return b.Bytes(), orEOF(err)
	})},
	{"one byte", false, untilError(func(rd io.Reader, n int) ([]byte, error) {
		b, err := io.ReadAll(iotest.OneByteReader(rd))
		return b, orEOF(err)
	})},
}

func orEOF(err error) error {
	if err == nil {
		err = io.EOF
	}
	return err
}

// untilError repeats a reading function until it reports more than a mark.
func untilError(f func(rd io.Reader, n int) ([]byte, error)) func(c *Case, rd io.Reader, mark error, limit int) drained {
	return func(c *Case, rd io.Reader, mark error, limit int) (d drained) {
		for idle := 0; ; {
			b, err := f(rd, c.R.In(1, 300))
			d.reads++
			d.data = append(d.data, b...)
			c.Check(len(d.data) <= limit, "yields more bytes (%d) than the stream can hold (%d)", len(d.data), limit)
			if err == nil {
				if idle++; len(b) > 0 {
					idle = 0
				}
				c.Check(idle < 10000, "neither data nor an error")
				continue
			}
			if mark == nil || err != mark {
				d.err = err
				return
			}
			d.marks = append(d.marks, len(d.data))
			c.Check(len(d.marks) <= limit+1000, "endless unit ends")
		}
	}
}

// guardedDrain hands out windows of an arena whose every other byte must stay
// as it is, during the call and at any time later.
func guardedDrain(c *Case, rd io.Reader, mark error, limit int) (d drained) {
	r := c.R
	const size = 4096
	arena, want := make([]byte, size), make([]byte, size)
	for i := range want {
		want[i] = byte(r.U64())
	}
	copy(arena, want)
	style := r.N(4)
	intact := func(what string, a, n int) {
		if !bytes.Equal(arena[:a], want[:a]) || !bytes.Equal(arena[a+n:], want[a+n:]) {
			i := 0
			for i >= a && i < a+n || arena[i] == want[i] {
				i++
			}
			c.Fail("%s: read %d into %d bytes: the byte %d from the begin of the buffer has changed", what, d.reads, n, i-a)
		}
		c.Count("guarded_bytes", size-n)
	}
	idle := 0
	for {
		n := []int{r.In(1, 8), r.In(1, 400), 184, r.In(1, 2000)}[style]
		if r.P(1, 6) {
			n = 0
		}
		a := r.N(size - n + 1)
		p := arena[a : a+n]
		switch r.N(3) {
		case 0:
			p = arena[a : a+n : a+n]
		case 1:
			if n == 0 {
				p = nil
			}
		}
		k, err := rd.Read(p)
		d.reads++
		if n == 0 {
			c.Count("empty_reads", 1)
		}
		c.Check(k >= 0 && k <= n, "Read returned n=%d for a buffer of %d", k, n)
		intact("reading", a, n)
		d.data = append(d.data, arena[a:a+k]...)
		// the buffer is the caller's again: it is overwritten
		copy(arena[a:a+n], want[a:a+n])
		c.Check(len(d.data) <= limit, "yields more bytes (%d) than the stream can hold (%d)", len(d.data), limit)
		if err == nil {
			if k == 0 && n > 0 {
				idle++
				c.Check(idle < 100, "neither data nor an error in %d reads", idle)
			} else if k > 0 {
				idle = 0
			}
			continue
		}
		idle = 0
		if mark == nil || err != mark {
			d.err = err
			intact("at the end", 0, 0)
			return
		}
		d.marks = append(d.marks, len(d.data))
		c.Check(len(d.marks) <= limit+1000, "endless unit ends")
	}
}

// runX07: what a reader yields does not depend on who reads it, and it touches
// no byte of its caller's but those it was given, while it was given them.
func runX07(c *Case) {
	r := c.R
	kind := c.Idx % len(consumed)
	c.Count("reader: "+consumed[kind], 1)
	var data []byte
	var mk func(rd io.Reader) io.Reader
	var mark error
	tsOf := func() ([]byte, *expr, []uint32) {
		l, pids := layerTSSeq(c)
		where := genExpr(r, 1, pids)
		if r.Bool() {
			where = &expr{op: 0, pid: pids[0]}
		}
		return joinTS(l), where, pids
	}
	over := func() ([]byte, uint32) {
		l := genPESSeq(c, r.In(1, 5), pesOpt{maxLoad: []int{30, 300, 1000}[r.N(3)]})
		pid := uint32(r.In(32, 8190))
		return joinTS(muxTS(r, l, pid)), pid
	}
	switch kind {
	case 0:
		d, where, _ := tsOf()
		data, mk = d, func(rd io.Reader) io.Reader { return ts.NewPayloadReader(rd, where.build(nil)) }
	case 1:
		d, where, pids := tsOf()
		data = d
		from, to := genExpr(r, 1, pids), genExpr(r, 1, pids)
		if k := r.N(4); k == 0 {
			from = nil
		} else if k == 1 {
			to = nil
		}
		mk = func(rd io.Reader) io.Reader {
			x := ts.NewPayloadReader(rd, where.build(nil))
			if from != nil {
				x.SkipUntil(from.build(nil))
			}
			if to != nil {
				x.TakeWhile(to.build(nil))
			}
			return x
		}
	case 2:
		d, where, _ := tsOf()
		mark = ts.EOP
		data, mk = d, func(rd io.Reader) io.Reader { return ts.NewPayloadUnitReader(rd, where.build(nil)) }
	case 3:
		data, _ = joinPES(layerPES(c))
		mk = pes.NewPayloadReader
	case 4:
		_, data = layerPacks(c)
		mk = ps.NewPackReader
	case 5:
		d, pid := over()
		data, mk = d, func(rd io.Reader) io.Reader {
			return pes.NewPayloadReader(ts.NewPayloadReader(rd, ts.IsPID(pid)))
		}
	case 6:
		d, pid := over()
		data, mk = d, func(rd io.Reader) io.Reader {
			return pes.NewPayloadReader(ts.NewPayloadUnitReader(rd, ts.IsPID(pid)))
		}
		mark = ts.EOP
	}
	limit := len(data)
	failAt := -1
	switch r.N(5) {
	case 0:
		data = data[:r.N(len(data)+1)]
		c.Count("cut_streams", 1)
	case 1:
		failAt = r.N(len(data) + 1)
		c.Count("source_failures", 1)
	case 2:
		data = append([]byte{}, data...)
		for i := r.In(1, 5); i > 0 && len(data) > 0; i-- {
			data[r.N(len(data))] = byte(r.U64())
		}
		c.Count("damaged_streams", 1)
	}
	source := func(style int) *Source {
		s := newSource(data, style, r)
		s.scratch = true
		s.errAt, s.err = failAt, errSource
		return s.ends(r)
	}
	// the reference: one buffer size, no empty reads
	ref := untilError(func(rd io.Reader, n int) ([]byte, error) {
		b := make([]byte, 512)
		k, err := rd.Read(b)
		return b[:k], err
	})(c, mk(source(chunkAll)), mark, limit)
	c.Sig(append([]byte{byte(kind)}, data...), len(ref.data)+len(ref.marks) > 0)
	compare := func(name string, loose bool, d drained) {
		if !bytes.Equal(d.data, ref.data) {
			c.Fail("%s read by %s: %s", consumed[kind], name, firstDiff(d.data, ref.data))
		}
		if fmt.Sprint(d.marks) != fmt.Sprint(ref.marks) {
			c.Fail("%s read by %s: unit ends at %v, want %v", consumed[kind], name, d.marks, ref.marks)
		}
		got, want := fmt.Sprint(d.err), fmt.Sprint(ref.err)
		if loose {
			if d.err == io.ErrUnexpectedEOF {
				got = io.EOF.Error()
			}
			if ref.err == io.ErrUnexpectedEOF {
				want = io.EOF.Error()
			}
		}
		if got != want {
			c.Fail("%s read by %s: ends with %q, want %q", consumed[kind], name, got, want)
		}
		c.Count("reads", d.reads)
		c.Count("bytes_compared", len(d.data))
		c.Count("unit_ends", len(d.marks))
	}
	first := r.N(len(consumers))
	for i := 0; i < 4; i++ {
		u := consumers[0]
		if i > 0 {
			u = consumers[(first+i*3)%len(consumers)]
		}
		compare(u.name, u.loose, u.run(c, mk(source(r.N(chunkStyles))), mark, limit))
		c.Count("consumer: "+u.name, 1)
	}
	// two consumers one after the other
	rd := mk(source(r.N(chunkStyles)))
	if mark == nil && ref.err == io.EOF {
		k := r.N(len(ref.data) + 1)
		head := make([]byte, k)
		n, err := io.ReadFull(rd, head)
		c.Check(n == k && err == nil && bytes.Equal(head, ref.data[:k]), "%s: the first %d bytes: %d, %v", consumed[kind], k, n, err)
		if err := iotest.TestReader(mk(source(r.N(chunkStyles))), ref.data); err != nil {
			c.Fail("%s: %v", consumed[kind], err)
		}
		c.Count("tested_readers", 1)
		d := guardedDrain(c, rd, mark, limit)
		d.data = append(head, d.data...)
		compare("two consumers", false, d)
	}
	c.Sample("%s: %d bytes, %d out, %d unit ends, then %v", consumed[kind], len(data), len(ref.data), len(ref.marks), ref.err)
}
