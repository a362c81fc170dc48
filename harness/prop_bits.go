package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/video"
)

// X15: the parsers take any bit reader that keeps the contract of the
// interface, and keep it themselves.

// bits makes the bit reader that the parsers of a layer are given.
func (c *Case) bits(rd io.Reader) bitreader.BitReader {
	if c.newBits != nil {
		return c.newBits(rd)
	}
	return bitreader.NewReader(rd)
}

// ownBits is a bit reader by another hand. It watches how it is used.
type ownBits struct {
	rd    io.Reader
	buf   []byte // what was read ahead
	bit   uint   // bits of buf[0] that are used up
	ahead int    // how many bytes more than asked for are read: -1 for none
	short bool   // Read gives fewer bytes than asked for
	slow  bool   // calls take their time
	r     *R

	busy  int32
	calls int64
	bad   atomic.Value
	kinds [16]int64
}

func (b *ownBits) wrong(f string, a ...interface{}) {
	b.bad.CompareAndSwap(nil, fmt.Sprintf(f, a...))
}

func (b *ownBits) enter(kind int) {
	if !atomic.CompareAndSwapInt32(&b.busy, 0, 1) {
		b.wrong("the bit reader is used by two goroutines at a time")
		for !atomic.CompareAndSwapInt32(&b.busy, 0, 1) {
			time.Sleep(time.Microsecond)
		}
	}
	if n := atomic.AddInt64(&b.calls, 1); n%64 == 0 || b.slow && n < 2000 {
		// long enough for another goroutine to come in
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
		if b.slow && n%16 == 0 {
			time.Sleep(time.Microsecond)
		}
	}
	b.kinds[kind]++
}

func (b *ownBits) leave() { atomic.StoreInt32(&b.busy, 0) }

func (b *ownBits) have() uint { return uint(len(b.buf))*8 - b.bit }

// want sees to it that n bits are there.
func (b *ownBits) want(n uint) error {
	for b.have() < n {
		k := int((n-b.have())+7) / 8
		if b.ahead > 0 {
			k += b.r.N(b.ahead + 1)
		}
		p := make([]byte, k)
		m, err := b.rd.Read(p)
		b.buf = append(b.buf, p[:m]...)
		if err != nil && b.have() < n {
			return err
		}
	}
	return nil
}

func (b *ownBits) peek(n, max uint) (v uint64, err error) {
	if n < 1 || n > max {
		b.wrong("%d bits asked for of a call for 1 to %d", n, max)
		if n > max {
			return 0, errors.New("too many bits")
		}
	}
	if n > 56 && b.bit != 0 {
		b.wrong("%d bits asked for at bit %d of a byte: not every bit reader can", n, b.bit)
	}
	if err = b.want(n); err != nil {
		return 0, err
	}
	for i := uint(0); i < n; i++ {
		k := b.bit + i
		v = v<<1 | uint64(b.buf[k/8]>>(7-k%8)&1)
	}
	return
}

func (b *ownBits) advance(n uint) {
	n += b.bit
	b.buf = b.buf[n/8:]
	b.bit = n % 8
}

func (b *ownBits) read(kind int, n, max uint) (uint64, error) {
	b.enter(kind)
	defer b.leave()
	v, err := b.peek(n, max)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return 0, err
	}
	b.advance(n)
	return v, nil
}

func (b *ownBits) look(kind int, n, max uint) (uint64, error) {
	b.enter(kind)
	defer b.leave()
	return b.peek(n, max)
}

func (b *ownBits) Read1() (bool, error)          { v, err := b.read(0, 1, 1); return v == 1, err }
func (b *ownBits) Read8(n uint) (uint8, error)   { v, err := b.read(1, n, 8); return uint8(v), err }
func (b *ownBits) Read16(n uint) (uint16, error) { v, err := b.read(2, n, 16); return uint16(v), err }
func (b *ownBits) Read32(n uint) (uint32, error) { v, err := b.read(3, n, 32); return uint32(v), err }
func (b *ownBits) Read64(n uint) (uint64, error) { return b.read(4, n, 64) }
func (b *ownBits) Peek1() (bool, error)          { v, err := b.look(5, 1, 1); return v == 1, err }
func (b *ownBits) Peek8(n uint) (uint8, error)   { v, err := b.look(6, n, 8); return uint8(v), err }
func (b *ownBits) Peek16(n uint) (uint16, error) { v, err := b.look(7, n, 16); return uint16(v), err }
func (b *ownBits) Peek32(n uint) (uint32, error) { v, err := b.look(8, n, 32); return uint32(v), err }
func (b *ownBits) Peek64(n uint) (uint64, error) { return b.look(9, n, 64) }

func (b *ownBits) Skip(n uint) error {
	b.enter(10)
	defer b.leave()
	for n > 0 {
		k := n
		if k > 800 {
			k = 800
		}
		if err := b.want(k); err != nil {
			b.advance(b.have())
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return err
		}
		b.advance(k)
		n -= k
	}
	return nil
}

func (b *ownBits) IsAligned() bool {
	b.enter(11)
	defer b.leave()
	return b.bit == 0
}

func (b *ownBits) Align() (n uint, err error) {
	b.enter(12)
	defer b.leave()
	if b.bit > 0 {
		n = 8 - b.bit
		b.advance(n)
	}
	return
}

func (b *ownBits) Read(p []byte) (int, error) {
	b.enter(13)
	defer b.leave()
	if b.bit > 0 {
		b.advance(8 - b.bit)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if b.short {
		p = p[:b.r.In(1, len(p))]
	}
	if len(b.buf) == 0 {
		return b.rd.Read(p)
	}
	n := copy(p, b.buf)
	b.buf = b.buf[n:]
	return n, nil
}

var bitsKinds = []string{"ts packets", "pes packets", "ps pack headers", "ps decoder", "video headers", "codes"}

func init() {
	min := map[string]int64{"calls": 1000000, "results": 20000, "legal": 3000, "damaged": 3000, "failing_source": 300}
	for _, k := range bitsKinds {
		min["kind: "+k] = 1000
	}
	register(&Prop{
		ID: "X15", Rule: "a stream with at least one result or error",
		Quick: 180000, Thorough: 5000000, Run: runX15, Min: min,
	})
}

func runX15(c *Case) {
	r := c.R
	kind := bitsKinds[c.Idx%len(bitsKinds)]
	var made []*ownBits
	own := func(rd io.Reader) bitreader.BitReader {
		b := &ownBits{rd: rd, ahead: []int{-1, -1, 8, 1000}[r.N(4)], short: r.Bool(), slow: r.P(1, 3), r: &R{r.U64()}}
		made = append(made, b)
		return b
	}
	done := func(what string) {
		for _, b := range made {
			if s := b.bad.Load(); s != nil {
				c.Fail("%s: %s", what, s)
			}
			c.Count("calls", int(atomic.LoadInt64(&b.calls)))
			for k, n := range b.kinds {
				if n > 0 {
					c.See("methods", uint64(k))
				}
			}
		}
	}
	c.Count("kind: "+kind, 1)
	if kind == "codes" {
		c.newBits = nil
		data := codeBytes(r)
		data = append(data, r.Bytes(r.N(6))...)
		if r.P(1, 8) {
			data = data[:r.N(len(data)+1)]
		}
		skip := uint(r.N(3) * r.N(8))
		var code interface {
			Check(bitreader.BitReader) (bool, error)
			Assert(bitreader.BitReader) error
		}
		switch r.N(3) {
		case 0:
			code = video.StartCode(0x100 | uint32(r.N(256)))
		case 1:
			code = ps.StartCode(0x100 | uint32([]byte{0xba, 0xb9, 0xbb, 0xe0}[r.N(4)]))
		default:
			code = video.ExtensionID(r.N(16))
		}
		try := func(br bitreader.BitReader) string {
			br.Skip(skip)
			ok, err := code.Check(br)
			err2 := code.Assert(br)
			v, err3 := br.Peek8(3)
			return fmt.Sprint(ok, err, err2, v, err3)
		}
		a := try(bitreader.NewReader(bytes.NewReader(data)))
		b := try(own(bytes.NewReader(data)))
		c.Check(a == b, "%T %x on % x (from bit %d): %s, with another bit reader %s", code, code, data, skip, a, b)
		done(fmt.Sprintf("%T", code))
		c.Count("results", 1)
		c.Sig(append([]byte{byte(skip)}, data...), true)
		return
	}
	var in *layerIn
	for _, l := range layers {
		if l.name == kind {
			in = l.gen(c)
		}
	}
	data := in.data
	if r.Bool() {
		data = mutate(r, data)
		c.Count("damaged", 1)
	} else {
		c.Count("legal", 1)
	}
	c.Input = data
	fails := r.P(1, 6)
	if fails {
		data = data[:r.N(len(data)+1)]
		c.Count("failing_source", 1)
	}
	src := func() io.Reader {
		s := newSource(data, r.N(chunkStyles), &R{r.U64()})
		if fails {
			s.errAt, s.err = len(data), errSource
		}
		return s
	}
	a := in.run(c, src(), len(data))
	c.newBits = own
	b := in.run(c, src(), len(data))
	c.newBits = nil
	n := int64(0)
	for _, x := range made {
		n += atomic.LoadInt64(&x.calls)
	}
	done(kind)
	if d := diffObs(a, b); d != "" {
		c.Fail("%s, with another bit reader: %s", kind, d)
	}
	runtime.Gosched()
	m := int64(0)
	for _, x := range made {
		m += atomic.LoadInt64(&x.calls)
	}
	c.Check(m == n, "%s: the bit reader is still used after the end", kind)
	c.Count("results", a.count())
	c.Sig(data, a.count() > 0 || a.end != "")
}

// codeBytes gives something like a code.
func codeBytes(r *R) []byte {
	switch r.N(3) {
	case 0:
		return []byte{0, 0, 1, byte(r.N(256))}
	case 1:
		return []byte{0, 0, 1, []byte{0xba, 0xb9, 0xbb, 0xe0, 0xb5, 0xb3, 0}[r.N(7)]}
	default:
		return r.Bytes(4)
	}
}
