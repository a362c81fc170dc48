package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
)

const tsRule = "random packet sequences written by an independent ISO 13818-1 packet writer; "

func genTSSeq(c *Case, n int, o tsOpt) []*tsPkt {
	ps := make([]*tsPkt, n)
	// Now and then packets are sent again as they are, right away or later.
	again := c.R.P(1, 8)
	for i := range ps {
		if again && i > 0 && c.R.P(1, 3) {
			j := i - 1
			if c.R.P(1, 3) {
				j = c.R.N(i)
			}
			q := *ps[j]
			q.raw, q.payload = append([]byte(nil), q.raw...), append([]byte(nil), q.payload...)
			if ps[j].payload == nil {
				q.payload = nil
			}
			ps[i] = &q
			continue
		}
		ps[i] = genTS(c.R, o)
	}
	return ps
}

func tsPids(r *R) []uint32 {
	n := r.In(1, 4)
	l := make([]uint32, n)
	for i := range l {
		l[i] = uint32(r.Bits(13))
	}
	return l
}

func seePkt(c *Case, p *tsPkt) {
	k := uint64(p.afc)
	if p.af != nil {
		for i, f := range p.af.flags {
			if f {
				k |= 1 << uint(4+i)
			}
		}
		if e := p.af.ext; e != nil {
			for i, f := range []bool{e.ltw, e.pw, e.ss} {
				if f {
					k |= 1 << uint(16+i)
				}
			}
		}
		c.See("af_lengths", uint64(p.af.length))
	}
	c.See("packet_layouts", k)
	c.See("payload_lengths", uint64(len(p.payload)))
}

func init() {
	register(&Prop{
		ID: "T01", Rule: tsRule + "a case is non-trivial when it holds at least two packets with different layouts",
		Quick: 900000, Thorough: 20000000,
		Min: map[string]int64{"packets": 100000, "packet_layouts": 100, "payload_lengths": 150},
		Run: func(c *Case) { runTSParse(c, true, false) },
	})
	register(&Prop{
		ID: "T02", Rule: tsRule + "adaptation-field heavy; a case is non-trivial when a packet without a field follows one with a field on the same packet object or a field carries optional parts",
		Quick: 900000, Thorough: 20000000,
		Min: map[string]int64{"packets": 100000, "packet_layouts": 100, "af_lengths": 150, "absent_after_present": 3000, "fields_refused": 5000, "arbitrary_fields_accepted": 20000},
		Run: func(c *Case) { runTSParse(c, false, true) },
	})
	register(&Prop{
		ID: "T03", Rule: "packets separated by junk without sync bytes, entered at any bit offset; non-trivial when there is junk before a packet",
		Quick: 800000, Thorough: 16000000,
		Min: map[string]int64{"packets_after_junk": 20000, "nosync_errors": 3000, "bit_offsets": 8, "junk_lengths": 180},
		Run: runResync,
	})
	register(&Prop{
		ID: "T04", Rule: "a packet sequence cut at every byte, and failing sources under the parser and the readers; every case is non-trivial",
		Quick: 25000, Thorough: 600000,
		Min: map[string]int64{"cuts": 100000, "injected_parser": 2000, "injected_payload": 2000, "injected_unit": 2000, "injected_demux": 2000, "cut_offsets": 188, "ended_in_junk": 10000},
		Run: runEndings,
	})
	register(&Prop{
		ID: "T05", Rule: "random Boolean expressions over PID, unit-start and user tests, asked about random packets, alone and from several goroutines; non-trivial when the expression has a combinator",
		Quick: 120000, Thorough: 2000000, RaceQuick: 3000, RaceThor: 20000,
		Min: map[string]int64{"answers": 500000, "true_answers": 100000, "expressions": 5000},
		Run: runTesters,
	})
	register(&Prop{
		ID: "T06", Rule: "random packet sequences, channel sets, windows, source errors and consumer speeds; non-trivial when at least two channels deliver packets",
		Quick: 30000, Thorough: 500000, RaceQuick: 4000, RaceThor: 20000, DelayQuick: 12000, DelayThor: 300000,
		Min: map[string]int64{"delivered": 50000, "ended_by_takewhile": 500, "ended_by_error": 500, "skipped": 1000, "many_channels": 200},
		Run: runDemux,
	})
	register(&Prop{
		ID: "T07", Rule: "demultiplexed packets are kept, read concurrently and compared after the demultiplexer has gone on; non-trivial when a receiver holds at least two packets",
		Quick: 10000, Thorough: 200000, RaceQuick: 3000, RaceThor: 20000, DelayQuick: 2500, DelayThor: 60000,
		Min: map[string]int64{"held_packets": 30000, "immediate_reads": 10000, "long_runs": 100},
		Run: runDemuxHold,
	})
	register(&Prop{
		ID: "T08", Rule: "payload reader over random packet sequences, testers, buffer sizes and chunkings; non-trivial when matching and non-matching packets are mixed",
		Quick: 360000, Thorough: 9000000,
		Min: map[string]int64{"bytes": 1000000, "reads": 100000, "empty_payload_packets": 5000},
		Run: func(c *Case) { runPayloadReader(c, false) },
	})
	register(&Prop{
		ID: "T09", Rule: "payload reader with skip-until and take-while windows; non-trivial when the window excludes something",
		Quick: 360000, Thorough: 9000000,
		Min: map[string]int64{"bytes": 500000, "skip_never": 500, "window_closed": 3000, "skipped_some": 3000, "closed_by_late_tests": 3000},
		Run: func(c *Case) {
			if c.R.P(1, 6) {
				runLateWindow(c)
				return
			}
			runPayloadReader(c, true)
		},
	})
	register(&Prop{
		ID: "T10", Rule: "payload unit reader over random packet sequences; non-trivial when the stream holds at least two units",
		Quick: 240000, Thorough: 6000000,
		Min: map[string]int64{"units": 30000, "dropped_before_start": 3000, "empty_units": 200, "long_runs": 100, "huge_runs": 1},
		Run: runUnitReader,
	})
	register(&Prop{
		ID: "T11", Rule: "channel adapters fed with random packets by fast and slow producers; non-trivial when at least two payloads or units come out",
		Quick: 80000, Thorough: 1000000, RaceQuick: 5000, RaceThor: 20000, DelayQuick: 20000, DelayThor: 400000,
		Min: map[string]int64{"ts_payloads": 10000, "pes_payloads": 10000, "empty_pes_payloads": 500, "units": 4000, "from_demuxer": 500, "shared_packets": 500, "huge_runs": 1},
		Run: runAdapters,
	})
}

// arbitraryField: the bytes of an adaptation field are arbitrary, so that its
// parts may claim more room than there is. The read may refuse the packet, but
// when it reports success it has used up 188 bytes and the payload is what the
// field's length leaves of the packet.
func arbitraryField(c *Case) {
	r := c.R
	p := genTS(r, tsOpt{})
	if p.afc < 2 {
		p.afc = 3
		p.build(r)
	}
	b := append([]byte{}, p.raw...)
	L := int(b[4])
	if p.afc == 3 && r.P(1, 2) {
		L = r.N(256)
		if r.P(1, 2) {
			L = r.N(24)
		}
		b[4] = byte(L)
	}
	switch r.N(3) {
	case 0:
		copy(b[5:], r.Bytes(40))
	case 1:
		b[5] |= byte(r.N(32))
		copy(b[6:], r.Bytes(r.N(30)))
	default:
		for i := 0; i < 3; i++ {
			b[5+r.N(20)] = byte(r.Bits(8))
		}
	}
	stream := append(append([]byte{}, b...), r.Bytes(300)...)
	br := bitreader.NewReader(newSource(stream, r.N(chunkStyles), r))
	var obj *ts.Packet
	var err error
	if r.P(1, 2) {
		obj, err = ts.NewPacket(br)
	} else {
		obj = &ts.Packet{}
		err = obj.Next(br)
	}
	c.Input = stream
	c.Sig(stream, true)
	if err != nil {
		if L <= 183 && L == int(p.raw[4]) && bytes.Equal(b, p.raw) {
			c.Fail("well-formed packet %v: unexpected error %v", p, err)
		}
		c.Count("fields_refused", 1)
		return
	}
	c.Count("arbitrary_fields_accepted", 1)
	if L > 183 {
		c.Fail("a packet whose adaptation field claims %d bytes is reported as a packet", L)
	}
	if obj.AdaptationField == nil {
		c.Fail("a packet with an adaptation field (control %d, length %d) is reported without one", p.afc, L)
	}
	want := 188
	if p.afc == 3 && !bytes.Equal(obj.Payload, b[5+L:]) {
		c.Fail("adaptation field of %d bytes: payload of %d bytes is not the %d bytes behind the field", L, len(obj.Payload), 183-L)
	}
	v, err := br.Peek32(32)
	if w := uint32(stream[want])<<24 | uint32(stream[want+1])<<16 | uint32(stream[want+2])<<8 | uint32(stream[want+3]); err != nil || v != w {
		c.Fail("after a packet with an adaptation field of %d bytes the stream is not at byte %d: next bits %08x err %v, want %08x", L, want, v, err, w)
	}
}

// T01, T02: parse a sequence packet by packet.
func runTSParse(c *Case, base, af bool) {
	r := c.R
	if af && c.Idx%8 == 7 {
		arbitraryField(c)
		return
	}
	n := c.Length(r.In(1, 12))
	ps := genTSSeq(c, n, tsOpt{})
	if af {
		for i := range ps {
			if r.P(1, 2) && ps[i].afc != 3 {
				ps[i].afc = 3
				ps[i].build(r)
			}
		}
	}
	data := joinTS(ps)
	tail := r.Bytes(12)
	stream := append(append([]byte{}, data...), tail...)
	style := r.N(chunkStyles)
	br := bitreader.NewReader(newSource(stream, style, r))
	reuse := r.P(3, 4)
	layouts := map[uint32]bool{}
	var obj *ts.Packet
	var prev *tsPkt
	nontriv := false
	for i, p := range ps {
		var err error
		if obj == nil || !reuse {
			obj, err = ts.NewPacket(br)
		} else {
			err = obj.Next(br)
		}
		if err != nil {
			c.Input = stream
			c.Fail("packet %d of %d %v: unexpected error %v", i, n, p, err)
		}
		s := p.matchHeader(obj)
		if s == "" && af {
			s = p.matchAF(obj)
		}
		if s == "" && base {
			s = p.matchPayload(obj)
		}
		if s != "" {
			c.Input = stream
			c.Fail("packet %d of %d %v (reused object %v): %s", i, n, p, reuse && i > 0, s)
		}
		if base || af {
			off := 188 * (i + 1)
			v, err := br.Peek32(32)
			want := uint32(stream[off])<<24 | uint32(stream[off+1])<<16 | uint32(stream[off+2])<<8 | uint32(stream[off+3])
			if err != nil || v != want {
				c.Input = stream
				c.Fail("after packet %d %v the stream is not at byte %d: next bits %08x err %v, want %08x", i, p, off, v, err, want)
			}
		}
		c.Count("packets", 1)
		seePkt(c, p)
		layouts[p.afc] = true
		if reuse && prev != nil && prev.af != nil && p.af == nil {
			c.Count("absent_after_present", 1)
			nontriv = true
		}
		if p.af != nil && p.af.length > 1 {
			nontriv = true
		}
		prev = p
	}
	if base {
		nontriv = len(layouts) > 1
	}
	c.See("chunking", uint64(style))
	c.Sig(stream, nontriv)
	c.Sample("%d packets, chunking %s, first %v", n, chunkName(style), ps[0])
}

func noSync(r *R, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		for {
			b[i] = byte(r.U64())
			if r.P(1, 4) {
				b[i] = []byte{0x46, 0x48, 0x8e, 0xa3, 0x74, 0, 0xff}[r.N(7)]
			}
			if b[i] != 0x47 {
				break
			}
		}
	}
	return b
}

func runResync(c *Case) {
	r := c.R
	n := c.Length(r.In(1, 6))
	type item struct {
		junk int
		p    *tsPkt
	}
	var items []item
	var stream []byte
	bitOff := 0
	if r.P(2, 3) {
		bitOff = r.N(8)
	}
	lead := 0
	if bitOff > 0 {
		// The partly read byte may look like a sync byte: it does not count.
		stream = append(stream, byte(0x47))
		if r.Bool() {
			stream[0] = byte(r.U64())
		}
		lead = 1
	}
	for i := 0; i < n; i++ {
		j := 0
		switch r.N(6) {
		case 0:
		case 1:
			j = r.In(1, 10)
		case 2, 3:
			j = r.In(1, 187)
		case 4:
			j = r.In(185, 192)
		case 5:
			j = r.In(188, 800)
		}
		p := genTS(r, tsOpt{})
		items = append(items, item{j, p})
		stream = append(stream, noSync(r, j)...)
		stream = append(stream, p.raw...)
	}
	endJunk := 0
	if r.P(1, 3) {
		endJunk = r.In(1, 150)
		stream = append(stream, noSync(r, endJunk)...)
	}
	br := bitreader.NewReader(newSource(stream, r.N(chunkStyles), r))
	if bitOff > 0 {
		if _, err := br.Read32(uint(bitOff)); err != nil {
			c.Fail("harness read: %v", err)
		}
	}
	_ = lead
	c.See("bit_offsets", uint64(bitOff))
	obj := &ts.Packet{}
	c.Input = stream
	nontriv := bitOff > 0
	for i, it := range items {
		j := it.junk
		c.See("junk_lengths", uint64(j))
		for j >= 188 {
			err := obj.Next(br)
			if err != ts.ErrNoSyncByte {
				c.Fail("item %d: %d sync-free bytes ahead (bit offset %d): Next returned %v, want ErrNoSyncByte", i, j, bitOff, err)
			}
			c.Count("nosync_errors", 1)
			j -= 188
		}
		if err := obj.Next(br); err != nil {
			c.Fail("item %d: packet after %d bytes of junk (%d left), start bit %d: error %v", i, it.junk, j, bitOff, err)
		}
		if s := it.p.match(obj); s != "" {
			c.Fail("item %d: packet after %d bytes of junk, start bit %d: %s", i, it.junk, bitOff, s)
		}
		if it.junk > 0 || (i == 0 && bitOff > 0) {
			c.Count("packets_after_junk", 1)
			nontriv = true
		}
	}
	err := obj.Next(br)
	if err == nil {
		c.Fail("a packet was reported from the %d junk bytes at the end", endJunk)
	}
	if err != io.EOF && err != io.ErrUnexpectedEOF {
		c.Fail("at the end after %d junk bytes: error %v, want end-of-file", endJunk, err)
	}
	c.Sig(stream, nontriv)
	c.Sample("bit offset %d, %d packets, junk before the first %d, trailing junk %d", bitOff, n, items[0].junk, endJunk)
}

func runEndings(c *Case) {
	r := c.R
	pids := tsPids(r)
	n := r.In(1, 4)
	ps := genTSSeq(c, n, tsOpt{pids: pids})
	data := joinTS(ps)
	c.Sig(data, true)
	c.Sample("%d packets, first %v", n, ps[0])
	// every cut (a window of cuts, so that over the cases all are taken)
	lo := r.N(len(data) + 1)
	for d := 0; d < 60; d++ {
		k := (lo + d*7) % (len(data) + 1)
		if d%6 == 0 {
			k = 188 * r.N(n+1)
		}
		style := r.N(chunkStyles)
		br := bitreader.NewReader(newSource(data[:k], style, r))
		obj := &ts.Packet{}
		for i := 0; i < k/188; i++ {
			if err := obj.Next(br); err != nil {
				c.Fail("cut at %d: packet %d is complete but Next returned %v", k, i, err)
			}
			if s := ps[i].match(obj); s != "" {
				c.Fail("cut at %d: packet %d: %s", k, i, s)
			}
		}
		want := io.EOF
		if k%188 != 0 {
			want = io.ErrUnexpectedEOF
		}
		if err := obj.Next(br); err != want {
			c.Fail("cut at %d (%d bytes into packet %d %v), chunking %s: Next returned %v, want %v", k, k%188, k/188, ps[min(k/188, n-1)], chunkName(style), err, want)
		}
		c.Count("cuts", 1)
		c.See("cut_offsets", uint64(k%188))
	}
	// the end or the failure comes while the parser looks for a sync byte
	for t := 0; t < 3; t++ {
		at := r.N(n + 1)
		j := r.In(1, 187)
		k := 188*at + r.In(0, j)
		stream := append(append(append([]byte{}, data[:188*at]...), noSync(r, j)...), data[188*at:]...)
		fail, once := r.Bool(), r.Bool()
		mk := func() *Source {
			s := newSource(stream, r.N(chunkStyles), r)
			if fail {
				s.errAt, s.err, s.once = k, errSource, once
			} else {
				s.data = stream[:k]
			}
			return s
		}
		br := bitreader.NewReader(mk())
		obj := &ts.Packet{}
		for i := 0; i < at; i++ {
			if err := obj.Next(br); err != nil {
				c.Fail("packet %d is complete but Next returned %v", i, err)
			}
		}
		err := obj.Next(br)
		var par, rdr, uni error
		par = err
		d := drain(c, "payload reader, ends after junk", ts.NewPayloadReader(mk().ends(r), func(*ts.Packet) bool { return true }), nil, len(stream))
		rdr = d.err
		d = drain(c, "unit reader, ends after junk", ts.NewPayloadUnitReader(mk().ends(r), func(*ts.Packet) bool { return true }), ts.EOP, len(stream))
		uni = d.err
		dm := ts.NewDemuxer(mk().ends(r))
		ch := dm.Where(func(*ts.Packet) bool { return true })
		done := dm.Go()
		got := 0
		for range ch {
			got++
		}
		<-done
		c.Check(got == at, "demultiplexer: %d packets delivered, %d are complete", got, at)
		for what, err := range map[string]error{"Next": par, "payload reader": rdr, "unit reader": uni, "demultiplexer": dm.Err()} {
			switch {
			case fail && err != errSource:
				c.Fail("%s: the source fails %d bytes behind packet %d, where no sync byte is (once=%v): %v, want the source's error", what, k-188*at, at, once, err)
			case !fail && err != io.EOF && err != io.ErrUnexpectedEOF:
				c.Fail("%s: the stream ends %d bytes behind packet %d, where no sync byte is: %v, want end-of-file", what, k-188*at, at, err)
			}
		}
		c.Count("ended_in_junk", 1)
	}
	// failing sources
	for t := 0; t < 4; t++ {
		k := r.N(len(data) + 1)
		if r.P(1, 5) {
			k = 188 * r.N(n+1)
		}
		once := r.Bool()
		full := k / 188
		mk := func() *Source {
			s := newSource(data, r.N(chunkStyles), r)
			s.errAt, s.err, s.once = k, errSource, once
			return s
		}
		// parser
		br := bitreader.NewReader(mk())
		obj := &ts.Packet{}
		for i := 0; i < full; i++ {
			if err := obj.Next(br); err != nil {
				c.Fail("source fails at %d: packet %d is complete but Next returned %v", k, i, err)
			}
		}
		if err := obj.Next(br); err != errSource {
			c.Fail("source fails at byte %d (%d into packet %d %v, once=%v): Next returned %v, want the source's error", k, k%188, full, ps[min(full, n-1)], once, err)
		}
		c.Count("injected_parser", 1)
		// payload reader
		where := genExpr(r, 1, pids)
		var want []byte
		for _, p := range ps[:full] {
			if where.eval(p) {
				want = append(want, p.payload...)
			}
		}
		d := drain(c, fmt.Sprintf("payload reader, source fails at %d", k), ts.NewPayloadReader(mk().ends(r), where.build(nil)), nil, len(data))
		if d.err != errSource {
			c.Fail("payload reader %v: source fails at byte %d (once=%v): ended with %v, want the source's error", where, k, once, d.err)
		}
		if !bytes.Equal(d.data, want) {
			c.Fail("payload reader %v: source fails at byte %d: complete packets' payload: %s", where, k, firstDiff(d.data, want))
		}
		c.Count("injected_payload", 1)
		// unit reader
		us, _ := unitsOf(ps[:full], where)
		d = drain(c, fmt.Sprintf("unit reader, source fails at %d", k), ts.NewPayloadUnitReader(mk().ends(r), where.build(nil)), ts.EOP, len(data))
		if d.err != errSource {
			c.Fail("unit reader %v: source fails at byte %d (once=%v): ended with %v, want the source's error", where, k, once, d.err)
		}
		want = nil
		var marks []int
		for _, u := range us {
			want = append(want, u...)
			marks = append(marks, len(want))
		}
		if !bytes.Equal(d.data, want) {
			c.Fail("unit reader %v: source fails at byte %d: complete packets' payload: %s", where, k, firstDiff(d.data, want))
		}
		// the unit the failure interrupted may or may not be marked as ended
		m := d.marks
		if len(marks) > 0 && len(m) == len(marks)-1 {
			m = append(append([]int{}, m...), len(want))
		}
		if fmt.Sprint(m) != fmt.Sprint(marks) {
			c.Fail("unit reader %v: source fails at byte %d: units end at %v, want %v", where, k, d.marks, marks)
		}
		c.Count("injected_unit", 1)
		// demultiplexer
		dm := ts.NewDemuxer(mk().ends(r))
		ch := dm.Where(func(*ts.Packet) bool { return true })
		done := dm.Go()
		i := 0
		for p := range ch {
			if i >= full {
				c.Fail("demultiplexer: source fails at byte %d: delivered more than the %d complete packets", k, full)
			}
			if s := ps[i].match(p); s != "" {
				c.Fail("demultiplexer: packet %d: %s", i, s)
			}
			i++
		}
		<-done
		if i != full {
			c.Fail("demultiplexer: source fails at byte %d: delivered %d of %d complete packets", k, i, full)
		}
		if err := dm.Err(); err != errSource {
			c.Fail("demultiplexer: source fails at byte %d: Err() = %v, want the source's error", k, err)
		}
		c.Count("injected_demux", 1)
	}
}

func runTesters(c *Case) {
	r := c.R
	pids := tsPids(r)
	ps := genTSSeq(c, r.In(4, 16), tsOpt{pids: append(pids, 0x1fff)})
	var all []builtTester
	// several expressions over a shared pool of parts
	var roots []builtTester
	for i := 0; i < 3; i++ {
		e := genExpr(r, r.In(1, 5), pids)
		t := e.build(&all)
		roots = append(roots, builtTester{e, t})
	}
	// combine already built testers with each other
	for i := 0; i < 6; i++ {
		a, b := all[r.N(len(all))], all[r.N(len(all))]
		var n builtTester
		switch r.N(3) {
		case 0:
			n = builtTester{&expr{op: 3, a: a.e, b: b.e}, a.t.And(b.t)}
		case 1:
			n = builtTester{&expr{op: 4, a: a.e, b: b.e}, a.t.Or(b.t)}
		default:
			n = builtTester{&expr{op: 5, a: a.e}, a.t.Not()}
		}
		all = append(all, n)
	}
	gs := make([]*ts.Packet, len(ps))
	for i, p := range ps {
		g, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(p.raw)))
		if err != nil {
			c.Fail("packet: %v", err)
		}
		gs[i] = g
	}
	ask := func(order []int, fail func(string)) (n, tr int) {
		for _, k := range order {
			bt := all[k%len(all)]
			i := k / len(all)
			got, want := bt.t(gs[i]), bt.e.eval(ps[i])
			if got != want {
				fail(fmt.Sprintf("tester %v on %v answers %v, want %v", bt.e, ps[i], got, want))
				return
			}
			n++
			if got {
				tr++
			}
		}
		return
	}
	total := len(all) * len(gs)
	for rep := 0; rep < 2; rep++ {
		n, tr := ask(r.Perm(total), func(s string) { c.Fail("%s", s) })
		c.Count("answers", n)
		c.Count("true_answers", tr)
	}
	if c.Race || c.Idx%20 == 0 {
		var wg sync.WaitGroup
		var mu sync.Mutex
		msg := ""
		for g := 0; g < 4; g++ {
			order := r.Perm(total)
			wg.Add(1)
			go func() {
				defer wg.Done()
				ask(order, func(s string) {
					mu.Lock()
					msg = s
					mu.Unlock()
				})
			}()
		}
		wg.Wait()
		c.Check(msg == "", "concurrently: %s", msg)
		c.Count("concurrent_rounds", 1)
	}
	s := ""
	for _, x := range roots {
		s += x.e.String() + ";"
		c.See("expressions", hashStr(x.e.String()))
	}
	c.Sig([]byte(s+string(joinTS(ps))), roots[0].e.op >= 3)
	c.Sample("%s on %d packets", s, len(ps))
}

func pause(r *R) {
	switch r.N(40) {
	case 0:
		time.Sleep(time.Duration(r.N(40)) * time.Microsecond)
	case 1, 2, 3, 4, 5, 6:
		runtime.Gosched()
	}
}

// slowSource yields between reads now and then.
type slowSource struct {
	*Source
	r *R
}

func (s *slowSource) Read(p []byte) (int, error) {
	if s.r.P(1, 12) {
		pause(s.r)
	}
	return s.Source.Read(p)
}

func runDemux(c *Case) {
	r := c.R
	pids := tsPids(r)
	n := c.Length(r.In(0, 30))
	ps := genTSSeq(c, n, tsOpt{pids: append(pids, 0x100)})
	data := joinTS(ps)
	src := newSource(data, r.N(chunkStyles), &R{r.U64()}).ends(r)
	end := n
	wantErr := io.EOF
	switch r.N(4) {
	case 0:
		k := r.N(len(data) + 1)
		src.errAt, src.err = k, errSource
		end, wantErr = k/188, errSource
	case 1:
		if len(data) > 0 {
			k := r.N(len(data))
			src.data = data[:k]
			end = k / 188
			if k%188 != 0 {
				wantErr = io.ErrUnexpectedEOF
			}
		}
	}
	dm := ts.NewDemuxer(&slowSource{src, &R{r.U64()}})
	var skip, take *expr
	if r.P(1, 2) {
		skip = genExpr(r, 2, pids)
	}
	if r.P(1, 2) {
		take = genExpr(r, 2, pids)
		if r.P(1, 2) { // usually true, so that windows are long
			take = &expr{op: 4, a: take, b: &expr{op: 5, a: &expr{op: 0, pid: pids[0]}}}
		}
	}
	var chans []ts.PacketChannel
	var exprs []*expr
	nc := r.N(6)
	if r.P(1, 12) {
		nc = r.In(6, 40)
		c.Count("many_channels", 1)
	}
	// The tests and the channels are registered in any order; of a test given
	// twice, the last one counts.
	skipAt, takeAt := r.N(nc+1), r.N(nc+1)
	for i := 0; i <= nc; i++ {
		if i == skipAt && skip != nil {
			if r.P(1, 4) {
				dm.SkipUntil(genExpr(r, 1, pids).build(nil))
			}
			dm.SkipUntil(skip.build(nil))
		}
		if i == takeAt && take != nil {
			if r.P(1, 4) {
				dm.TakeWhile(genExpr(r, 1, pids).build(nil))
			}
			dm.TakeWhile(take.build(nil))
		}
		if i == nc {
			break
		}
		e := genExpr(r, 2, pids)
		if i > 0 && r.P(1, 5) {
			e = exprs[r.N(len(exprs))]
		}
		exprs = append(exprs, e)
		chans = append(chans, dm.Where(e.build(nil)))
	}
	// the model
	want := make([][]int, nc)
	started := false
	skipped := 0
	for i := 0; i < end; i++ {
		if !started {
			if skip != nil && !skip.eval(ps[i]) {
				skipped++
				continue
			}
			started = true
		} else if take != nil && !take.eval(ps[i]) {
			wantErr = nil
			break
		}
		for j, e := range exprs {
			if e.eval(ps[i]) {
				want[j] = append(want[j], i)
			}
		}
	}
	desc := fmt.Sprintf("%d packets (%d complete), channels %v, skip %v, take %v", n, end, exprs, skip, take)
	c.Input = data
	msgs := make(chan string, nc+2)
	closed := make([]bool, nc)
	check := func(j, k int, p *ts.Packet) string {
		if k >= len(want[j]) {
			return fmt.Sprintf("channel %d (%v): packet number %d delivered, only %d match: PID %x CC %d", j, exprs[j], k, len(want[j]), p.PID, p.ContinuityCounter)
		}
		if s := ps[want[j][k]].match(p); s != "" {
			return fmt.Sprintf("channel %d (%v): delivery %d is not stream packet %d: %s", j, exprs[j], k, want[j][k], s)
		}
		return ""
	}
	var done <-chan bool
	total := 0
	if r.P(1, 3) {
		// one consumer selecting over everything
		done = dm.Go()
		got := make([]int, nc)
		cases := make([]reflect.SelectCase, 0, nc+1)
		for _, ch := range chans {
			cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf((<-chan *ts.Packet)(ch))})
		}
		cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(done)})
		for {
			j, v, ok := reflect.Select(cases)
			if j == nc {
				// every channel must have been closed before
				for k := range chans {
					if closed[k] {
						continue
					}
					select {
					case p, ok := <-chans[k]:
						if ok {
							c.Fail("done was signalled while channel %d still delivers %v: %s", k, p, desc)
						}
					default:
						c.Fail("done was signalled while channel %d was still open: %s", k, desc)
					}
				}
				if !ok || !v.Bool() {
					c.Fail("done signalled %v (open %v), want true: %s", v, ok, desc)
				}
				break
			}
			if !ok {
				closed[j] = true
				cases[j].Chan = reflect.ValueOf((chan *ts.Packet)(nil))
				continue
			}
			p := v.Interface().(*ts.Packet)
			if s := check(j, got[j], p); s != "" {
				c.Fail("%s; %s", s, desc)
			}
			got[j]++
			pause(r)
		}
		for j := range got {
			total += got[j]
			if got[j] != len(want[j]) {
				c.Fail("channel %d (%v): %d packets delivered, %d match: %s", j, exprs[j], got[j], len(want[j]), desc)
			}
		}
		c.Count("select_consumers", 1)
	} else {
		var wg sync.WaitGroup
		counts := make([]int, nc)
		for j := range chans {
			wg.Add(1)
			rr := &R{r.U64()}
			go func(j int) {
				defer wg.Done()
				bad := ""
				k := 0
				for p := range chans[j] {
					if bad == "" {
						bad = check(j, k, p)
					}
					k++
					pause(rr)
				}
				closed[j] = true
				counts[j] = k
				if bad == "" && k != len(want[j]) {
					bad = fmt.Sprintf("channel %d (%v): %d packets delivered, %d match", j, exprs[j], k, len(want[j]))
				}
				if bad != "" {
					msgs <- bad
				}
			}(j)
		}
		done = dm.Go()
		v, ok := <-done
		wg.Wait()
		if !ok || !v {
			c.Fail("done signalled %v (open %v), want true: %s", v, ok, desc)
		}
		select {
		case m := <-msgs:
			c.Fail("%s; %s", m, desc)
		default:
		}
		for _, k := range counts {
			total += k
		}
		c.Count("parallel_consumers", 1)
	}
	// exactly once
	for i := 0; i < 3; i++ {
		runtime.Gosched()
		select {
		case v, ok := <-done:
			if ok {
				c.Fail("done was signalled a second time (%v): %s", v, desc)
			}
		default:
		}
	}
	if err := dm.Err(); err != wantErr {
		c.Fail("Err() = %v, want %v: %s", err, wantErr, desc)
	}
	c.Count("delivered", total)
	c.Count("skipped", skipped)
	if wantErr == nil {
		c.Count("ended_by_takewhile", 1)
	} else if wantErr == errSource || wantErr == io.ErrUnexpectedEOF {
		c.Count("ended_by_error", 1)
	}
	live := 0
	for _, w := range want {
		if len(w) > 0 {
			live++
		}
	}
	c.Sig(append([]byte(desc), data...), live >= 2)
	c.Sample("%s; delivered %d, Err %v", desc, total, wantErr)
}

func runDemuxHold(c *Case) {
	r := c.R
	pids := tsPids(r)
	n := r.In(2, 40)
	if r.P(1, 25) { // receivers that keep a lot
		n = r.In(600, 3000)
		c.Count("long_runs", 1)
	}
	ps := genTSSeq(c, n, tsOpt{pids: pids})
	data := joinTS(ps)
	c.Input = data
	dm := ts.NewDemuxer(&slowSource{newSource(data, r.N(chunkStyles), &R{r.U64()}), &R{r.U64()}})
	nc := r.In(1, 4)
	var exprs []*expr
	var chans []ts.PacketChannel
	for i := 0; i < nc; i++ {
		e := genExpr(r, 1, pids)
		if r.P(1, 2) {
			e = &expr{op: 4, a: e, b: &expr{op: 5, a: e}}
		}
		exprs = append(exprs, e)
		chans = append(chans, dm.Where(e.build(nil)))
	}
	want := make([][]int, nc)
	for i, p := range ps {
		for j, e := range exprs {
			if e.eval(p) {
				want[j] = append(want[j], i)
			}
		}
	}
	held := make([][]*ts.Packet, nc)
	bad := make([]string, nc)
	imm := make([]int, nc)
	var wg sync.WaitGroup
	for j := range chans {
		wg.Add(1)
		rr := &R{r.U64()}
		go func(j int) {
			defer wg.Done()
			for p := range chans[j] {
				held[j] = append(held[j], p)
				k := len(held[j]) - 1
				pause(rr)
				if k < len(want[j]) && bad[j] == "" {
					// read what was received while the demultiplexer goes on
					if s := ps[want[j][k]].match(p); s != "" {
						bad[j] = fmt.Sprintf("channel %d: packet %d read shortly after its delivery: %s", j, want[j][k], s)
					}
					// and an older one
					o := rr.N(k + 1)
					if s := ps[want[j][o]].match(held[j][o]); s != "" && bad[j] == "" {
						bad[j] = fmt.Sprintf("channel %d: packet %d held while packet %d arrived: %s", j, want[j][o], want[j][k], s)
					}
					imm[j]++
				}
			}
		}(j)
	}
	done := dm.Go()
	<-done
	wg.Wait()
	max := 0
	for j := range held {
		c.Check(bad[j] == "", "%s", bad[j])
		c.Check(len(held[j]) == len(want[j]), "channel %d: %d packets, want %d", j, len(held[j]), len(want[j]))
		for k, p := range held[j] {
			if s := ps[want[j][k]].match(p); s != "" {
				c.Fail("channel %d: packet %d changed after its delivery: %s", j, want[j][k], s)
			}
		}
		c.Count("held_packets", len(held[j]))
		c.Count("immediate_reads", imm[j])
		if len(held[j]) > max {
			max = len(held[j])
		}
	}
	c.Sig(append([]byte(fmt.Sprint(exprs)), data...), max >= 2)
	c.Sample("%d packets, channels %v", n, exprs)
}

func runPayloadReader(c *Case, window bool) {
	r := c.R
	pids := tsPids(r)
	n := c.Length(r.N(24))
	ps := genTSSeq(c, n, tsOpt{pids: append(pids, 0x55)})
	where := genExpr(r, 2, pids)
	if r.P(1, 3) {
		where = &expr{op: 0, pid: pids[0]}
	}
	data := joinTS(ps)
	rd := ts.NewPayloadReader(newSource(data, r.N(chunkStyles), r).ends(r), where.build(nil))
	var skip, take *expr
	if window {
		if r.P(2, 3) {
			skip = genExpr(r, 2, pids)
			if r.P(1, 12) {
				skip = &expr{op: 0, pid: 0x2000} // no packet can match
			}
			rd.SkipUntil(skip.build(nil))
		}
		if r.P(2, 3) || skip == nil {
			take = genExpr(r, 2, pids)
			if r.P(1, 2) {
				take = &expr{op: 4, a: take, b: &expr{op: 5, a: &expr{op: 0, pid: pids[0]}}}
			}
			// Without a skip-until test it is left open whether the very first
			// packet is subject to the take-while test.
			if skip == nil && n > 0 && !take.eval(ps[0]) {
				take = &expr{op: 5, a: take}
			}
			rd.TakeWhile(take.build(nil))
		}
	}
	var want []byte
	started := false
	match, other, skipped, closed := 0, 0, 0, false
	for i, p := range ps {
		if !started {
			if skip != nil && !skip.eval(p) {
				skipped++
				continue
			}
			started = true
		} else if take != nil && i > 0 && !take.eval(p) {
			closed = true
			break
		}
		if where.eval(p) {
			want = append(want, p.payload...)
			match++
			if len(p.payload) == 0 {
				c.Count("empty_payload_packets", 1)
			}
		} else {
			other++
		}
	}
	desc := fmt.Sprintf("%d packets, where %v, skip %v, take %v", n, where, skip, take)
	c.Input = data
	c.AfterEnd = func(k int, err error) {
		if k != 0 || err != io.EOF {
			c.Fail("a read after the end returned %d, %v; %s", k, err, desc)
		}
	}
	d := drain(c, "payload reader: "+desc, rd, nil, len(data))
	if !bytes.Equal(d.data, want) {
		c.Fail("payload bytes: %s; %s", firstDiff(d.data, want), desc)
	}
	if d.err != io.EOF {
		c.Fail("ended with %v, want end-of-file; %s", d.err, desc)
	}
	if k, err := rd.Read(make([]byte, 10)); k != 0 || err != io.EOF {
		c.Fail("a read after the end returned %d, %v; %s", k, err, desc)
	}
	c.Count("bytes", len(want))
	c.Count("reads", d.reads)
	if skipped > 0 {
		c.Count("skipped_some", 1)
	}
	if !started && n > 0 {
		c.Count("skip_never", 1)
	}
	if closed {
		c.Count("window_closed", 1)
	}
	nt := match > 0 && other > 0
	if window {
		nt = skipped > 0 || closed
	}
	c.Sig(append([]byte(desc), data...), nt)
	c.Sample("%s: %d bytes in %d reads", desc, len(want), d.reads)
}

// runLateWindow sets the take-while test of a payload reader between two reads.
func runLateWindow(c *Case) {
	r := c.R
	pids := tsPids(r)
	n := c.Length(r.In(2, 24))
	ps := genTSSeq(c, n, tsOpt{pids: append(pids, 0x55)})
	where := genExpr(r, 1, pids)
	data := joinTS(ps)
	rd := ts.NewPayloadReader(newSource(data, r.N(chunkStyles), r).ends(r), where.build(nil))
	first := 0
	var skip *expr
	if r.P(1, 3) {
		skip = genExpr(r, 1, pids)
		rd.SkipUntil(skip.build(nil))
		for first < n && !skip.eval(ps[first]) {
			first++
		}
	}
	if r.P(1, 4) { // replaced later
		rd.TakeWhile(ts.IsPID(0x1FFF).Or(func(*ts.Packet) bool { return true }))
	}
	var all []byte
	var ends, idx []int // of the packets that are delivered
	for i := first; i < n; i++ {
		if where.eval(ps[i]) && len(ps[i].payload) > 0 {
			all = append(all, ps[i].payload...)
			ends = append(ends, len(all))
			idx = append(idx, i)
		}
	}
	if len(all) == 0 {
		c.Sig(data, false)
		return
	}
	take := genExpr(r, 1, pids)
	k := r.In(1, len(all))
	if r.P(1, 3) {
		k = ends[r.N(len(ends))]
	}
	c.Input = data
	desc := fmt.Sprintf("%d packets, where %v, skip %v, take %v set after %d bytes", n, where, skip, take, k)
	var got []byte
	for len(got) < k {
		m := r.In(1, k-len(got))
		if r.Bool() {
			m = min(m, r.In(1, 200))
		}
		b := make([]byte, m)
		if m, err := io.ReadFull(rd, b); err != nil {
			c.Fail("read of %d bytes at %d returned %d, %v; %s", len(b), len(got), m, err, desc)
		}
		got = append(got, b...)
	}
	rd.TakeWhile(take.build(nil))
	d := drain(c, "payload reader: "+desc, rd, nil, len(data))
	got = append(got, d.data...)
	// the packet that byte k-1 came from was read before the test was set
	last := 0
	for ends[last] < k {
		last++
	}
	at := n
	for i := idx[last] + 1; i < n; i++ {
		if !take.eval(ps[i]) {
			at = i
			break
		}
	}
	want := len(all)
	for j, i := range idx {
		if i >= at {
			want = ends[j] - len(ps[i].payload)
			break
		}
	}
	if !bytes.Equal(got, all[:want]) {
		c.Fail("payload bytes: %s; %s", firstDiff(got, all[:want]), desc)
	}
	if d.err != io.EOF {
		c.Fail("ended with %v, want end-of-file; %s", d.err, desc)
	}
	if at < n {
		c.Count("closed_by_late_tests", 1)
	}
	c.Count("bytes", len(got))
	c.Sig(append([]byte(desc), data...), at < n)
}

func unitsOf(ps []*tsPkt, where *expr) (units [][]byte, dropped int) {
	on := false
	for _, p := range ps {
		if !where.eval(p) {
			continue
		}
		if p.pusi {
			units = append(units, nil)
			on = true
		}
		if !on {
			dropped++
			continue
		}
		units[len(units)-1] = append(units[len(units)-1], p.payload...)
	}
	return
}

func runUnitReader(c *Case) {
	r := c.R
	pids := tsPids(r)
	n := c.Length(r.N(24))
	long := r.P(1, 400)
	huge := c.Idx%48000 == 47
	if huge { // units of several megabytes
		n, long = r.In(60000, 100000), true
		c.Count("huge_runs", 1)
	} else if long { // units of more than 64K
		n = r.In(500, 3000)
	}
	if long {
		pids = pids[:1]
		c.Count("long_runs", 1)
	}
	ps := genTSSeq(c, n, tsOpt{pids: append(pids, 0x55)})
	where := genExpr(r, 2, pids)
	if long || r.P(1, 2) {
		where = &expr{op: 0, pid: pids[0]}
	}
	if long {
		for _, p := range ps {
			if p.pusi && !r.P(1, 200*(1+99*int(bit(huge)))) {
				p.pusi = false
				p.build(r)
			}
		}
	}
	data := joinTS(ps)
	c.Input = data
	units, dropped := unitsOf(ps, where)
	var want []byte
	marks := []int{}
	empty := 0
	for _, u := range units {
		want = append(want, u...)
		marks = append(marks, len(want))
		if len(u) == 0 {
			empty++
		}
	}
	desc := fmt.Sprintf("%d packets, where %v, %d units", n, where, len(units))
	rd := ts.NewPayloadUnitReader(newSource(data, r.N(chunkStyles), r).ends(r), where.build(nil))
	d := drain(c, "unit reader: "+desc, rd, ts.EOP, len(data))
	if !bytes.Equal(d.data, want) {
		c.Fail("unit bytes: %s; unit ends %v, want %v; %s", firstDiff(d.data, want), d.marks, marks, desc)
	}
	if fmt.Sprint(d.marks) != fmt.Sprint(marks) {
		c.Fail("units end at %v, want %v; %s", d.marks, marks, desc)
	}
	if d.err != io.EOF {
		c.Fail("ended with %v, want end-of-file; %s", d.err, desc)
	}
	if k, err := rd.Read(make([]byte, 10)); k != 0 || err != io.EOF {
		c.Fail("a read after the end returned %d, %v; %s", k, err, desc)
	}
	c.Count("units", len(units))
	c.Count("empty_units", empty)
	c.Count("dropped_before_start", dropped)
	c.Sig(append([]byte(desc), data...), len(units) >= 2)
	c.Sample("%s: ends %v", desc, marks)
}

// runTwoAdapters has several adapters at work on the same packets, as they
// are when channels of one demultiplexer match the same packets.
func runTwoAdapters(c *Case, ps []*tsPkt, pkts []*ts.Packet) {
	r := c.R
	pids := tsPids(r)
	if len(ps) > 0 {
		pids[0] = ps[r.N(len(ps))].pid
	}
	k := r.In(2, 4)
	var exprs []*expr
	for j := 0; j < k; j++ {
		e := genExpr(r, 1, pids)
		if r.P(1, 3) {
			e = &expr{op: 4, a: e, b: &expr{op: 5, a: e}}
		}
		exprs = append(exprs, e)
	}
	outs := make([]<-chan []byte, k)
	unit := make([]bool, k)
	var chans []ts.PacketChannel
	var done <-chan bool
	demux := r.Bool()
	var dm *ts.Demuxer
	if demux {
		dm = ts.NewDemuxer(&slowSource{newSource(joinTS(ps), r.N(chunkStyles), &R{r.U64()}), &R{r.U64()}})
		for _, e := range exprs {
			chans = append(chans, dm.Where(e.build(nil)))
		}
	} else {
		for _, e := range exprs {
			ch := make(chan *ts.Packet, r.N(3))
			chans = append(chans, ch)
			f, t, e := &R{r.U64()}, e.build(nil), e
			go func() {
				for i, p := range pkts {
					if e.eval(ps[i]) != t(p) {
						break
					}
					if t(p) {
						pause(f)
						ch <- p
					}
				}
				close(ch)
			}()
		}
	}
	for j := range outs {
		unit[j] = r.P(3, 4)
		if unit[j] {
			outs[j] = chans[j].PayloadUnit()
		} else {
			outs[j] = chans[j].PayloadOnly()
		}
	}
	if demux {
		done = dm.Go()
	}
	got := make([][][]byte, k)
	var wg sync.WaitGroup
	for j := range outs {
		wg.Add(1)
		rr := &R{r.U64()}
		go func(j int) {
			defer wg.Done()
			for b := range outs[j] {
				got[j] = append(got[j], b)
				pause(rr)
			}
		}(j)
	}
	if demux {
		<-done
	}
	wg.Wait()
	for j, e := range exprs {
		var want [][]byte
		what := "PayloadOnly"
		if unit[j] {
			what = "PayloadUnit"
			want, _ = unitsOf(ps, e)
		} else {
			for _, p := range ps {
				if e.eval(p) {
					want = append(want, p.payload)
				}
			}
		}
		what = fmt.Sprintf("ts %s of %v, one of %d adapters on the same packets (from a demultiplexer: %v)", what, e, k, demux)
		c.Check(len(got[j]) == len(want), "%s: %d items came out, want %d", what, len(got[j]), len(want))
		for i := range want {
			if !bytes.Equal(got[j][i], want[i]) {
				c.Fail("%s: item %d: %s", what, i, firstDiff(got[j][i], want[i]))
			}
		}
		c.Count("shared_items", len(want))
	}
	for i, p := range ps {
		if s := p.match(pkts[i]); s != "" {
			c.Fail("an adapter changed packet %d: %s", i, s)
		}
	}
	c.Count("shared_packets", 1)
}

func runAdapters(c *Case) {
	r := c.R
	n := c.Length(r.N(14))
	huge := c.Idx%10000 == 9999
	if huge { // units of several megabytes
		n = r.In(60000, 80000)
	}
	ps := genTSSeq(c, n, tsOpt{pids: tsPids(r)})
	if huge {
		for _, p := range ps {
			if p.pusi && !r.P(1, 20000) {
				p.pusi = false
				p.build(r)
			}
		}
		c.Count("huge_runs", 1)
	}
	c.Input = joinTS(ps)
	var pkts []*ts.Packet
	for _, p := range ps {
		g, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(p.raw)))
		if err != nil {
			c.Fail("packet: %v", err)
		}
		pkts = append(pkts, g)
	}
	rr := &R{r.U64()}
	feed := func() ts.PacketChannel {
		ch := make(chan *ts.Packet, []int{0, 0, 1, 20}[r.N(4)])
		f := &R{rr.U64()}
		go func() {
			for _, p := range pkts {
				if !huge {
					pause(f)
				}
				ch <- p
			}
			pause(f)
			close(ch)
		}()
		return ch
	}
	collect := func(ch <-chan []byte) (got [][]byte) {
		for b := range ch {
			got = append(got, b)
			if !huge {
				pause(r)
			}
			if len(got) > 10000+2*n {
				c.Fail("endless output")
			}
		}
		return
	}
	same := func(what string, got, want [][]byte) {
		if len(got) != len(want) {
			c.Fail("%s: %d items came out, want %d", what, len(got), len(want))
		}
		for i := range got {
			if !bytes.Equal(got[i], want[i]) {
				c.Fail("%s: item %d: %s", what, i, firstDiff(got[i], want[i]))
			}
		}
	}
	var want [][]byte
	for _, p := range ps {
		want = append(want, p.payload)
	}
	all := &expr{op: 4, a: &expr{op: 1}, b: &expr{op: 5, a: &expr{op: 1}}}
	units, _ := unitsOf(ps, all)
	kind := r.N(5)
	if huge {
		kind = 1
	}
	switch kind {
	case 4:
		runTwoAdapters(c, ps, pkts)
	case 0:
		same("ts PayloadOnly", collect(feed().PayloadOnly()), want)
		c.Count("ts_payloads", len(want))
	case 1:
		same("ts PayloadUnit", collect(feed().PayloadUnit()), units)
		c.Count("units", len(units))
	case 2:
		var in []*pes.Packet
		var sums []uint64
		want = nil
		for i, p := range genPESSeq(c, r.N(12), pesOpt{maxLoad: []int{2, 50, 500}[r.N(3)]}) {
			var g *pes.Packet
			if r.P(1, 4) {
				g = &pes.Packet{StreamID: uint32(p.id), Payload: append([]byte{}, p.payload...)}
			} else {
				var err error
				if g, err = pes.NewPacket(bitreader.NewReader(bytes.NewReader(p.raw))); err != nil {
					c.Fail("pes packet %d: %v", i, err)
				}
			}
			in = append(in, g)
			sums = append(sums, hashPESPacket(g))
			want = append(want, p.payload)
			if len(p.payload) == 0 {
				c.Count("empty_pes_payloads", 1)
			}
		}
		ch := make(chan *pes.Packet, []int{0, 0, 1, 20}[r.N(4)])
		f := &R{rr.U64()}
		go func() {
			for _, p := range in {
				pause(f)
				ch <- p
			}
			pause(f)
			close(ch)
		}()
		same("pes PayloadOnly", collect(pes.PacketChannel(ch).PayloadOnly()), want)
		for i, p := range in {
			c.Check(hashPESPacket(p) == sums[i], "pes PayloadOnly: packet %d has changed", i)
		}
		c.Count("pes_payloads", len(want))
	case 3:
		dm := ts.NewDemuxer(&slowSource{newSource(joinTS(ps), r.N(chunkStyles), &R{r.U64()}), &R{r.U64()}})
		ch := dm.Where(all.build(nil))
		unit := r.Bool()
		var out <-chan []byte
		if unit {
			out = ch.PayloadUnit()
		} else {
			out = ch.PayloadOnly()
		}
		done := dm.Go()
		got := collect(out)
		<-done
		if unit {
			same("ts PayloadUnit from a demultiplexer", got, units)
		} else {
			same("ts PayloadOnly from a demultiplexer", got, want)
		}
		c.Count("from_demuxer", 1)
	}
	c.Sig(c.Input, len(want) >= 2)
	c.Sample("%d packets, %d units", n, len(units))
}
