package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
)

func init() {
	register(&Prop{
		ID: "P01", Rule: "random PES packet sequences by an independent ISO 13818-1 packet writer, plus corrupted markers, stuffing and start codes; non-trivial when a packet has optional fields or follows another kind on the same object",
		Quick: 1800000, Thorough: 30000000,
		Min:      map[string]int64{"packets": 60000, "layouts": 500, "stream_ids": 20, "malformed": 5000, "lengths_that_do_not_fit": 2000, "unbounded": 500, "nothing_carried_over": 2000},
		Run:      runPESParse,
		Findings: []Finding{{ID: "pts33", Desc: "bit 32 of 33-bit PTS/DTS values is lost (uint32 fields)", Probe: probePTS33}},
	})
	register(&Prop{
		ID: "P02", Rule: "PES payload reader over random packet sequences, read sizes and chunkings, complete, cut and corrupted; non-trivial when at least two packets with payload are concatenated",
		Quick: 400000, Thorough: 9000000,
		Min: map[string]int64{"bytes": 1000000, "reads": 50000, "broken": 3000, "padding": 5000},
		Run: runPESReader,
	})
	register(&Prop{
		ID: "S01", Rule: "random pack and system headers, plus missing start codes and marker bits; non-trivial when a system header or stuffing is present",
		Quick: 3000000, Thorough: 40000000,
		Min:      map[string]int64{"headers": 20000, "system_headers": 5000, "markers_cleared": 5000, "marker_positions": 14, "stream_entries": 8000},
		Run:      runPackHeader,
		Findings: []Finding{{ID: "scr33", Desc: "bit 32 of the 33-bit system clock reference base is lost (uint32 field)", Probe: probeSCR33}},
	})
	register(&Prop{
		ID: "S02", Rule: "pack reader over random program streams, complete, cut and corrupted; non-trivial when at least two packets with payload are concatenated",
		Quick: 400000, Thorough: 9000000,
		Min: map[string]int64{"bytes": 1000000, "empty_packs": 3000, "broken": 3000, "packs": 20000},
		Run: runPackReader,
	})
	register(&Prop{
		ID: "S03", Rule: "concurrent program stream decoder over random program streams, complete, cut, corrupted and on failing sources, with consumers of random speed; non-trivial when at least two packs are delivered",
		Quick: 30000, Thorough: 500000, RaceQuick: 2500, RaceThor: 40000, DelayQuick: 15000, DelayThor: 400000,
		Min: map[string]int64{"packs": 10000, "packets": 15000, "done_true": 2000, "done_false": 2000, "select_consumers": 1000},
		Run: runPSDecoder,
	})
}

func genPESSeq(c *Case, n int, o pesOpt) []*pesPkt {
	ps := make([]*pesPkt, n)
	for i := range ps {
		ps[i] = genPES(c.R, o)
	}
	return ps
}

func joinPES(l []*pesPkt) (b, payload []byte) {
	for _, p := range l {
		b = append(b, p.raw...)
		payload = append(payload, p.payload...)
	}
	return
}

func seePES(c *Case, p *pesPkt) {
	k := p.ptsdts
	fl := []bool{p.escr, p.esRate, p.trick, p.copyInfo, p.crc, p.ext != nil, p.stuffing > 0}
	if e := p.ext; e != nil {
		fl = append(fl, e.priv, e.packHdr, e.seq, e.pstd, e.ext2)
	}
	for i, f := range fl {
		if f {
			k |= 1 << uint(4+i)
		}
	}
	c.See("layouts", k)
	c.See("stream_ids", uint64(p.id))
}

func runPESParse(c *Case) {
	r := c.R
	if r.P(1, 3) {
		runPESMalformed(c)
		return
	}
	n := c.Length(r.In(1, 6))
	l := genPESSeq(c, n, pesOpt{maxLoad: 300})
	if r.P(1, 6) {
		// an unbounded packet takes everything to the end
		p := &pesPkt{id: uint32(0xe0 + r.N(16)), unbounded: true}
		p.fill(r, pesOpt{})
		if r.P(1, 50) {
			p.setPayload(r.Bytes(r.In(60000, 200000)))
		} else {
			p.setPayload(r.Bytes(r.N(2000)))
		}
		l = append(l, p)
		c.Count("unbounded", 1)
	}
	stream, _ := joinPES(l)
	tail := r.Bytes(8)
	unb := l[len(l)-1].unbounded
	if !unb {
		stream = append(stream, tail...)
	}
	c.Input = stream
	br := bitreader.NewReader(newSource(stream, r.N(chunkStyles), r))
	reuse := r.P(3, 4)
	var obj *pes.Packet
	off := 0
	nontriv := false
	for i, p := range l {
		var err error
		if obj == nil || !reuse {
			obj, err = pes.NewPacket(br)
		} else {
			err = obj.Next(br)
			if l[i-1].hasHeader && !p.hasHeader {
				c.Count("nothing_carried_over", 1)
				nontriv = true
			}
		}
		if err != nil {
			c.Fail("packet %d %v: unexpected error %v", i, p, err)
		}
		if s := p.match(obj); s != "" {
			c.Fail("packet %d %v (reused object %v): %s", i, p, reuse && i > 0, s)
		}
		off += len(p.raw)
		if off+4 <= len(stream) {
			v, err := br.Peek32(32)
			want := uint32(stream[off])<<24 | uint32(stream[off+1])<<16 | uint32(stream[off+2])<<8 | uint32(stream[off+3])
			if err != nil || v != want {
				c.Fail("after packet %d %v the stream is not at byte %d: next bits %08x err %v, want %08x", i, p, off, v, err, want)
			}
		}
		c.Count("packets", 1)
		seePES(c, p)
		if p.hasHeader && p.hdl > 0 {
			nontriv = true
		}
	}
	c.Sig(stream, nontriv)
	c.Sample("%d packets, first %v", len(l), l[0])
}

// Corruptions with a documented error.
func runPESMalformed(c *Case) {
	r := c.R
	p := genPES(r, pesOpt{maxLoad: 50, ids: []uint32{0xe0, 0xc0, 0xbd, 0xe9, 0xfa}})
	raw := append([]byte{}, p.raw...)
	flip := func(bit int) { raw[bit/8] ^= 0x80 >> uint(bit%8) }
	var want error
	what := ""
	ptsAt := 9 * 8
	switch r.N(6) {
	case 4, 5:
		if raw, what = shortPES(r, p); raw == nil {
			return
		}
	case 0:
		b := r.N(24)
		flip(b)
		want, what = pes.ErrStartCodePrefixNotFound, fmt.Sprintf("start code prefix bit %d flipped", b)
	case 1:
		b := 48 + r.N(2)
		flip(b)
		want, what = pes.ErrMarkerNotFound, fmt.Sprintf("header marker bit %d flipped", b-48)
	case 2:
		if p.ptsdts == 0 {
			return
		}
		at := ptsAt
		if p.ptsdts == 3 && r.Bool() {
			at += 40
		}
		b := []int{0, 1, 2, 3, 7, 23, 39}[r.N(7)]
		flip(at + b)
		want, what = pes.ErrMarkerNotFound, fmt.Sprintf("time stamp marker bit %d flipped", b)
	case 3:
		if p.stuffing == 0 {
			return
		}
		k := r.N(p.stuffing)
		at := p.hdrEnd - p.stuffing + k
		raw[at] = byte(r.N(255))
		want, what = pes.ErrInvalidStuffingByte, fmt.Sprintf("stuffing byte %d of %d is %02x", k, p.stuffing, raw[at])
	}
	c.Input = raw
	src := newSource(append(raw, 0, 0, 0, 0), r.N(chunkStyles), r)
	if want == nil {
		tail := bytes.Repeat([]byte{0xff}, 3000)
		if r.Bool() {
			tail = r.Bytes(3000)
		}
		src.data = append(raw, tail...)
	}
	br := bitreader.NewReader(src)
	_, err := pes.NewPacket(br)
	if want == nil {
		if err == nil || err == io.EOF || err == io.ErrUnexpectedEOF {
			c.Fail("%v with %s: error %v, want one that tells that the lengths do not fit", p, what, err)
		}
		if src.pos > len(raw)+8 {
			c.Fail("%v with %s: %d bytes read of a packet of %d", p, what, src.pos, len(raw))
		}
		c.Count("lengths_that_do_not_fit", 1)
	} else if err != want {
		c.Fail("%v with %s: error %v, want %v", p, what, err, want)
	}
	if want == pes.ErrStartCodePrefixNotFound {
		if v, err := br.Peek32(24); err != nil || v != uint32(raw[0])<<16|uint32(raw[1])<<8|uint32(raw[2]) {
			c.Fail("%v with %s: input was consumed", p, what)
		}
	}
	c.Count("malformed", 1)
	c.Sig(raw, true)
	c.Sample("%v with %s -> %v", p, what, err)
}

func probePTS33(c *Case) {
	p := &pesPkt{id: 0xe0, hasHeader: true, ptsdts: 3, pts: 1<<32 | 5, dts: 1<<32 | 7}
	p.setPayload([]byte("x"))
	c.Input = p.raw
	g, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(p.raw)))
	if err != nil {
		c.Fail("error %v", err)
	}
	if s := p.match(g); s != "" {
		c.Fail("%s", s)
	}
}

// shortPES makes a packet, or its header, shorter than what it contains.
func shortPES(r *R, p *pesPkt) ([]byte, string) {
	raw := append([]byte{}, p.raw...)
	if r.Bool() && p.hasHeader && !p.unbounded && p.hdrEnd > 7 {
		n := r.In(1, p.hdrEnd-7)
		raw[4], raw[5] = byte(n>>8), byte(n)
		return raw, fmt.Sprintf("packet length %d, the header takes %d", n, p.hdrEnd-6)
	}
	if p.hasHeader && p.hdl > p.stuffing {
		n := r.N(p.hdl - p.stuffing)
		raw[8] = byte(n)
		return raw, fmt.Sprintf("header data length %d, its fields take %d", n, p.hdl-p.stuffing)
	}
	return nil, ""
}

// corruptAt damages a PES packet so that it cannot be parsed.
func corruptPES(r *R, p *pesPkt) ([]byte, string) {
	raw := append([]byte{}, p.raw...)
	switch k := r.N(4); {
	case k == 3:
		if b, what := shortPES(r, p); b != nil {
			return b, what
		}
	case k == 0 && p.hasHeader:
		raw[6] ^= 0x40
		return raw, "header marker"
	case k == 1 && p.hasHeader && p.stuffing > 0:
		raw[p.hdrEnd-1-r.N(p.stuffing)] = byte(r.N(255))
		return raw, "stuffing"
	}
	raw[2] = 0x02 | byte(r.N(254))
	return raw, "start code prefix"
}

func runPESReader(c *Case) {
	r := c.R
	n := c.Length(r.N(10))
	load := []int{30, 300, 3000}[r.N(3)]
	if n > 1500 {
		load = 30
	}
	l := genPESSeq(c, n, pesOpt{maxLoad: load})
	if r.P(1, 6) {
		p := &pesPkt{id: uint32(0xe0 + r.N(16)), unbounded: true}
		p.fill(r, pesOpt{})
		if r.P(1, 50) {
			p.setPayload(r.Bytes(r.In(60000, 200000)))
		} else {
			p.setPayload(r.Bytes(r.N(4000)))
		}
		l = append(l, p)
	}
	stream, want := joinPES(l)
	loads := 0
	for _, p := range l {
		if len(p.payload) > 0 {
			loads++
		}
		if p.id == 0xbe {
			c.Count("padding", 1)
		}
	}
	mode := "complete"
	eofOK, errOK := true, false
	src := newSource(stream, r.N(chunkStyles), r).ends(r)
	if len(l) > 0 && r.P(1, 2) && !l[len(l)-1].unbounded {
		switch r.N(3) {
		case 0: // cut
			k := r.N(len(stream) + 1)
			src.data = stream[:k]
			want = nil
			off := 0
			for _, p := range l {
				if off+len(p.raw) > k {
					break
				}
				off += len(p.raw)
				want = append(want, p.payload...)
			}
			left := k - off
			// within the first two bytes of a packet both ends are accepted
			eofOK, errOK = left < 3, left > 0
			mode = fmt.Sprintf("cut at %d, %d bytes into a packet", k, left)
		case 1: // corrupt
			i := r.N(len(l))
			var what string
			raw, what := corruptPES(r, l[i])
			var b []byte
			want = nil
			for j, p := range l {
				if j == i {
					b = append(b, raw...)
				} else {
					b = append(b, p.raw...)
				}
				if j < i {
					want = append(want, p.payload...)
				}
			}
			src.data = b
			eofOK, errOK = false, true
			mode = fmt.Sprintf("packet %d corrupted (%s)", i, what)
		case 2: // failing source
			k := r.N(len(stream) + 1)
			src.errAt, src.err = k, errSource
			want = nil
			off := 0
			for _, p := range l {
				if off+len(p.raw) > k {
					break
				}
				off += len(p.raw)
				want = append(want, p.payload...)
			}
			eofOK, errOK = false, true
			mode = fmt.Sprintf("source fails at %d", k)
		}
		c.Count("broken", 1)
	}
	c.Input = src.data
	d := drain(c, "pes payload reader, "+mode, pes.NewPayloadReader(src), nil, len(stream))
	desc := fmt.Sprintf("%d packets, %s", len(l), mode)
	if !bytes.Equal(d.data, want) {
		c.Fail("elementary stream: %s; %s", firstDiff(d.data, want), desc)
	}
	if d.err == io.EOF && !eofOK {
		c.Fail("ended with end-of-file, want another error; %s", desc)
	}
	if d.err != io.EOF && !errOK {
		c.Fail("ended with %v, want end-of-file; %s", d.err, desc)
	}
	c.Count("bytes", len(want))
	c.Count("reads", d.reads)
	c.Sig(append([]byte(mode), src.data...), loads >= 2)
	c.Sample("%s: %d bytes, %v", desc, len(want), d.err)
}

func (p *psPack) matchHeader(g *ps.PackHeader) string {
	if g == nil {
		return "neither a header nor an error"
	}
	a := fmt.Sprint(g.SystemClockReferenceBase, g.SystemClockReferenceExtension, g.ProgramMuxRate)
	b := fmt.Sprint(p.scrB, p.scrE, p.mux)
	if a != b {
		return fmt.Sprintf("clock reference and mux rate %s, coded %s", a, b)
	}
	if (g.SystemHeader != nil) != (p.sys != nil) {
		return fmt.Sprintf("system header reported %v, coded %v", g.SystemHeader != nil, p.sys != nil)
	}
	if s, w := g.SystemHeader, p.sys; s != nil {
		a := fmt.Sprint(s.HeaderLength, s.RateBound, s.AudioBound, s.Fixed, s.CSPS, s.SystemAudioLock, s.SystemVideoLock, s.VideoBound, s.PacketRateRestriction, len(s.Streams))
		b := fmt.Sprint(6+3*len(w.streams), w.rate, w.audio, w.fixed, w.csps, w.al, w.vl, w.video, w.prr, len(w.streams))
		if a != b {
			return fmt.Sprintf("system header (length, rate, audio, fixed, csps, audio lock, video lock, video, restriction, streams) %s, coded %s", a, b)
		}
		for i, st := range s.Streams {
			a := fmt.Sprint(st.StreamID, st.P_STD_BufferBoundScale, st.P_STD_BufferSizeBound)
			b := fmt.Sprint(w.streams[i].id, w.streams[i].scale, w.streams[i].size)
			if a != b {
				return fmt.Sprintf("stream entry %d %s, coded %s", i, a, b)
			}
		}
	}
	return ""
}

func runPackHeader(c *Case) {
	r := c.R
	p := genPack(r, 0, pesOpt{})
	// what may follow a pack header
	next := [][]byte{psEnd, {0, 0, 1, 0xba}, {0, 0, 1, 0xe0}, {0, 0, 1, 0xbe}}[r.N(4)]
	raw := append(append([]byte{}, p.hdr...), next...)
	raw = append(raw, r.Bytes(4)...)
	mode := r.N(3)
	var want error
	what := ""
	switch mode {
	case 1:
		m := p.markers[r.N(len(p.markers))]
		raw[m/8] ^= 0x80 >> uint(m%8)
		want, what = ps.ErrMarkerNotFound, fmt.Sprintf("marker at bit %d flipped", m)
		c.See("marker_positions", uint64(m))
	case 2:
		b := r.N(32)
		raw[b/8] ^= 0x80 >> uint(b%8)
		want, what = ps.ErrUnexpectedStartCode, fmt.Sprintf("start code bit %d flipped", b)
	}
	c.Input = raw
	br := bitreader.NewReader(newSource(raw, r.N(chunkStyles), r))
	g, err := ps.NewPackHeader(br)
	if err != want {
		c.Fail("%v %s: error %v, want %v", p, what, err, want)
	}
	switch mode {
	case 0:
		if s := p.matchHeader(g); s != "" {
			c.Fail("%v: %s", p, s)
		}
		v, err := br.Peek32(32)
		w := uint32(next[0])<<24 | uint32(next[1])<<16 | uint32(next[2])<<8 | uint32(next[3])
		if err != nil || v != w {
			c.Fail("%v: after the header the next bits are %08x (err %v), want %08x", p, v, err, w)
		}
		if p.sys != nil {
			c.Count("system_headers", 1)
			c.Count("stream_entries", len(p.sys.streams))
		}
		c.Count("headers", 1)
	case 1:
		c.Count("markers_cleared", 1)
	}
	c.Sig(raw, p.sys != nil || p.stuffing > 0 || mode > 0)
	c.Sample("%v %s", p, what)
	// a second start code family: the package's own check and assert
	code := []ps.StartCode{ps.PackStartCode, ps.ProgramEndCode, ps.SystemHeaderStartCode}[r.N(3)]
	val := []uint32{0x1ba, 0x1b9, 0x1bb, 0x1e0, 0x1bc, uint32(r.U64())}[r.N(6)]
	b := []byte{byte(val >> 24), byte(val >> 16), byte(val >> 8), byte(val), 1, 2, 3, 4}
	br = bitreader.NewReader(newSource(b, r.N(chunkStyles), r))
	wantCode := map[ps.StartCode]uint32{ps.PackStartCode: 0x1ba, ps.ProgramEndCode: 0x1b9, ps.SystemHeaderStartCode: 0x1bb}[code]
	ok, err := code.Check(br)
	if err != nil || ok != (val == wantCode) {
		c.Fail("Check for %08x on %08x: %v, %v", wantCode, val, ok, err)
	}
	err = code.Assert(br)
	pos := uint32(val)
	if val == wantCode {
		pos = 0x01020304
		if err != nil {
			c.Fail("Assert of %08x on %08x: %v", wantCode, val, err)
		}
	} else if err != ps.ErrUnexpectedStartCode {
		c.Fail("Assert of %08x on %08x: %v", wantCode, val, err)
	}
	if v, err := br.Peek32(32); err != nil || v != pos {
		c.Fail("Assert of %08x on %08x: next bits %08x, want %08x (%v)", wantCode, val, v, pos, err)
	}
}

func probeSCR33(c *Case) {
	p := &psPack{scrB: 1<<32 | 9}
	p.encode(c.R)
	raw := append(append([]byte{}, p.hdr...), psEnd...)
	c.Input = raw
	g, err := ps.NewPackHeader(bitreader.NewReader(bytes.NewReader(raw)))
	if err != nil {
		c.Fail("error %v", err)
	}
	if s := p.matchHeader(g); s != "" {
		c.Fail("%s", s)
	}
}

type psCase struct {
	packs  []*psPack
	src    *Source
	mode   string
	want   []byte // payload of the complete packets
	nPacks int    // packs whose header is complete and well-formed
	nPkts  []int  // complete packets of each
	clean  bool   // well-formed up to the end code
	stream []byte
	mid    bool // the last counted pack may or may not be delivered
}

// genPS makes a program stream, perhaps cut, corrupted or on a failing source.
func genPS(c *Case) *psCase {
	r := c.R
	x := &psCase{mode: "complete", clean: true}
	n := c.Length(r.In(1, 6))
	for i := 0; i < n; i++ {
		np := r.N(4)
		if n <= 6 && i == 0 {
			np = c.Length(np)
		}
		load := []int{20, 300, 2000}[r.N(3)]
		if n > 1500 || np > 1500 {
			load = 20
		}
		x.packs = append(x.packs, genPack(r, np, pesOpt{maxLoad: load}))
	}
	stream, want := joinPS(x.packs, true)
	x.stream, x.want = stream, want
	x.nPacks = n
	for _, p := range x.packs {
		x.nPkts = append(x.nPkts, len(p.packets))
	}
	x.src = newSource(stream, r.N(chunkStyles), &R{r.U64()})
	upTo := func(k int) {
		// what is complete in the first k bytes; a pack header is followed by
		// a look at the next start code
		x.want, x.nPacks, x.nPkts = nil, 0, nil
		off := 0
		for _, p := range x.packs {
			if off+len(p.hdr) > k {
				return
			}
			off += len(p.hdr)
			x.nPacks++
			x.nPkts = append(x.nPkts, 0)
			x.mid = off+4 > k
			for _, q := range p.packets {
				if off+len(q.raw) > k {
					return
				}
				off += len(q.raw)
				x.nPkts[len(x.nPkts)-1]++
				x.want = append(x.want, q.payload...)
			}
		}
	}
	switch r.N(6) {
	case 0:
		k := r.N(len(stream))
		x.src.data = stream[:k]
		upTo(k)
		x.clean = false
		x.mode = fmt.Sprintf("cut at %d of %d", k, len(stream))
	case 1:
		k := r.N(len(stream))
		x.src.errAt, x.src.err, x.src.once = k, errSource, r.Bool()
		upTo(k)
		x.clean = false
		x.mode = fmt.Sprintf("source fails at %d of %d (once %v)", k, len(stream), x.src.once)
	case 2:
		// corrupt one packet
		i := r.N(n)
		if len(x.packs[i].packets) == 0 {
			break
		}
		j := r.N(len(x.packs[i].packets))
		off := 0
		for a := 0; a <= i; a++ {
			off += len(x.packs[a].hdr)
			for b, q := range x.packs[a].packets {
				if a == i && b == j {
					break
				}
				off += len(q.raw)
			}
		}
		q := x.packs[i].packets[j]
		raw, what := corruptPES(r, q)
		if q.hasHeader && r.P(1, 3) {
			// a packet that breaks off just before an end code
			raw = []byte{0, 0, 1, byte(q.id), 0, 60, 0x81, 0, 20, 0}
			what = "bad stuffing in front of an end code"
			raw = append(raw, psEnd...)
		}
		upTo(off)
		x.mid = false
		s := append([]byte{}, stream[:off]...)
		s = append(s, raw...)
		if what != "bad stuffing in front of an end code" {
			s = append(s, stream[off+len(q.raw):]...)
		}
		x.src.data = s
		x.clean = false
		x.mode = fmt.Sprintf("packet %d of pack %d corrupted (%s)", j, i, what)
	case 3:
		// a pack header with a missing marker
		i := r.N(n)
		off := 0
		for a := 0; a < i; a++ {
			off += len(x.packs[a].raw())
		}
		s := append([]byte{}, stream...)
		m := x.packs[i].markers[r.N(len(x.packs[i].markers))]
		s[off+m/8] ^= 0x80 >> uint(m%8)
		upTo(off)
		x.mid = false
		x.src.data = s
		x.clean = false
		x.mode = fmt.Sprintf("pack header %d lacks the marker at bit %d", i, m)
	case 4:
		if r.P(1, 2) {
			// no end code, something else instead
			s := append([]byte{}, stream[:len(stream)-4]...)
			if r.P(1, 2) {
				// almost the end code
				miss := []byte{0, 0, 1, 0xb9}
				switch r.N(4) {
				case 0:
					miss[r.N(3)] ^= 1 << uint(r.N(8))
				case 1:
					copy(miss, r.Bytes(3))
				case 2:
					miss = append([]byte{0}, miss...)
				default:
					miss = []byte{0, 1, 0xb9}
				}
				miss[0] &= 0x7f // not one more stream of a system header
				if miss[0] == 0 && miss[1] == 0 && miss[2] == 1 {
					miss[1] = 1
				}
				s = append(append(s, miss...), r.Bytes(r.In(1, 40))...)
				c.Count("almost_end_codes", 1)
			} else {
				s = append(s, byte(r.In(1, 127)), 0xff, 0, 1, 2, 3)
			}
			x.src.data = s
			x.clean = false
			x.mode = "no end code"
		}
	case 5:
		if r.P(1, 2) {
			// something behind the end code
			k := r.N(len(stream) + 1)
			x.src.data = append(append([]byte{}, stream...), stream[:k]...)
			x.mode = fmt.Sprintf("%d bytes behind the end code", k)
			c.Count("followed_by_more", 1)
		}
	}
	c.Input = x.src.data
	return x
}

func runPackReader(c *Case) {
	x := genPS(c)
	c.Count("packs", len(x.packs))
	loads := 0
	for _, p := range x.packs {
		if len(p.packets) == 0 {
			c.Count("empty_packs", 1)
		}
		for _, q := range p.packets {
			if len(q.payload) > 0 {
				loads++
			}
		}
	}
	desc := fmt.Sprintf("%v, %s", x.packs, x.mode)
	rd := ps.NewPackReader(x.src.ends(c.R))
	c.AfterEnd = func(n int, err error) {
		if x.clean && (n != 0 || err != io.EOF) {
			c.Fail("a read after the end returned %d, %v; %s", n, err, desc)
		}
	}
	d := drain(c, "pack reader, "+x.mode, rd, nil, len(x.stream)+64)
	if !bytes.Equal(d.data, x.want) {
		c.Fail("payload: %s; %s", firstDiff(d.data, x.want), desc)
	}
	if x.clean {
		if d.err != io.EOF {
			c.Fail("ended with %v, want end-of-file; %s", d.err, desc)
		}
		if n, err := rd.Read(make([]byte, 8)); n != 0 || err == nil {
			c.Fail("a read after the end returned %d, %v; %s", n, err, desc)
		}
	} else {
		c.Count("broken", 1)
	}
	c.Count("bytes", len(x.want))
	c.Sig(append([]byte(x.mode), x.src.data...), loads >= 2)
	c.Sample("%s: %d bytes, %v", x.mode, len(x.want), d.err)
}

func runPSDecoder(c *Case) {
	x := genPS(c)
	r := c.R
	desc := fmt.Sprintf("%v, %s", x.packs, x.mode)
	dec := ps.NewDecoder(bitreader.NewReader(&slowSource{x.src, &R{r.U64()}}))
	packs := dec.Packs()
	done := dec.Go()
	if r.P(1, 2) {
		selectPSDecoder(c, x, desc, dec, packs, done)
		return
	}
	i := 0
	pkts := 0
	last := -1
	for pk := range packs {
		if i >= x.nPacks {
			c.Fail("pack %d delivered, only %d are there: %s", i, x.nPacks, desc)
		}
		if s := x.packs[i].matchHeader(pk.PackHeader); s != "" {
			c.Fail("pack %d: %s; %s", i, s, desc)
		}
		pause(r)
		j := 0
		for q := range pk.Packets() {
			if j >= x.nPkts[i] {
				c.Fail("pack %d delivers packet %d (stream %02x), only %d are complete: %s", i, j, q.StreamID, x.nPkts[i], desc)
			}
			if s := x.packs[i].packets[j].match(q); s != "" {
				c.Fail("pack %d packet %d %v: %s; %s", i, j, x.packs[i].packets[j], s, desc)
			}
			j++
			pause(r)
		}
		if j != x.nPkts[i] {
			c.Fail("pack %d delivered %d packets, %d are there: %s", i, j, x.nPkts[i], desc)
		}
		pkts += j
		last = i
		i++
	}
	if i != x.nPacks && !(x.mid && i == x.nPacks-1) {
		c.Fail("%d packs delivered, %d are there: %s", i, x.nPacks, desc)
	}
	v, ok := <-done
	err := dec.Err()
	if !ok {
		c.Fail("done was not signalled: %s", desc)
	}
	if v != x.clean || (err == nil) != x.clean {
		c.Fail("done %v, Err %v, want done %v: %s", v, err, x.clean, desc)
	}
	for k := 0; k < 3; k++ {
		runtime.Gosched()
		select {
		case _, ok := <-done:
			if ok {
				c.Fail("done was signalled twice: %s", desc)
			}
		default:
		}
	}
	c.Count("packs", i)
	c.Count("packets", pkts)
	if v {
		c.Count("done_true", 1)
	} else {
		c.Count("done_false", 1)
	}
	c.Sig(append([]byte(x.mode), x.src.data...), last >= 1)
	c.Sample("%s: %d packs, %d packets, Err %v", x.mode, i, pkts, err)
}

// selectPSDecoder is a consumer that takes whatever comes first of the packs,
// the packets of the latest pack, and the done signal, and so observes the
// order in which the channels are closed.
func selectPSDecoder(c *Case, x *psCase, desc string, dec ps.Decoder, packs <-chan *ps.Pack, done <-chan bool) {
	r := c.R
	i, j, pkts := -1, 0, 0
	var cur <-chan *pes.Packet
	packet := func(q *pes.Packet) {
		if j >= x.nPkts[i] {
			c.Fail("pack %d delivers packet %d (stream %02x), only %d are complete: %s", i, j, q.StreamID, x.nPkts[i], desc)
		}
		if s := x.packs[i].packets[j].match(q); s != "" {
			c.Fail("pack %d packet %d %v: %s; %s", i, j, x.packs[i].packets[j], s, desc)
		}
		j++
		pkts++
	}
	over := func() {
		if j != x.nPkts[i] {
			c.Fail("pack %d delivered %d packets, %d are there: %s", i, j, x.nPkts[i], desc)
		}
		cur = nil
	}
	// finish is called when the latest pack must be complete.
	finish := func(when string) {
		for cur != nil {
			select {
			case q, ok := <-cur:
				if !ok {
					over()
					break
				}
				packet(q)
			default:
				c.Fail("the packet channel of pack %d was still open when %s: %s", i, when, desc)
			}
		}
	}
	pack := func(pk *ps.Pack) {
		finish("the next pack was delivered")
		i++
		if i >= x.nPacks {
			c.Fail("pack %d delivered, only %d are there: %s", i, x.nPacks, desc)
		}
		if s := x.packs[i].matchHeader(pk.PackHeader); s != "" {
			c.Fail("pack %d: %s; %s", i, s, desc)
		}
		cur, j = pk.Packets(), 0
	}
	open := true
	ended := func() {
		finish("the pack channel was closed")
		open = false
		if i+1 != x.nPacks && !(x.mid && i+1 == x.nPacks-1) {
			c.Fail("%d packs delivered, %d are there: %s", i+1, x.nPacks, desc)
		}
	}
	var v, ok bool
	for more := true; more; {
		ch := packs
		if !open {
			ch = nil
		}
		select {
		case pk, ok := <-ch:
			if ok {
				pack(pk)
			} else {
				ended()
			}
		case q, ok := <-cur:
			if ok {
				packet(q)
			} else {
				over()
			}
		case v, ok = <-done:
			more = false
		}
		pause(r)
	}
	for open {
		select {
		case pk, ok := <-packs:
			if ok {
				pack(pk)
			} else {
				ended()
			}
		default:
			c.Fail("done was signalled while the pack channel was still open: %s", desc)
		}
	}
	err := dec.Err()
	if !ok {
		c.Fail("done was not signalled: %s", desc)
	}
	if v != x.clean || (err == nil) != x.clean {
		c.Fail("done %v, Err %v, want done %v: %s", v, err, x.clean, desc)
	}
	for k := 0; k < 3; k++ {
		runtime.Gosched()
		select {
		case _, ok := <-done:
			if ok {
				c.Fail("done was signalled twice: %s", desc)
			}
		default:
		}
	}
	c.Count("select_consumers", 1)
	c.Count("packs", i+1)
	c.Count("packets", pkts)
	if v {
		c.Count("done_true", 1)
	} else {
		c.Count("done_false", 1)
	}
	c.Sig(append([]byte(x.mode), x.src.data...), i >= 1)
}
