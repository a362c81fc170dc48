package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

func init() {
	min12 := map[string]int64{"deliveries_compared": 10000, "cut_streams": 500, "ended_with_the_last_bytes": 10000}
	min02 := map[string]int64{"cuts": 10000, "cuts_with_results": 2000, "required_results": 50000}
	min03 := map[string]int64{"inputs": 10000, "bytes": 1000000, "results": 10000, "retries_after_error": 1000, "failing_sources": 500, "random_inputs": 500, "frames": 500, "field_damage_inputs": 50000, "fields_damaged": 100000, "model_damage": 10000}
	min04 := map[string]int64{"failures_reported": 10000, "required_results": 50000}
	for _, l := range layers {
		min12["layer: "+l.name] = 50
		min02["layer: "+l.name] = 50
		min03["layer: "+l.name] = 100
		min04["reported: "+l.name] = 100
	}
	register(&Prop{
		ID: "V12", Rule: "an input with at least one result, delivered in every chunking style",
		Quick: 84000, Thorough: 1600000, Run: runV12, Min: min12,
	})
	register(&Prop{
		ID: "X02", Rule: "a stream with at least one result, cut at many places",
		Quick: 84000, Thorough: 1600000, Run: runX02, Min: min02,
	})
	register(&Prop{
		ID: "X03", Rule: "an input that is not a legal stream",
		Quick: 600000, Thorough: 20000000, Run: runX03, Min: min03,
		Assume: []string{"pictures declared larger than 256x256 are made smaller most of the time, so that runs stay cheap"},
	})
	register(&Prop{
		ID: "X04", Rule: "a stream with at least one result, whose source fails at many places",
		Quick: 84000, Thorough: 1600000, Run: runX04, Min: min04,
	})
	min06 := map[string]int64{"further_calls": 100000, "ends": 10000, "lasting_failures": 10000}
	for _, l := range layers {
		if l.name != "ts demultiplexer" && l.name != "ps decoder" {
			min06["asked again: "+l.name] = 500
		}
	}
	for _, l := range layersThatEnd {
		min06["asked again: "+l.name] = 500
	}
	register(&Prop{
		ID: "X06", Rule: "a stream with at least one result, that ends or fails at many places",
		Quick: 84000, Thorough: 1600000, Run: runX06, Min: min06,
	})
	register(&Prop{
		ID: "X01", Rule: "video in at least two container packets",
		Quick: 21000, Thorough: 600000, RaceQuick: 500, RaceThor: 12000, DelayQuick: 3000, DelayThor: 60000, Run: runX01,
		Min: map[string]int64{"ts_chains": 500, "ps_chains": 500, "demux_chains": 200, "ts_payload_chains": 500, "pes_chains": 200, "decoder_chains": 200, "frames_compared": 5000, "es_bytes_compared": 500000,
			"unbounded_packets": 1000, "foreign_packets": 1000, "aligned_after_junk": 100, "cut_streams": 100, "large_units": 100},
	})
}

func pickLayer(c *Case) *layerIn {
	k := c.Idx % len(layers)
	in := layers[k].gen(c)
	in.name = layers[k].name
	c.Count("layer: "+in.name, 1)
	return in
}

func diffObs(a, b *obs) string {
	for i := range a.seqs {
		x, y := a.seqs[i], b.seqs[i]
		for j := 0; j < len(x) && j < len(y); j++ {
			if x[j] != y[j] {
				return fmt.Sprintf("result %d of sequence %d differs (%x against %x; %d and %d results)", j, i, x[j], y[j], len(x), len(y))
			}
		}
		if len(x) != len(y) {
			return fmt.Sprintf("sequence %d has %d against %d results", i, len(x), len(y))
		}
	}
	if a.end != b.end {
		return fmt.Sprintf("ended with %q against %q", a.end, b.end)
	}
	return ""
}

func runV12(c *Case) {
	in := pickLayer(c)
	r := c.R
	data := in.data
	if r.P(1, 3) {
		data = data[:r.N(len(data)+1)]
		c.Count("cut_streams", 1)
	}
	if r.P(1, 6) {
		data = mutate(r, data)
	}
	limit := len(data)
	base := in.run(c, newSource(data, chunkAll, r), limit)
	c.Sig(append([]byte(in.name), data...), base.count() > 0)
	for _, st := range []int{chunkOne, chunkSmall, chunkRandom, chunkEmpty} {
		o := in.run(c, newSource(data, st, r), limit)
		if d := diffObs(o, base); d != "" {
			c.Fail("%s: bytes delivered %q against all at once: %s", in.name, chunkName(st), d)
		}
		c.Count("deliveries_compared", 1)
	}
	if in.takesSource() {
		src := newSource(data, r.N(chunkStyles), r)
		src.with = true
		if d := diffObs(in.run(c, src, limit), base); d != "" {
			c.Fail("%s: the end together with the last bytes, against on its own: %s", in.name, d)
		}
		c.Count("ended_with_the_last_bytes", src.withs)
	}
	// and again the same
	if d := diffObs(in.run(c, newSource(data, chunkAll, r), limit), base); d != "" {
		c.Fail("%s: a second run over the same bytes: %s", in.name, d)
	}
	c.Count("results", base.count())
	c.Sample("%s: %d bytes, %d results, then %q", in.name, len(data), base.count(), base.end)
}

func runX02(c *Case) {
	in := pickLayer(c)
	r := c.R
	data := in.data
	limit := len(data)
	full := in.run(c, newSource(data, chunkAll, r), limit)
	c.Sig(append([]byte(in.name), data...), full.count() > 0)
	for t := 0; t < 12; t++ {
		k := r.N(len(data) + 1)
		switch {
		case t == 0:
			k = len(data) - 1
		case t == 1:
			k = len(data) - r.In(1, 5)
			if k < 0 {
				k = 0
			}
		}
		if k == len(data) {
			continue
		}
		src := newSource(data[:k], r.N(chunkStyles), r)
		src.with = in.takesSource() && r.P(1, 4)
		o := in.run(c, src, limit)
		need := in.need(k)
		for i, s := range o.seqs {
			f := full.seqs[i]
			if len(s) > len(f) {
				c.Fail("%s cut at %d of %d: sequence %d has %d results, the complete stream %d", in.name, k, len(data), i, len(s), len(f))
			}
			for j := range s {
				if s[j] != f[j] {
					c.Fail("%s cut at %d of %d: result %d of sequence %d is not that of the complete stream", in.name, k, len(data), j, i)
				}
			}
			if len(s) < need[i] {
				c.Fail("%s cut at %d of %d: sequence %d has %d results, %d are complete (ended with %q)", in.name, k, len(data), i, len(s), need[i], o.end)
			}
			c.Count("required_results", need[i])
			if need[i] > 0 {
				c.Count("cuts_with_results", 1)
			}
		}
		if o.end == "<nil>" || o.end == "" {
			c.Fail("%s cut at %d of %d: success was reported", in.name, k, len(data))
		}
		c.Count("cuts", 1)
	}
	c.Sample("%s: %d bytes, %d results, then %q", in.name, len(data), full.count(), full.end)
}

// mutate damages a stream.
func mutate(r *R, data []byte) []byte {
	b := append([]byte{}, data...)
	at := func() int { return r.N(len(b) + 1) }
	for n := r.In(1, 6); n > 0; n-- {
		if len(b) == 0 {
			b = r.Bytes(r.In(1, 50))
		}
		switch r.N(12) {
		case 0, 1, 2: // flip bits
			for i := r.In(1, 4); i > 0; i-- {
				b[r.N(len(b))] ^= 1 << uint(r.N(8))
			}
		case 3: // overwrite a byte
			b[r.N(len(b))] = []byte{0, 0xff, 0x47, 1, 0x80, byte(r.N(256))}[r.N(6)]
		case 4: // insert bytes
			i := at()
			b = append(b[:i:i], append(r.Bytes(r.In(1, 30)), b[i:]...)...)
		case 5: // delete a range
			i := at()
			j := i + r.N(60)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 6: // repeat a range
			i := at()
			j := i + r.N(400)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], b[i:]...)
		case 7: // a run of one value
			i := at()
			b = append(b[:i:i], append(bytes.Repeat([]byte{[]byte{0, 0xff, 1, 0x47}[r.N(4)]}, r.In(1, 300)), b[i:]...)...)
		case 8: // a start code
			i := at()
			b = append(b[:i:i], append([]byte{0, 0, 1, []byte{0, 1, 2, 0xaf, 0xb2, 0xb3, 0xb5, 0xb7, 0xb8, 0xb9, 0xba, 0xbb, 0xbe, 0xe0, 0xbd, byte(r.N(256))}[r.N(16)]}, b[i:]...)...)
		case 9: // cut
			b = b[:at()]
		case 10: // random bytes over a range
			i := r.N(len(b))
			for j := r.In(1, 40); j > 0 && i < len(b); j-- {
				b[i] = byte(r.N(256))
				i++
			}
		case 11: // swap two ranges
			i, j := r.N(len(b)), r.N(len(b))
			for k := 0; k < 20 && i+k < len(b) && j+k < len(b); k++ {
				b[i+k], b[j+k] = b[j+k], b[i+k]
			}
		}
	}
	if len(b) > 200000 {
		b = b[:200000]
	}
	return b
}

// capSizes makes the pictures a stream declares small. It returns the largest
// picture (in bytes) and the number of pictures that may be declared.
func capSizes(r *R, b []byte, most int) (size, pics int) {
	ext := 0
	for i := 0; i+7 < len(b); i++ {
		if b[i] != 0 || b[i+1] != 0 || b[i+2] != 1 {
			continue
		}
		switch b[i+3] {
		case 0xb3:
			w := int(b[i+4])<<4 | int(b[i+5])>>4
			h := int(b[i+5]&15)<<8 | int(b[i+6])
			if w > most {
				w = w%most + 1
			}
			if h > most {
				h = h%most + 1
			}
			b[i+4], b[i+5], b[i+6] = byte(w>>4), byte(w<<4)|byte(h>>8), byte(h)
			if s := (w + 15) / 16 * 16 * (((h + 31) / 32) * 32) * 3; s > size {
				size = s
			}
		case 0xb5:
			if b[i+4]>>4 == 1 && i+6 < len(b) {
				b[i+5] &^= 1
				b[i+6] &^= 0xe0
				ext++
			}
		case 0:
			pics++
		}
	}
	return
}

// capped keeps changing until nothing is left to change: sizes can overlap.
func capped(r *R, b []byte) (size, pics int) {
	most := 256
	if r.P(1, 200) {
		most = 2000
	}
	for {
		before := string(b)
		size, pics = capSizes(r, b, most)
		if string(b) == before {
			return
		}
	}
}

func runX03(c *Case) {
	r := c.R
	k := c.Idx % len(layers)
	if c.Idx%5 == 2 {
		k = 9 // the decoder has most to go wrong
	}
	in := layers[k].gen(c)
	in.name = layers[k].name
	c.Count("layer: "+in.name, 1)
	var data []byte
	container := k < 9 || k >= 12
	switch r.N(14) {
	case 0: // anything
		data = r.Bytes(r.N(3000))
		if r.P(1, 2) {
			data = codeSoup(r, r.N(3000), byte(r.N(256)))
		}
		c.Count("random_inputs", 1)
	case 1: // the right beginning and then anything
		data = append(append([]byte{}, in.data[:r.N(min(len(in.data), 200)+1)]...), r.Bytes(r.N(3000))...)
		c.Count("random_inputs", 1)
	case 2: // another layer's stream
		o := layers[r.N(len(layers))].gen(c)
		data = o.data
		if r.Bool() {
			data = mutate(r, data)
		}
		c.Count("foreign_inputs", 1)
	case 3: // one long run
		data = append(append([]byte{}, in.data[:r.N(len(in.data)+1)]...), bytes.Repeat([]byte{[]byte{0, 0xff, 1, 0x47, 0x80}[r.N(5)]}, r.In(1, 20000))...)
	case 4, 5, 6, 7: // single fields, or the model, damaged
		var es []byte
		switch {
		case k == 9:
			data = hostileVideo(c)
		case k == 12:
			es = hostileVideo(c)
			gen := func() {
				in.pid = uint32(r.Bits(13))
				data = joinTS(muxTS(r, splitES(r, es, 0xe0, true), in.pid))
			}
			if r.P(1, 3) {
				withNoise(r, gen)
			} else {
				gen()
			}
			in.run = func(c *Case, rd io.Reader, limit int) *obs {
				return runVideo(c, tsVideoChain(rd, in.pid), limit)
			}
		case k == 13:
			es = hostileVideo(c)
			gen := func() { data = muxPS(r, splitES(r, es, 0xe0, false)) }
			if r.P(1, 3) {
				withNoise(r, gen)
			} else {
				gen()
			}
		default:
			c.Count("fields_damaged", withNoise(r, func() {
				in = layers[k].gen(c)
				in.name = layers[k].name
			}))
			data = in.data
		}
		if r.P(1, 6) {
			data = mutate(r, data)
		}
		c.Count("field_damage_inputs", 1)
	default:
		data = mutate(r, in.data)
	}
	inner := 0
	var size, pics int
	if !container {
		size, pics = capped(r, data)
	} else if k >= 12 {
		// sizes hidden in container packets may be split; keep those whose
		// elementary stream is harmless
		size, pics, inner = 0, 0, 0
		es := extractES(c, k, in, data)
		esc := append([]byte{}, es...)
		s, p := capped(r, esc)
		if string(esc) != string(es) {
			data = in.data
			es = extractES(c, k, in, data)
			s, p = capped(r, append([]byte{}, es...))
		}
		size, pics, inner = s, p, len(es)
	}
	src := newSource(data, r.N(chunkStyles), r)
	if len(data) > 2000 && src.style == chunkOne {
		src.style = chunkSmall
	}
	if r.P(1, 8) {
		src.errAt, src.err, src.once = r.N(len(data)+1), errSource, r.Bool()
		c.Count("failing_sources", 1)
	}
	c.Sig(append([]byte(in.name), data...), true)
	limit := len(data)
	if inner > limit {
		limit = inner
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	o := in.run(c, src, limit)
	runtime.ReadMemStats(&m1)
	alloc := int64(m1.TotalAlloc - m0.TotalAlloc)
	// generous: what the monitor itself keeps (results, hashes) is part of it
	bound := int64(1<<20) + 400*int64(len(data)+inner+64) + int64(pics+1)*int64(size+4096)*2
	if alloc > bound {
		c.Fail("%s: %d bytes allocated for %d bytes of input and %d possible pictures of %d bytes (bound %d)", in.name, alloc, len(data), pics, size, bound)
	}
	if c.Watch != nil {
		c.Watch(o, data)
	}
	c.See("endings", hashStr(in.name+o.end))
	c.Count("inputs", 1)
	c.Count("bytes", len(data))
	c.Count("results", o.count())
	c.Count("retries_after_error", 1)
	if k == 9 || k >= 12 {
		c.Count("frames", o.count())
	}
	c.Sample("%s: %d bytes, %d results, then %q; %d bytes allocated (bound %d)", in.name, len(data), o.count(), o.end, alloc, bound)
}

// extractES is what a container chain hands to the video decoder.
func extractES(c *Case, k int, in *layerIn, data []byte) []byte {
	rd := io.Reader(newSource(data, chunkAll, c.R))
	if k == 12 {
		rd = tsVideoChain(rd, in.pid)
	} else {
		rd = ps.NewPackReader(rd)
	}
	return drain(c, "container", rd, nil, len(data)).data
}

// ---- X01 ----

func runX01(c *Case) {
	r := c.R
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.pics = 3, 3, 6
	o.density = r.N(3)
	o.qm = r.P(1, 3)
	s := genVideos(r, r.In(1, 2), o)
	big := r.P(1, 40)
	if big { // more than a 16-bit length can count, or many a buffer holds
		u := r.Bytes(r.In(60000, 300000))
		for i := range u {
			u[i] |= 4
		}
		s.elems[0].ruds = append(s.elems[0].ruds, u)
		c.Count("large_units", 1)
	}
	es := s.encode(nil)
	cut := r.P(1, 5)
	if cut {
		es = es[:r.N(len(es)+1)]
		c.Count("cut_streams", 1)
	}
	junk := r.P(1, 5)
	if junk {
		// what is left of an earlier picture, as when tuning in
		es = append(noSeqHeader(r, r.In(1, 400)), es...)
		c.Count("aligned_after_junk", 1)
	}
	decode := func(rd io.Reader) *obs {
		vs := video.NewVideoSequence(rd)
		if junk {
			if err := vs.AlignTo(video.SequenceHeaderStartCode); err != nil {
				return &obs{[][]uint64{nil}, err.Error()}
			}
		}
		return videoObs(c, vs, len(es)+100)
	}
	want := decode(newSource(es, chunkAll, r))
	pid := uint32(r.Bits(13))
	kind := c.Idx % 7
	id := uint32(0xe0 + r.N(16))
	src := func(b []byte) io.Reader { return newSource(b, r.N(chunkStyles), &R{r.U64()}).ends(r) }
	var mk func() io.Reader
	name := ""
	npk := 0
	var l []*pesPkt
	switch kind {
	case 0, 2:
		l = splitES(r, es, id, true)
		pk := muxTS(r, l, pid)
		npk = len(pk)
		for _, p := range pk {
			if p.pid != pid {
				c.Count("foreign_packets", 1)
			}
		}
		data := joinTS(pk)
		c.Sig(data, npk > 1)
		if kind == 0 {
			name = "ts.NewPayloadUnitReader, pes.NewPayloadReader"
			mk = func() io.Reader { return tsVideoChain(src(data), pid) }
			c.Count("ts_chains", 1)
		} else {
			name = "ts.Demuxer, PayloadUnit, pes.NewPacket"
			mk = func() io.Reader {
				dm := ts.NewDemuxer(src(data))
				ch := dm.Where(ts.IsPID(pid)).PayloadUnit()
				done := dm.Go()
				pr, pw := io.Pipe()
				go func() {
					var err error
					for u := range ch {
						if err != nil {
							continue
						}
						var p *pes.Packet
						// a unit is one packet; an unbounded one ends with it
						p, err = pes.NewPacket(bitreader.NewReader(&unitReader{b: u}))
						if err == nil && len(p.Payload) > 0 {
							pw.Write(p.Payload)
						}
					}
					<-done
					if err == nil {
						err = io.EOF
					}
					pw.CloseWithError(err)
				}()
				return pr
			}
			c.Count("demux_chains", 1)
		}
	case 1, 3:
		l = splitES(r, es, id, false)
		data := muxPS(r, l)
		npk = len(l)
		c.Sig(data, npk > 1)
		if kind == 1 {
			name = "ps.NewPackReader"
			mk = func() io.Reader { return ps.NewPackReader(src(data)) }
			c.Count("ps_chains", 1)
		} else {
			name = "ps.Decoder, PayloadOnly"
			mk = func() io.Reader {
				d := ps.NewDecoder(bitreader.NewReader(newSource(data, r.N(chunkStyles), &R{r.U64()})))
				packs := d.Packs()
				done := d.Go()
				pr, pw := io.Pipe()
				go func() {
					for p := range packs {
						for b := range p.Packets().PayloadOnly() {
							if len(b) > 0 {
								pw.Write(b)
							}
						}
					}
					<-done
					err := d.Err()
					if err == nil {
						err = io.EOF
					}
					pw.CloseWithError(err)
				}()
				return pr
			}
			c.Count("decoder_chains", 1)
		}
	}
	switch kind {
	case 4, 5:
		// no packet may end with its transport packets: the boundaries are not known
		l = splitES(r, es, id, false)
		var pk []*tsPkt
		skip := false
		name = "ts.NewPayloadReader, pes.NewPayloadReader"
		if kind == 4 {
			pk = muxTS(r, l, pid)
			if skip = r.Bool(); !skip {
				for len(pk) > 0 && !(pk[0].pid == pid && pk[0].pusi) {
					pk = pk[1:] // what was left of an earlier unit
				}
			}
		} else {
			name = "ts.NewPayloadReader"
			pk = muxUnit(r, es, pid)
		}
		npk = len(pk)
		for _, p := range pk {
			if p.pid != pid {
				c.Count("foreign_packets", 1)
			}
		}
		data := joinTS(pk)
		c.Sig(data, npk > 1)
		mk = func() io.Reader {
			rd := ts.NewPayloadReader(src(data), ts.IsPID(pid))
			if skip {
				rd.SkipUntil(ts.IsPID(pid).And(ts.IsPayloadUnitStart))
				c.Count("skipped_to_unit_start", 1)
			}
			if kind == 4 {
				return pes.NewPayloadReader(rd)
			}
			return rd
		}
		c.Count("ts_payload_chains", 1)
	case 6:
		name = "pes.NewPayloadReader"
		l = splitES(r, es, id, false)
		var data []byte
		for _, p := range l {
			data = append(data, p.raw...)
		}
		npk = len(l)
		c.Sig(data, npk > 1)
		mk = func() io.Reader { return pes.NewPayloadReader(src(data)) }
		c.Count("pes_chains", 1)
	}
	for _, p := range l {
		if p.unbounded {
			c.Count("unbounded_packets", 1)
		}
	}
	desc := fmt.Sprintf("%s, %d PES packets, %d container packets", name, len(l), npk)
	d := drain(c, desc, mk(), nil, len(es))
	if !bytes.Equal(d.data, es) {
		c.Fail("%s: elementary stream: %s", desc, firstDiff(d.data, es))
	}
	if d.err != io.EOF {
		c.Fail("%s: ended with %v", desc, d.err)
	}
	c.Count("es_bytes_compared", len(es))
	rd := mk()
	got := decode(rd)
	if x := diffObs(got, want); x != "" {
		c.Fail("%s: decoding through the containers against the bare stream: %s", desc, x)
	}
	if p, ok := rd.(*io.PipeReader); ok {
		io.Copy(io.Discard, p)
	}
	c.Count("frames_compared", got.count())
	c.Sample("%s: %d bytes of video, %d results, then %q", desc, len(es), got.count(), got.end)
}

// unitReader is one payload unit; its end is the end of the packet.
type unitReader struct{ b []byte }

func (u *unitReader) Read(p []byte) (int, error) {
	if len(u.b) == 0 {
		return 0, ts.EOP
	}
	n := copy(p, u.b)
	u.b = u.b[n:]
	return n, nil
}

// noSeqHeader is junk without a sequence header start code.
func noSeqHeader(r *R, n int) []byte {
	b := codeSoup(r, n, 0x42)
	for i := 0; i+3 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 && b[i+3] == 0xb3 {
			b[i+3] = 0xb2
		}
	}
	for len(b) > 0 && b[len(b)-1] <= 1 {
		b = b[:len(b)-1]
	}
	return b
}

func runX04(c *Case) {
	in := pickLayer(c)
	r := c.R
	data := in.data
	limit := len(data)
	full := in.run(c, newSource(data, chunkAll, r), limit)
	c.Sig(append([]byte(in.name), data...), full.count() > 0)
	for t := 0; t < 12; t++ {
		k := r.N(len(data) + 1)
		if t < 2 && len(data) > 0 {
			k = r.N(min(len(data), 60))
		}
		// A failure nobody has to notice: the layer may be done before it.
		src := newSource(data, r.N(chunkStyles), r)
		src.errAt, src.err, src.once = k, errSource, r.Bool()
		src.with = in.takesSource() && r.P(1, 3)
		once := src.once
		o := in.run(c, src, limit)
		need := in.need(k)
		for i, s := range o.seqs {
			f := full.seqs[i]
			if len(s) > len(f) {
				c.Fail("%s, source fails at %d of %d: sequence %d has %d results, the complete stream %d", in.name, k, len(data), i, len(s), len(f))
			}
			for j := range s {
				if s[j] != f[j] {
					c.Fail("%s, source fails at %d of %d: result %d of sequence %d is not that of the complete stream", in.name, k, len(data), j, i)
				}
			}
			if len(s) < need[i] {
				c.Fail("%s, source fails at %d of %d: sequence %d has %d results, %d are complete (ended with %q)", in.name, k, len(data), i, len(s), need[i], o.end)
			}
			c.Count("required_results", need[i])
		}
		if o.end != errSource.Error() {
			if k < len(data) || o.end != full.end {
				c.Fail("%s, source fails at %d of %d (once=%v): ended with %q, want the source's error", in.name, k, len(data), once, o.end)
			}
			c.Count("done_before_failure", 1)
			continue
		}
		c.Count("failures_reported", 1)
		c.Count("reported: "+in.name, 1)
	}
	c.Sample("%s: %d bytes, %d results", in.name, len(data), full.count())
}

// runX06: once a stream has ended, or its source has failed for good, asking
// again gives no results, but an end of input or that failure again.
func runX06(c *Case) {
	in := pickLayer(c)
	if k := c.R.N(10); k < 2 {
		l := layersThatEnd[k]
		in = l.gen(c)
		in.name = l.name
		c.Count("layer: "+in.name, 1)
	}
	r := c.R
	data := in.data
	limit := len(data)
	full := in.run(c, newSource(data, chunkAll, r), limit)
	c.Sig(append([]byte(in.name), data...), full.count() > 0)
	for t := 0; t < 8; t++ {
		k := r.N(len(data) + 1)
		if t == 0 {
			k = len(data)
		}
		fails := r.Bool()
		src := newSource(data[:k], r.N(chunkStyles), r)
		if fails {
			src = newSource(data, r.N(chunkStyles), r)
			src.errAt, src.err = k, errSource
		}
		src.with = in.takesSource() && r.P(1, 4)
		type answer struct {
			n   int
			err error
		}
		var l []answer
		c.AfterEnd = func(n int, err error) { l = append(l, answer{n, err}) }
		o := in.run(c, src, limit)
		c.AfterEnd = nil
		if fails && o.end != errSource.Error() {
			fails = false // done before the failure
		}
		if !fails && o.end != io.EOF.Error() && o.end != io.ErrUnexpectedEOF.Error() {
			c.Count("ended_by_other_error", 1)
			continue
		}
		for i, a := range l {
			bad := a.n != 0 || a.err == nil
			if fails {
				bad = bad || a.err != errSource
			} else {
				bad = bad || a.err != io.EOF && a.err != io.ErrUnexpectedEOF
			}
			if bad {
				c.Fail("%s, stream of %d bytes (%d there, source fails: %v) ended with %q; call %d after that gives %d results and the error %v", in.name, len(data), k, fails, o.end, i+1, a.n, a.err)
			}
			c.Count("further_calls", 1)
			c.Count("asked again: "+in.name, 1)
		}
		if fails {
			c.Count("lasting_failures", 1)
		} else {
			c.Count("ends", 1)
		}
	}
	c.Sample("%s: %d bytes, %d results, then %q", in.name, len(data), full.count(), full.end)
}
