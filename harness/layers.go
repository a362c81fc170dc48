package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"io"
	"math"
	"sync"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

// Every layer of the library as something that turns a byte source into
// sequences of results and a final error.

type obs struct {
	seqs [][]uint64 // results in order; several sequences where delivery is concurrent
	end  string     // the final error; "<nil>" when the layer reported success
}

func (o *obs) count() (n int) {
	for _, s := range o.seqs {
		n += len(s)
	}
	return
}

// add records a result of sequence i.
func (o *obs) add(c *Case, i int, ev uint64) {
	o.seqs[i] = append(o.seqs[i], ev)
	if c.Live != nil {
		c.Live(i, len(o.seqs[i]))
	}
}

// keep is told about results that the caller holds on to.
func (c *Case) keep(h uint64, again func() uint64) {
	if c.Keep != nil {
		c.Keep(h, again)
	}
}

const evMark = 1 << 40 // a unit end, an end of sequence

type layerIn struct {
	name string
	data []byte
	// need tells how many results of each sequence must come when only the
	// first k bytes are there.
	need func(k int) []int
	// live tells the same where the bytes after k are still to come; need, if nil.
	live func(k int) []int
	run  func(c *Case, rd io.Reader, limit int) *obs
	// cleanEnd: reading the complete input ends in success or end-of-file.
	pictures int
	pid      uint32
}

// layerRun runs a layer by its name over any bytes, with fixed parameters.
type layer struct {
	name string
	gen  func(c *Case) *layerIn
}

var layers = []layer{
	{"ts packets", genLayerTSPackets},
	{"ts payload reader", genLayerTSPayload},
	{"ts payload unit reader", genLayerTSUnits},
	{"ts demultiplexer", genLayerDemux},
	{"pes packets", genLayerPESPackets},
	{"pes payload reader", genLayerPESPayload},
	{"ps pack headers", genLayerPackHeaders},
	{"ps pack reader", genLayerPackReader},
	{"ps decoder", genLayerPSDecoder},
	{"video", genLayerVideo},
	{"video headers", genLayerVideoHeaders},
	{"start code search", genLayerAlign},
	{"transport stream to video", genLayerTSVideo},
	{"program stream to video", genLayerPSVideo},
}

// takesSource tells if a layer is made of an io.Reader by the library itself, and
// not of a bitreader that the caller made of one.
func (in *layerIn) takesSource() bool {
	switch in.name {
	case "ts packets", "pes packets", "ps pack headers", "ps decoder", "video headers":
		return false
	}
	return true
}

func endless(c *Case, what string, n, limit int) {
	if n > limit {
		c.Fail("%s: endless results (%d from %d bytes)", what, n, limit)
	}
}

func eventsOf(d drained) (ev []uint64) {
	k := 0
	for i := 0; i <= len(d.data); i++ {
		for k < len(d.marks) && d.marks[k] == i {
			ev = append(ev, evMark)
			k++
		}
		if i < len(d.data) {
			ev = append(ev, uint64(d.data[i]))
		}
	}
	return
}

func readerObs(c *Case, what string, rd io.Reader, mark error, limit int) *obs {
	d := drain(c, what, rd, mark, limit)
	return &obs{[][]uint64{eventsOf(d)}, fmt.Sprint(d.err)}
}

func hashTSPacket(p *ts.Packet) uint64       { return deepHash(p) }
func hashPESPacket(p *pes.Packet) uint64     { return deepHash(p) }
func hashPackHeader(h *ps.PackHeader) uint64 { return deepHash(h) }

// again calls f a few times more after it reported an error: a caller may
// retry, and must get results or errors, no crash.
func again(c *Case, f func() (bool, error)) {
	for i := 0; i < 5; i++ {
		ok, err := f()
		n := 0
		if ok {
			n = 1
		}
		if c.AfterEnd != nil {
			c.AfterEnd(n, err)
		} else if err == io.EOF {
			return
		}
	}
}

// ---- transport stream ----

// minPacket: a damaged packet may declare an adaptation field, no payload and
// a field shorter than the packet, and the search goes on right behind it.
const minPacket = 5

func layerTSSeq(c *Case) ([]*tsPkt, []uint32) {
	pids := tsPids(c.R)
	return genTSSeq(c, c.R.In(1, 12), tsOpt{pids: pids}), pids
}

func runTSPackets(c *Case, rd io.Reader, limit int) *obs {
	br := c.bits(rd)
	o := &obs{seqs: [][]uint64{nil}}
	for {
		p, err := ts.NewPacket(br)
		if err != nil {
			o.end = err.Error()
			again(c, func() (bool, error) { _, err := ts.NewPacket(br); return err == nil, err })
			return o
		}
		_ = p.String()
		h := hashTSPacket(p)
		c.keep(h, func() uint64 { return hashTSPacket(p) })
		o.add(c, 0, h)
		endless(c, "ts packets", len(o.seqs[0])*minPacket, limit+minPacket)
	}
}

func genLayerTSPackets(c *Case) *layerIn {
	l, _ := layerTSSeq(c)
	return &layerIn{data: joinTS(l), run: runTSPackets, need: func(k int) []int { return []int{k / 188} }}
}

func genLayerTSPayload(c *Case) *layerIn {
	l, pids := layerTSSeq(c)
	where := genExpr(c.R, 1, pids)
	return &layerIn{data: joinTS(l), run: func(c *Case, rd io.Reader, limit int) *obs {
		return readerObs(c, "ts payload reader", ts.NewPayloadReader(rd, where.build(nil)), nil, limit)
	}, need: func(k int) []int {
		n := 0
		for _, p := range l[:min(k/188, len(l))] {
			if where.eval(p) {
				n += len(p.payload)
			}
		}
		return []int{n}
	}}
}

func genLayerTSUnits(c *Case) *layerIn {
	l, pids := layerTSSeq(c)
	where := genExpr(c.R, 1, pids)
	if c.R.Bool() {
		where = &expr{op: 0, pid: pids[0]}
	}
	return &layerIn{data: joinTS(l), live: func(k int) []int { return []int{wholeUnits(l[:min(k/188, len(l))], where)} }, run: func(c *Case, rd io.Reader, limit int) *obs {
		o := readerObs(c, "ts payload unit reader", ts.NewPayloadUnitReader(rd, where.build(nil)), ts.EOP, limit)
		// the last unit ends with the stream: not part of what a prefix shares
		// (a source that fails does not end it)
		if l := o.seqs[0]; len(l) > 0 && l[len(l)-1] == evMark && o.end != errSource.Error() {
			o.seqs[0] = l[:len(l)-1]
		}
		return o
	}, need: func(k int) []int {
		us, _ := unitsOf(l[:min(k/188, len(l))], where)
		n := 0
		for _, u := range us {
			n += len(u)
		}
		if len(us) > 1 {
			n += len(us) - 1 // the last unit's end is not known yet
		}
		return []int{n}
	}}
}

// wholeUnits counts the bytes and ends of the units whose successor has begun.
func wholeUnits(l []*tsPkt, where *expr) (n int) {
	us, _ := unitsOf(l, where)
	for i, u := range us {
		if i < len(us)-1 {
			n += len(u) + 1
		}
	}
	return
}

func genLayerDemux(c *Case) *layerIn {
	l, pids := layerTSSeq(c)
	a, b := genExpr(c.R, 1, pids), genExpr(c.R, 1, pids)
	u := &expr{op: 0, pid: pids[0]}
	seed := c.R.U64()
	only := c.R.Bool()
	return &layerIn{data: joinTS(l), run: func(c *Case, rd io.Reader, limit int) *obs {
		o := &obs{seqs: make([][]uint64, 3)}
		dm := ts.NewDemuxer(rd)
		ca, cb, cu := dm.Where(a.build(nil)), dm.Where(b.build(nil)), dm.Where(u.build(nil)).PayloadUnit()
		done := dm.Go()
		var wg sync.WaitGroup
		wg.Add(3)
		over := false
		chs := []ts.PacketChannel{ca, cb}
		if only {
			chs = chs[:1]
			bs := cb.PayloadOnly()
			go func() {
				defer wg.Done()
				r := &R{seed + 1}
				for x := range bs {
					x := x
					pause(r)
					if len(o.seqs[1])*minPacket > limit+minPacket {
						over = true
						continue
					}
					c.keep(hashBytes(x), func() uint64 { return hashBytes(x) })
					o.add(c, 1, hashBytes(x))
				}
			}()
		}
		for i, ch := range chs {
			go func(i int, ch ts.PacketChannel) {
				defer wg.Done()
				r := &R{seed + uint64(i)}
				for p := range ch {
					p := p
					pause(r)
					if len(o.seqs[i])*minPacket > limit+minPacket {
						over = true
						continue
					}
					h := hashTSPacket(p)
					c.keep(h, func() uint64 { return hashTSPacket(p) })
					o.add(c, i, h)
				}
			}(i, ch)
		}
		go func() {
			defer wg.Done()
			for x := range cu {
				x := x
				c.keep(hashBytes(x), func() uint64 { return hashBytes(x) })
				for _, y := range x {
					o.add(c, 2, uint64(y))
				}
				o.add(c, 2, evMark)
			}
		}()
		wg.Wait()
		<-done
		if over {
			c.Fail("ts demultiplexer: endless results")
		}
		// the last unit ends with the stream: not part of what a prefix shares
		if n := len(o.seqs[2]); n > 0 {
			o.seqs[2] = o.seqs[2][:n-1]
		}
		o.end = fmt.Sprint(dm.Err())
		return o
	}, live: func(k int) []int {
		l := l[:min(k/188, len(l))]
		n := []int{0, 0, wholeUnits(l, u)}
		for _, p := range l {
			n[0] += int(bit(a.eval(p)))
			n[1] += int(bit(b.eval(p)))
		}
		return n
	}, need: func(k int) []int {
		l := l[:min(k/188, len(l))]
		n := []int{0, 0, 0}
		for _, p := range l {
			if a.eval(p) {
				n[0]++
			}
			if b.eval(p) {
				n[1]++
			}
		}
		us, _ := unitsOf(l, u)
		for i, x := range us {
			n[2] += len(x)
			if i < len(us)-1 {
				n[2]++
			}
		}
		return n
	}}
}

// ---- packetized elementary streams ----

func layerPES(c *Case) []*pesPkt {
	return genPESSeq(c, c.R.In(1, 8), pesOpt{maxLoad: []int{30, 300}[c.R.N(2)]})
}

func runPESPackets(c *Case, rd io.Reader, limit int) *obs {
	br := c.bits(rd)
	o := &obs{seqs: [][]uint64{nil}}
	for {
		p, err := pes.NewPacket(br)
		if err != nil {
			o.end = err.Error()
			again(c, func() (bool, error) { _, err := pes.NewPacket(br); return err == nil, err })
			return o
		}
		h := hashPESPacket(p)
		c.keep(h, func() uint64 { return hashPESPacket(p) })
		o.add(c, 0, h)
		endless(c, "pes packets", len(o.seqs[0])*6, limit+6)
	}
}

func genLayerPESPackets(c *Case) *layerIn {
	l := layerPES(c)
	data, _ := joinPES(l)
	return &layerIn{data: data, run: runPESPackets, need: func(k int) []int {
		n, off := 0, 0
		for _, p := range l {
			if off += len(p.raw); off > k {
				break
			}
			n++
		}
		return []int{n}
	}}
}

func genLayerPESPayload(c *Case) *layerIn {
	l := layerPES(c)
	data, _ := joinPES(l)
	return &layerIn{data: data, run: func(c *Case, rd io.Reader, limit int) *obs {
		return readerObs(c, "pes payload reader", pes.NewPayloadReader(rd), nil, limit)
	}, need: func(k int) []int {
		n, off := 0, 0
		for _, p := range l {
			if off += len(p.raw); off > k {
				break
			}
			n += len(p.payload)
		}
		return []int{n}
	}}
}

// ---- program streams ----

func layerPacks(c *Case) (l []*psPack, data []byte) {
	for i := c.R.In(1, 4); i > 0; i-- {
		l = append(l, genPack(c.R, c.R.N(4), pesOpt{maxLoad: []int{20, 200}[c.R.N(2)]}))
	}
	data, _ = joinPS(l, true)
	return
}

func runPackHeaders(c *Case, rd io.Reader, limit int) *obs {
	br := c.bits(rd)
	o := &obs{seqs: [][]uint64{nil}}
	for {
		h, err := ps.NewPackHeader(br)
		if err != nil {
			o.end = err.Error()
			again(c, func() (bool, error) { x, err := ps.NewPackHeader(br); return x != nil, err })
			return o
		}
		k := hashPackHeader(h)
		c.keep(k, func() uint64 { return hashPackHeader(h) })
		o.add(c, 0, k)
		endless(c, "ps pack headers", len(o.seqs[0])*14, limit+14)
	}
}

func genLayerPackHeaders(c *Case) *layerIn {
	var l []*psPack
	var data []byte
	for i := c.R.In(1, 4); i > 0; i-- {
		p := genPack(c.R, 0, pesOpt{maxLoad: 1})
		l = append(l, p)
		data = append(data, p.hdr...)
	}
	return &layerIn{data: data, run: runPackHeaders, need: func(k int) []int {
		n, off := 0, 0
		for _, p := range l {
			if off += len(p.hdr); off+4 > k {
				break
			}
			n++
		}
		return []int{n}
	}}
}

func genLayerPackReader(c *Case) *layerIn {
	l, data := layerPacks(c)
	return &layerIn{data: data, run: func(c *Case, rd io.Reader, limit int) *obs {
		return readerObs(c, "ps pack reader", ps.NewPackReader(rd), nil, limit)
	}, need: func(k int) []int {
		n, off := 0, 0
		for _, p := range l {
			if off += len(p.hdr); off > k {
				return []int{n}
			}
			for _, q := range p.packets {
				if off += len(q.raw); off > k {
					return []int{n}
				}
				n += len(q.payload)
			}
		}
		return []int{n}
	}}
}

func genLayerPSDecoder(c *Case) *layerIn {
	l, data := layerPacks(c)
	only := c.R.U64()
	return &layerIn{data: data, run: func(c *Case, rd io.Reader, limit int) *obs {
		o := &obs{seqs: [][]uint64{nil}}
		d := ps.NewDecoder(c.bits(rd))
		packs := d.Packs()
		done := d.Go()
		n := 0
		for p := range packs {
			o.add(c, 0, hashPackHeader(p.PackHeader))
			if n++; only>>uint(n&63)&3 == 3 {
				for x := range p.Packets().PayloadOnly() {
					x := x
					c.keep(hashBytes(x), func() uint64 { return hashBytes(x) })
					o.add(c, 0, hashBytes(x))
				}
			}
			for q := range p.Packets() {
				q := q
				h := hashPESPacket(q)
				c.keep(h, func() uint64 { return hashPESPacket(q) })
				o.add(c, 0, h)
			}
			endless(c, "ps decoder", len(o.seqs[0])*6, limit+100)
		}
		<-done
		o.end = fmt.Sprint(d.Err())
		return o
	}, need: func(k int) []int {
		n, off := 0, 0
		for _, p := range l {
			if off += len(p.hdr); off+4 > k { // a look at the next start code
				break
			}
			n++
			for _, q := range p.packets {
				if off += len(q.raw); off > k {
					return []int{n}
				}
				n++
			}
		}
		return []int{n}
	}}
}

// ---- video ----

func runVideo(c *Case, rd io.Reader, limit int) *obs {
	return videoObs(c, video.NewVideoSequence(rd), limit)
}

func videoObs(c *Case, vs *video.VideoSequence, limit int) *obs {
	o := &obs{seqs: [][]uint64{nil}}
	for {
		img, err := vs.Next()
		if err == video.EOS && img == nil {
			o.add(c, 0, evMark)
		} else if err != nil {
			if img != nil {
				c.Fail("video: a frame together with error %v", err)
			}
			o.end = err.Error()
			again(c, func() (bool, error) { x, err := vs.Next(); return x != nil, err })
			return o
		} else if img == nil {
			c.Fail("video: neither frame nor error")
		} else {
			h := hashFrame(img)
			c.keep(h, func() uint64 { return hashFrame(img) })
			o.add(c, 0, h)
		}
		endless(c, "video", len(o.seqs[0])*4, limit+16)
	}
}

func smallVideo(c *Case) *vStream {
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.pics = 3, 2, 6
	o.density = c.R.N(2)
	o.qm = c.R.P(1, 3)
	o.eos = -1
	s := genVideos(c.R, c.R.In(1, 2), o)
	return s
}

// eventEnds gives, for every frame and sequence end in order of delivery, how
// many bytes must be there for it: all that is coded for it and for what comes
// before it, and one start code of look-ahead.
func (s *vStream) eventEnds(data []byte) (l []int) {
	ends := map[*vPic]int{}
	for i, e := range s.elems {
		if e.pic == nil {
			continue
		}
		_ = i
		k := bytes.Index(data[e.pic.end:], []byte{0, 0, 1})
		if k < 0 {
			ends[e.pic] = math.MaxInt
		} else {
			ends[e.pic] = e.pic.end + k + 4
		}
	}
	d := 0
	n := 0 // pictures coded so far
	worst := 0
	flush := func() {
		for ; d < n; d++ {
			if x := ends[s.pics[s.order[d]]]; x > worst {
				worst = x
			}
			l = append(l, worst)
		}
	}
	for i, e := range s.elems {
		if e.pic != nil {
			n++
		}
		if e.eos {
			flush()
			at := s.offs[i+1]
			if at > worst {
				worst = at
			}
			l = append(l, worst)
		}
	}
	flush()
	return
}

func leading(ends []int, k int) []int {
	n := 0
	for n < len(ends) && ends[n] <= k {
		n++
	}
	return []int{n}
}

func genLayerVideo(c *Case) *layerIn {
	s := smallVideo(c)
	d := &vDress{r: c.R, counts: map[string]int{}}
	if c.R.Bool() {
		d = nil
	}
	data := s.encode(d)
	ends := s.eventEnds(data)
	return &layerIn{data: data, run: runVideo, pictures: len(s.pics), need: func(k int) []int { return leading(ends, k) }}
}

// genLayerVideoHeaders: sequence and group headers read one after the other.
func genLayerVideoHeaders(c *Case) *layerIn {
	r := c.R
	w := &vEnc{}
	var ends []int
	for i := r.In(1, 5); i > 0; i-- {
		if r.Bool() {
			e := &vEnc{}
			e.writeSeq(anySeq(r))
			all := e.Bytes()
			w.Raw(all[:4+bytes.Index(all[4:], []byte{0, 0, 1, 0xb5})])
		} else {
			w.writeGOP(&vGOP{tc: r.Bits(25), closed: r.Bool(), broken: r.Bool()})
		}
		if r.P(1, 3) {
			w.Raw(make([]byte, r.N(5)))
		}
		ends = append(ends, w.Len()+4)
	}
	w.Put(32, 0x1b7)
	return &layerIn{data: w.Bytes(), need: func(k int) []int { return leading(ends, k) }, run: func(c *Case, rd io.Reader, limit int) *obs {
		br := c.bits(rd)
		o := &obs{seqs: [][]uint64{nil}}
		for {
			var ev uint64
			is, err := video.GroupStartCode.Check(br)
			if err == nil && is {
				var h *video.GroupOfPicturesHeader
				if h, err = video.ReadGOPHeader(br); err == nil {
					ev = hashStr(fmt.Sprintf("%s %v %v", h.TimeCode(), h.ClosedGOP, h.BrokenLink))
				}
			} else if err == nil {
				var h *video.SequenceHeader
				if h, err = video.ReadSequenceHeader(br); err == nil {
					ev = deepHash(h)
				}
			}
			if err != nil {
				o.end = err.Error()
				again(c, func() (bool, error) { x, err := video.ReadSequenceHeader(br); return x != nil, err })
				again(c, func() (bool, error) { x, err := video.ReadGOPHeader(br); return x != nil, err })
				return o
			}
			o.add(c, 0, ev)
			endless(c, "video headers", len(o.seqs[0])*8, limit+8)
		}
	}}
}

func genLayerAlign(c *Case) *layerIn {
	r := c.R
	code := alignCodes[r.N(len(alignCodes))]
	data := codeSoup(r, r.In(1, 300), byte(code))
	var ends []int
	for i := 0; i+4 <= len(data); i++ {
		if binary.BigEndian.Uint32(data[i:]) == uint32(code) {
			ends = append(ends, i+4)
			i += 3
		}
	}
	return &layerIn{data: data, need: func(k int) []int { return leading(ends, k) }, run: func(c *Case, rd io.Reader, limit int) *obs {
		vs := video.NewVideoSequence(rd)
		o := &obs{seqs: [][]uint64{nil}}
		for {
			err := vs.AlignTo(code)
			if err == nil {
				err = code.Assert(vs)
				if err != nil {
					c.Fail("AlignTo(%08x) succeeded, but Assert there says %v", uint32(code), err)
				}
			}
			if err != nil {
				o.end = err.Error()
				again(c, func() (bool, error) { err := vs.AlignTo(code); return err == nil, err })
				return o
			}
			o.add(c, 0, evMark)
			endless(c, "start code search", len(o.seqs[0])*4, limit)
		}
	}}
}

// ---- video inside containers ----

// splitES cuts an elementary stream into PES packets.
func splitES(r *R, es []byte, id uint32, unboundedOK bool) (l []*pesPkt) {
	style := r.N(4)
	for len(es) > 0 || len(l) == 0 {
		n := len(es)
		switch style {
		case 0:
			n = r.In(1, 200)
		case 1:
			n = r.In(1, 3000)
		case 2:
			n = r.In(0, 30)
		}
		if n > len(es) {
			n = len(es)
		}
		if n > 60000 && !unboundedOK {
			n = 60000
		}
		p := &pesPkt{id: id}
		p.fill(r, pesOpt{})
		p.unbounded = unboundedOK && r.P(1, 2)
		p.setPayload(es[:n])
		l = append(l, p)
		es = es[n:]
	}
	return
}

// muxTS carries each PES packet in transport packets of pid, with others
// around; it returns the packets.
func muxTS(r *R, l []*pesPkt, pid uint32) (out []*tsPkt) {
	other := pid ^ uint32(1+r.N(8190))
	cc := uint32(r.N(16))
	busy := r.N(3)
	extra := func() {
		for r.P(busy, 6) {
			var p *tsPkt
			switch r.N(3) {
			case 0: // another program
				p = genTS(r, tsOpt{pids: []uint32{other}})
			case 1: // a null packet
				p = genTS(r, tsOpt{pids: []uint32{0x1fff}, plain: true})
				p.pusi = false
				if pid == 0x1fff {
					continue
				}
			case 2: // adaptation field only, on our program
				p = &tsPkt{pid: pid, cc: (cc + 15) & 15, afc: 2}
				p.build(r)
				p.payload = nil
			}
			if p.pid == pid && (p.pusi || len(p.payload) > 0) {
				continue
			}
			out = append(out, p)
		}
	}
	// something before the first start
	for r.P(1, 3) {
		out = append(out, tsWith(r, pid, false, cc, r.Bytes(184)))
		cc = (cc + 1) & 15
	}
	full := r.Bool()
	for _, p := range l {
		b := p.raw
		first := true
		for len(b) > 0 {
			extra()
			n := 184
			if !full && r.P(1, 4) {
				n = r.In(1, 184)
			}
			if n > len(b) {
				n = len(b)
			}
			out = append(out, tsWith(r, pid, first, cc, b[:n]))
			cc = (cc + 1) & 15
			b = b[n:]
			first = false
		}
	}
	extra()
	return
}

// muxPS carries the PES packets in packs.
func muxPS(r *R, l []*pesPkt) []byte {
	var packs []*psPack
	for len(l) > 0 {
		n := r.In(0, 4)
		if n > len(l) {
			n = len(l)
		}
		p := genPack(r, 0, pesOpt{maxLoad: 1})
		for _, q := range l[:n] {
			if r.P(1, 6) {
				pad := &pesPkt{id: 0xbe}
				pad.setPayload(bytes.Repeat([]byte{0xff}, r.N(60)))
				p.packets = append(p.packets, pad)
			}
			p.packets = append(p.packets, q)
		}
		packs = append(packs, p)
		l = l[n:]
	}
	b, _ := joinPS(packs, true)
	return b
}

// tsVideoChain is the documented way to read video from a transport stream.
func tsVideoChain(rd io.Reader, pid uint32) io.Reader {
	return pes.NewPayloadReader(ts.NewPayloadUnitReader(rd, ts.IsPID(pid)))
}

func genLayerTSVideo(c *Case) *layerIn {
	s := smallVideo(c)
	es := s.encode(nil)
	pid := uint32(c.R.Bits(13))
	l := splitES(c.R, es, 0xe0, true)
	pk := muxTS(c.R, l, pid)
	data := joinTS(pk)
	// how much of the elementary stream is complete after k bytes: a bounded
	// packet when its last byte is there, an unbounded one when the next starts
	ends := s.eventEnds(es)
	need := func(k, lag int) []int {
		got := 0
		for _, p := range pk[:min(k/188, len(pk))] {
			if p.pid == pid {
				got += len(p.payload)
			}
		}
		for _, p := range pk {
			if p.pid == pid && !p.pusi {
				got -= len(p.payload)
				continue
			}
			if p.pid == pid && p.pusi {
				break
			}
		}
		have, off := 0, 0
		for _, p := range l {
			if off += len(p.raw); off+1 > got { // its successor has begun
				break
			}
			have += len(p.payload)
		}
		return leading(ends, have-lag)
	}
	return &layerIn{data: data, pictures: len(s.pics), pid: pid, need: func(k int) []int { return need(k, 0) },
		live: func(k int) []int { return need(k, liveLag) }, run: func(c *Case, rd io.Reader, limit int) *obs {
			return runVideo(c, tsVideoChain(rd, pid), limit)
		}}
}

func genLayerPSVideo(c *Case) *layerIn {
	s := smallVideo(c)
	es := s.encode(nil)
	l := splitES(c.R, es, 0xe0, false)
	data := muxPS(c.R, l)
	ends := s.eventEnds(es)
	need := func(k, lag int) []int {
		have, from := 0, 0
		for _, p := range l {
			i := bytes.Index(data[from:], p.raw)
			if i < 0 || from+i+len(p.raw) > k {
				break
			}
			from += i + len(p.raw)
			have += len(p.payload)
		}
		return leading(ends, have-lag)
	}
	return &layerIn{data: data, pictures: len(s.pics), need: func(k int) []int { return need(k, 0) },
		live: func(k int) []int { return need(k, liveLag) }, run: func(c *Case, rd io.Reader, limit int) *obs {
			return runVideo(c, ps.NewPackReader(rd), limit)
		}}
}

// layersThatEnd end in front of the end of their source.
var layersThatEnd = []layer{
	{"ts payload window", func(c *Case) *layerIn {
		l, pids := layerTSSeq(c)
		where, skip, take := genExpr(c.R, 1, pids), genExpr(c.R, 1, pids), genExpr(c.R, 1, pids)
		both := c.R.Bool()
		return &layerIn{data: joinTS(l), run: func(c *Case, rd io.Reader, limit int) *obs {
			pr := ts.NewPayloadReader(rd, where.build(nil))
			if both {
				pr.SkipUntil(skip.build(nil))
			}
			pr.TakeWhile(take.build(nil))
			return readerObs(c, "ts payload window", pr, nil, limit)
		}}
	}},
	{"ps program with more behind it", func(c *Case) *layerIn {
		l, data := layerPacks(c)
		_ = l
		data = append(append([]byte{}, data...), data[:c.R.N(len(data)+1)]...)
		return &layerIn{data: data, run: func(c *Case, rd io.Reader, limit int) *obs {
			return readerObs(c, "ps pack reader", ps.NewPackReader(rd), nil, limit)
		}}
	}},
}
