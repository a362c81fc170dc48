package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

// X12: all routes through the library to the same data agree, on any stream.
// No model is needed: the routes judge each other.

func init() {
	min := map[string]int64{"routes_compared": 50000, "bytes_compared": 10000000, "ended_in_an_error_of_the_stream": 3000, "damaged": 5000, "legal": 2000, "units": 10000, "packets": 50000, "frames": 3000, "headers_compared": 500}
	for _, k := range routeKinds {
		min["kind: "+k.name] = 1000
	}
	register(&Prop{
		ID: "X12", Rule: "a stream with at least one result, read by all routes",
		Quick: 42000, Thorough: 1000000, Run: runX12, Min: min,
	})
}

// A kind of stream, by the layers that make it, and what compares the routes.
var routeKinds = []struct {
	name string
	gens []int
	run  func(c *Case, data []byte)
}{
	{"transport packets", []int{0, 1, 2, 3, 12}, routesTS},
	{"payload units", []int{2, 3, 12}, routesUnits},
	{"pes packets", []int{4, 5}, routesPES},
	{"program stream", []int{7, 8, 13}, routesPS},
	{"video in a transport stream", []int{12}, routesTSVideo},
	{"video in a program stream", []int{13}, routesPSVideo},
	{"video", []int{9, 10}, routesVideo},
}

func runX12(c *Case) {
	r := c.R
	kind := &routeKinds[c.Idx%len(routeKinds)]
	g := kind.gens[r.N(len(kind.gens))]
	var data []byte
	var in *layerIn
	switch n := r.N(8); {
	case n < 2:
		in = layers[g].gen(c)
		data = in.data
		c.Count("legal", 1)
	case n < 6:
		in = layers[g].gen(c)
		data = mutate(r, in.data)
		c.Count("damaged", 1)
	case n < 7:
		withNoise(r, func() { in = layers[g].gen(c) })
		data = in.data
		c.Count("damaged", 1)
	default:
		in = layers[g].gen(c)
		data = append(append([]byte{}, in.data[:r.N(len(in.data)+1)]...), layers[r.N(len(layers))].gen(c).data...)
		c.Count("damaged", 1)
	}
	if g >= 9 && g != 10 {
		var es []byte
		if g >= 12 {
			es = extractES(c, g, in, data)
		} else {
			es = data
		}
		capped(r, es)
		if g >= 12 && string(es) != string(extractES(c, g, in, data)) {
			data = in.data
			es = extractES(c, g, in, data)
			capped(r, es)
			if string(es) != string(extractES(c, g, in, data)) {
				return // declares pictures that are too large to decode for nothing
			}
		}
	}
	c.Count("kind: "+kind.name, 1)
	c.Count("stream_bytes", len(data))
	c.routePID = in.pid
	kind.run(c, data)
}

// route is what came out one way.
type route struct {
	name string
	seq  []uint64
	end  string
}

// agree compares routes with the first one.
func agree(c *Case, data []byte, l ...*route) {
	a := l[0]
	for _, b := range l[1:] {
		for i := 0; i < len(a.seq) && i < len(b.seq); i++ {
			if a.seq[i] != b.seq[i] {
				c.Fail("%s and %s disagree on result %d of %d and %d: %x, %x", a.name, b.name, i, len(a.seq), len(b.seq), a.seq[i], b.seq[i])
			}
		}
		if len(a.seq) != len(b.seq) {
			c.Fail("%s gives %d results and then %q, %s gives %d and then %q", a.name, len(a.seq), a.end, b.name, len(b.seq), b.end)
		}
		if a.end != b.end {
			c.Fail("%s gives %d results and then %q, %s gives as many and then %q", a.name, len(a.seq), a.end, b.name, b.end)
		}
		c.Count("routes_compared", 1)
		c.Count("bytes_compared", len(a.seq))
	}
	if a.end != io.EOF.Error() {
		c.Count("ended_in_an_error_of_the_stream", 1)
	}
	c.Sig(append([]byte(a.name), data...), len(a.seq) > 0)
	c.Sample("%s and %d more: %d results, then %q", a.name, len(l)-1, len(a.seq), a.end)
}

func (x *route) bytes(b []byte) {
	for _, y := range b {
		x.seq = append(x.seq, uint64(y))
	}
}

func endName(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// pidsIn lists PIDs that a stream may carry.
func pidsIn(c *Case, data []byte) []uint32 {
	var l []uint32
	for i := 0; i+188 <= len(data) && len(l) < 60; i += 188 {
		if data[i] == 0x47 {
			l = append(l, uint32(data[i+1]&0x1f)<<8|uint32(data[i+2]))
		}
	}
	return append(l, uint32(c.R.Bits(13)))
}

func anyExpr(c *Case, data []byte) *expr {
	l := pidsIn(c, data)
	if c.R.Bool() {
		return &expr{op: 0, pid: l[c.R.N(len(l))]}
	}
	return genExpr(c.R, 2, l)
}

func routesTS(c *Case, data []byte) {
	r := c.R
	e := anyExpr(c, data)
	src := func() *Source { return newSource(data, r.N(chunkStyles), r) }
	// packets
	a := &route{name: "ts.NewPacket"}
	pay := &route{name: "ts.NewPacket (payload)"}
	w := e.build(nil)
	br := bitreader.NewReader(src())
	for {
		p, err := ts.NewPacket(br)
		if err != nil {
			a.end = endName(err)
			pay.end = a.end
			break
		}
		if w(p) {
			a.seq = append(a.seq, hashTSPacket(p))
			pay.bytes(p.Payload)
		}
		endless(c, a.name, len(a.seq)*minPacket, len(data)+minPacket)
	}
	c.Count("packets", len(a.seq))
	b := &route{name: "ts.Packet.Next"}
	br = bitreader.NewReader(src())
	obj := &ts.Packet{}
	for {
		if err := obj.Next(br); err != nil {
			b.end = endName(err)
			break
		}
		if w(obj) {
			b.seq = append(b.seq, hashTSPacket(obj))
		}
	}
	d := &route{name: "ts.Demuxer"}
	dp := &route{name: "ts.Demuxer (PayloadOnly)"}
	dm := ts.NewDemuxer(src())
	ch := dm.Where(e.build(nil))
	po := dm.Where(e.build(nil)).PayloadOnly()
	done := dm.Go()
	wait := make(chan bool)
	go func() {
		for x := range po {
			dp.bytes(x)
		}
		close(wait)
	}()
	for p := range ch {
		d.seq = append(d.seq, hashTSPacket(p))
	}
	<-wait
	<-done
	d.end = endName(dm.Err())
	dp.end = d.end
	rd := drain(c, "ts payload reader", ts.NewPayloadReader(src(), e.build(nil)), nil, len(data))
	pr := &route{name: "ts.NewPayloadReader", end: endName(rd.err)}
	pr.bytes(rd.data)
	agree(c, data, a, b, d)
	agree(c, data, pay, dp, pr)
}

func routesUnits(c *Case, data []byte) {
	r := c.R
	e := anyExpr(c, data)
	src := func() *Source { return newSource(data, r.N(chunkStyles), r) }
	// by hand
	a := &route{name: "ts.NewPacket (units)"}
	w := e.build(nil)
	br := bitreader.NewReader(src())
	started := false
	for {
		p, err := ts.NewPacket(br)
		if err != nil {
			a.end = endName(err)
			break
		}
		if !w(p) {
			continue
		}
		if p.PayloadUnitStartIndicator {
			a.seq = append(a.seq, evMark)
			started = true
			c.Count("units", 1)
		}
		if started {
			a.bytes(p.Payload)
		}
	}
	d := &route{name: "ts.PacketChannel.PayloadUnit"}
	dm := ts.NewDemuxer(src())
	cu := dm.Where(e.build(nil)).PayloadUnit()
	done := dm.Go()
	for x := range cu {
		d.seq = append(d.seq, evMark)
		d.bytes(x)
	}
	<-done
	d.end = endName(dm.Err())
	// the reader tells where a unit ends, but for the last one if the stream does not end well
	rd := drain(c, "ts payload unit reader", ts.NewPayloadUnitReader(src(), e.build(nil)), ts.EOP, len(data))
	u := &route{name: "ts.NewPayloadUnitReader", end: endName(rd.err)}
	ev := eventsOf(rd)
	if started {
		if n := len(ev); n > 0 && ev[n-1] == evMark && (rd.err == io.EOF || rd.err == io.ErrUnexpectedEOF) {
			ev = ev[:n-1]
		}
		u.seq = append([]uint64{evMark}, ev...)
	} else {
		u.seq = ev
	}
	agree(c, data, a, d, u)
}

func routesPES(c *Case, data []byte) {
	r := c.R
	src := func() *Source { return newSource(data, r.N(chunkStyles), r) }
	a := &route{name: "pes.NewPacket"}
	pay := &route{name: "pes.NewPacket (payload)"}
	br := bitreader.NewReader(src())
	var l []*pes.Packet
	for {
		p, err := pes.NewPacket(br)
		if err != nil {
			a.end = endName(err)
			pay.end = a.end
			break
		}
		a.seq = append(a.seq, hashPESPacket(p))
		pay.bytes(p.Payload)
		l = append(l, p)
		endless(c, a.name, len(a.seq), len(data)+1)
	}
	c.Count("packets", len(l))
	b := &route{name: "pes.Packet.Next"}
	br = bitreader.NewReader(src())
	obj := &pes.Packet{}
	for {
		if err := obj.Next(br); err != nil {
			b.end = endName(err)
			break
		}
		b.seq = append(b.seq, hashPESPacket(obj))
	}
	rd := drain(c, "pes payload reader", pes.NewPayloadReader(src()), nil, len(data))
	pr := &route{name: "pes.NewPayloadReader", end: endName(rd.err)}
	pr.bytes(rd.data)
	ch := make(chan *pes.Packet)
	go func() {
		for _, p := range l {
			ch <- p
		}
		close(ch)
	}()
	po := &route{name: "pes.PacketChannel.PayloadOnly", end: a.end}
	for x := range pes.PacketChannel(ch).PayloadOnly() {
		po.bytes(x)
	}
	agree(c, data, a, b)
	agree(c, data, pay, pr, po)
}

func routesPS(c *Case, data []byte) {
	r := c.R
	src := func() *Source { return newSource(data, r.N(chunkStyles), r) }
	// by hand, as far as packs and packets follow each other
	a := &route{name: "ps.NewPackHeader and pes.NewPacket"}
	pay := &route{name: "pes.NewPacket behind ps.NewPackHeader (payload)"}
	br := bitreader.NewReader(src())
	first, complete := true, false
	for {
		if is, err := ps.ProgramEndCode.Check(br); err != nil {
			break
		} else if is && !first {
			complete = true
			break
		}
		if is, _ := ps.PackStartCode.Check(br); is || first {
			h, err := ps.NewPackHeader(br)
			if err != nil {
				break
			}
			first = false
			a.seq = append(a.seq, hashPackHeader(h))
			continue
		}
		p, err := pes.NewPacket(br)
		if err != nil {
			break
		}
		a.seq = append(a.seq, hashPESPacket(p))
		pay.bytes(p.Payload)
	}
	a.end, pay.end = fmt.Sprint(complete), fmt.Sprint(complete)
	c.Count("packets", len(a.seq))
	b := &route{name: "ps.Decoder"}
	d := ps.NewDecoder(bitreader.NewReader(src()))
	packs := d.Packs()
	done := d.Go()
	for p := range packs {
		b.seq = append(b.seq, hashPackHeader(p.PackHeader))
		for q := range p.Packets() {
			b.seq = append(b.seq, hashPESPacket(q))
		}
	}
	ok := <-done
	if ok != (d.Err() == nil) {
		c.Fail("ps.Decoder: done tells %v, the error is %v", ok, d.Err())
	}
	b.end = fmt.Sprint(ok)
	agree(c, data, a, b)
	if !first {
		rd := drain(c, "ps pack reader", ps.NewPackReader(src()), nil, len(data))
		pr := &route{name: "ps.NewPackReader", end: fmt.Sprint(complete)}
		if complete && rd.err != io.EOF {
			pr.end = endName(rd.err)
		}
		pr.bytes(rd.data)
		agree(c, data, pay, pr)
	}
}

func decodeAll(c *Case, name string, rd io.Reader, limit int) *route {
	return decodeOn(c, name, video.NewVideoSequence(rd), limit)
}

func decodeOn(c *Case, name string, vs *video.VideoSequence, limit int) *route {
	x := &route{name: name}
	for {
		img, err := vs.Next()
		if err == video.EOS {
			x.seq = append(x.seq, evMark)
		} else if err != nil {
			x.end = endName(err)
			return x
		} else {
			x.seq = append(x.seq, hashFrame(img))
		}
		endless(c, name, len(x.seq)*4, limit+16)
	}
}

// chainVsDirect compares decoding behind a container reader with decoding what it
// yields. The error of the container takes the place of the end of the data.
func chainVsDirect(c *Case, data []byte, chain func() io.Reader) {
	x := drain(c, "container", chain(), nil, len(data))
	a := decodeAll(c, "the decoder over the elementary stream", newSource(x.data, c.R.N(chunkStyles), c.R), len(data))
	b := decodeAll(c, "the decoder behind the container reader", chain(), len(data))
	if b.end == endName(x.err) {
		b.end = io.EOF.Error()
	}
	if a.end == io.ErrUnexpectedEOF.Error() {
		a.end = io.EOF.Error()
	}
	if b.end == io.ErrUnexpectedEOF.Error() {
		b.end = io.EOF.Error()
	}
	c.Count("frames", len(a.seq))
	agree(c, data, a, b)
}

func routesTSVideo(c *Case, data []byte) {
	pid := c.routePID
	chainVsDirect(c, data, func() io.Reader {
		return tsVideoChain(newSource(data, c.R.N(chunkStyles), c.R), pid)
	})
	chainVsDirect(c, data, func() io.Reader {
		return pes.NewPayloadReader(ts.NewPayloadReader(newSource(data, c.R.N(chunkStyles), c.R), ts.IsPID(pid)))
	})
}

func routesPSVideo(c *Case, data []byte) {
	chainVsDirect(c, data, func() io.Reader {
		return ps.NewPackReader(newSource(data, c.R.N(chunkStyles), c.R))
	})
}

// routesVideo: the first sequence header is found by the decoder, or by the caller.
func routesVideo(c *Case, data []byte) {
	r := c.R
	if r.P(1, 3) {
		data = append(r.Bytes(r.N(50)), data...)
	}
	i := bytes.Index(data, []byte{0, 0, 1, 0xb3})
	if i < 0 {
		i = len(data)
	}
	a := decodeAll(c, "video.VideoSequence at the first sequence header", newSource(data[i:], r.N(chunkStyles), r), len(data))
	b := &route{name: "video.VideoSequence behind AlignTo"}
	vs := video.NewVideoSequence(newSource(data, r.N(chunkStyles), r))
	defer headersAgree(c, data[i:], vs)
	if err := vs.AlignTo(video.SequenceHeaderStartCode); err != nil {
		b.end = endName(err)
	} else {
		b = decodeOn(c, b.name, vs, len(data))
	}
	c.Count("frames", len(a.seq))
	agree(c, data, a, b)
}

// headersAgree compares the headers that a decoder has kept with what the header
// readers make of them, where there is one of a kind only.
func headersAgree(c *Case, data []byte, vs *video.VideoSequence) {
	seq, gop := []byte{0, 0, 1, 0xb3}, []byte{0, 0, 1, 0xb8}
	if bytes.Count(data, seq) == 1 {
		h, err := video.ReadSequenceHeader(bitreader.NewReader(newSource(data, c.R.N(chunkStyles), c.R)))
		if err == nil && vs.SequenceHeader != nil {
			if deepHash(vs.SequenceHeader) != deepHash(h) {
				c.Fail("ReadSequenceHeader gives %+v, the decoder %+v", h, vs.SequenceHeader)
			}
			c.Count("headers_compared", 1)
		}
	}
	if i := bytes.Index(data, gop); i >= 0 && bytes.Count(data, gop) == 1 && vs.GroupOfPicturesHeader != nil {
		h, err := video.ReadGOPHeader(bitreader.NewReader(newSource(data[i:], c.R.N(chunkStyles), c.R)))
		if err != nil {
			return
		}
		if deepHash(vs.GroupOfPicturesHeader) != deepHash(h) {
			c.Fail("ReadGOPHeader gives %+v, the decoder %+v", h, vs.GroupOfPicturesHeader)
		}
		c.Count("headers_compared", 1)
	}
}
