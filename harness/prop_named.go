package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/huffman"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

// X14: a fault is reported by the exported error that stands for it, whichever
// way the stream is read.

// illegalErrors gives the error for an illegal code of V16.
var illegalErrors = map[string]error{
	"macroblock address increment": huffman.ErrMissingHuffmanValue,
	"macroblock type":              huffman.ErrMissingHuffmanValue,
	"motion code":                  huffman.ErrMissingHuffmanValue,
	"coded block pattern":          huffman.ErrMissingHuffmanValue,
	"coefficient":                  huffman.ErrMissingHuffmanValue,
	"motion type":                  video.ErrInvalidMotionVector,
	"vector outside":               video.ErrInvalidMotionVector,
	"skipped vector outside":       video.ErrInvalidMotionVector,
	"vector range code":            video.ErrInvalidMotionVector,
	"too many coefficients":        video.ErrTooManyCoefficients,
	"macroblock address":           video.ErrInvalidSlicePosition,
	"slice row":                    video.ErrInvalidSlicePosition,
	"slice reserved bits":          video.ErrInvalidReservedBits,
	"concealment marker":           video.ErrMissingMarkerBit,
	"sequence header marker":       video.ErrMissingMarkerBit,
	"sequence extension marker":    video.ErrMissingMarkerBit,
	"sequence display marker":      video.ErrMissingMarkerBit,
	"picture type":                 video.ErrUnsupportedPictureCodingType,
	"picture structure":            video.ErrUnsupportedPictureStructure,
	"chroma format":                video.ErrUnsupportedChromaFormat,
}

// The rest of these is read before the illegal code is looked at.
var lookedAtLate = map[string]bool{"picture type": true, "picture structure": true, "chroma format": true, "vector range code": true}

var unsupportedErrors = map[string]error{
	"mpeg1":                  video.ErrUnsupportedVideoStream_ISO_IEC_11172_2,
	"chroma_422":             video.ErrUnsupportedChromaFormat,
	"chroma_444":             video.ErrUnsupportedChromaFormat,
	"field_pictures":         video.ErrUnsupportedPictureStructure,
	"dual_prime":             video.ErrUnsupportedPrediction,
	"d_pictures":             video.ErrUnsupportedPictureCodingType,
	"reserved_picture_types": video.ErrUnsupportedPictureCodingType,
	"sequence_scalable":      video.ErrUnsupportedScalability,
	"spatial_scalable":       video.ErrUnsupportedScalability,
}

var namedContainer = []string{"ts sync byte", "ts adaptation field", "ts private data", "ts adaptation extension",
	"pes prefix", "pes marker", "pes stuffing", "pes length", "ps marker", "ps pes marker", "ps pes stuffing", "ps pes length",
	"ps end", "ps start", "video zero bytes", "video sequence header"}

func init() {
	min := map[string]int64{"named": 20000}
	for k := range illegalErrors {
		min["illegal: "+k] = 100
	}
	for k := range unsupportedErrors {
		min["unsupported: "+k] = 50
	}
	for _, k := range namedContainer {
		min["fault: "+k] = 300
	}
	register(&Prop{
		ID: "X14", Rule: "a stream with exactly one fault after correct data",
		Quick: 45000, Thorough: 1500000, Run: runX14, Min: min,
		Assume: []string{"of faults with several consequences (a reserved value in a header that changes what the rest of the header means) only the one named by the code in place is asked for where the rest is as it was"},
	})
}

func runX14(c *Case) {
	c.named = true
	idx := c.Idx
	switch {
	case idx%3 == 0:
		c.Idx = idx / 3
		runV16(c)
	case idx%3 == 1 && idx/3%4 == 0:
		c.Idx = idx / 12 * 2
		v14Unsupported(c)
	default:
		runNamedContainer(c)
	}
	c.Idx = idx
}

func runNamedContainer(c *Case) {
	r := c.R
	kind := namedContainer[r.N(len(namedContainer))]
	var want error
	var data, good []byte // the stream, and what it carries up to the fault
	what := kind
	style := r.N(chunkStyles)
	src := func() io.Reader { return newSource(data, style, &R{r.U64()}) }
	see := func(route string, err error) {
		c.Count("named", 1)
		c.Check(err == want, "%s, %s: reported as %q, want %q", what, route, fmt.Sprint(err), fmt.Sprint(want))
	}
	read := func(route string, rd io.Reader) {
		got, err := readOut(rd)
		if want == ts.ErrNoSyncByte && len(got) > len(good) {
			got = got[:len(good)] // what follows may be looked for
		}
		c.Check(bytes.Equal(got, good), "%s, %s: %d bytes in front of the error, want %d (or other ones)", what, route, len(got), len(good))
		see(route, err)
	}
	switch kind {
	case "ts sync byte", "ts adaptation field", "ts private data", "ts adaptation extension":
		l := muxUnit(r, r.Bytes(r.In(0, 1000)), 0x77)
		data = joinTS(l)
		mine := 0
		for _, p := range l {
			if p.pid == 0x77 {
				good = append(good, p.payload...)
				mine++
			}
		}
		afc := byte(0x20 | r.N(2)<<4)
		w := &BW{}
		w.Put(8, 0x47)
		w.Put(16, uint64([]int{0x77, 0x78, 0x4077}[r.N(3)]))
		w.Put(8, uint64(afc))
		switch kind {
		case "ts sync byte":
			want = ts.ErrNoSyncByte
			data = append(data, noSync(r, 188+r.N(400))...)
		case "ts adaptation field":
			want = ts.ErrInvalidAdaptationField
			w.Put(8, uint64(r.In(184, 255)))
		case "ts private data":
			want = ts.ErrInvalidAdaptationField
			n := r.In(2, 170)
			w.Put(8, uint64(n))
			w.Put(8, 0x02)
			w.Put(8, uint64(r.In(n-1, 175)))
		default:
			want = ts.ErrInvalidAdaptationField
			n := r.In(3, 170)
			w.Put(8, uint64(n))
			w.Put(8, 0x01)
			w.Put(8, uint64(r.In(n-1, 175)))
			w.Put(8, 0x1f)
		}
		if want != ts.ErrNoSyncByte {
			data = append(data, w.Bytes()...)
			for i := 0; i < 400; i++ {
				data = append(data, []byte{0, 0xff, 0x55}[r.N(3)])
			}
		}
		br := bitreader.NewReader(src())
		var err error
		n := 0
		for ; err == nil; n++ {
			_, err = ts.NewPacket(br)
		}
		c.Check(n == len(l)+1, "%s: %d packets in front of the error, want %d", what, n-1, len(l))
		see("packet", err)
		read("payload reader", ts.NewPayloadReader(src(), ts.IsPID(0x77)))
		d := ts.NewDemuxer(src())
		n = 0
		ch := d.Where(ts.IsPID(0x77))
		done := d.Go()
		for range ch {
			n++
		}
		<-done
		c.Check(n == mine, "%s: %d packets from the demultiplexer, want %d", what, n, mine)
		see("demultiplexer", d.Err())
		ur := ts.NewPayloadUnitReader(src(), ts.IsPID(0x77))
		b := make([]byte, 1000)
		for err = nil; err == nil || err == ts.EOP; {
			_, err = ur.Read(b)
		}
		see("unit reader", err)
	case "pes prefix", "pes marker", "pes stuffing", "pes length", "ps pes marker", "ps pes stuffing", "ps pes length":
		ps_ := kind[:3] == "ps "
		n := 0
		if ps_ {
			pk := genPack(r, r.N(3), pesOpt{maxLoad: 100})
			data = append(data, pk.raw()...)
			for _, p := range pk.packets {
				good = append(good, p.payload...)
			}
			n = len(pk.packets)
		} else {
			for i := r.N(4); i > 0; i-- {
				p := genPES(r, pesOpt{maxLoad: 100})
				data = append(data, p.raw...)
				good = append(good, p.payload...)
				n++
			}
		}
		raw := []byte(nil)
		for raw == nil {
			p := genPES(r, pesOpt{maxLoad: 50, ids: []uint32{0xe0, 0xc0, 0xbd, 0xe9}})
			raw = append([]byte{}, p.raw...)
			flip := func(bit int) { raw[bit/8] ^= 0x80 >> uint(bit%8) }
			switch kind[len(kind)-6:] {
			case "prefix":
				flip(r.N(24))
				want = pes.ErrStartCodePrefixNotFound
			case "marker":
				want = pes.ErrMarkerNotFound
				if p.ptsdts != 0 && r.P(2, 3) {
					at := 72
					if p.ptsdts == 3 && r.Bool() {
						at += 40
					}
					b := []int{0, 1, 2, 3, 7, 23, 39}[r.N(7)]
					flip(at + b)
					what = fmt.Sprintf("%s: bit %d of the time stamp at byte %d", kind, b, at/8)
				} else {
					flip(48 + r.N(2))
				}
			case "uffing":
				want = pes.ErrInvalidStuffingByte
				if p.stuffing == 0 {
					raw = nil
					continue
				}
				raw[p.hdrEnd-1-r.N(p.stuffing)] = byte(r.N(255))
			default:
				want = pes.ErrInvalidLength
				raw, what = shortPES(r, p)
				what = kind + ": " + what
			}
		}
		data = append(append(data, raw...), make([]byte, 3000)...)
		if !ps_ {
			br := bitreader.NewReader(src())
			var err error
			k := 0
			for ; err == nil; k++ {
				_, err = pes.NewPacket(br)
			}
			c.Check(k == n+1, "%s: %d packets in front of the error, want %d", what, k-1, n)
			see("packet", err)
			read("payload reader", pes.NewPayloadReader(src()))
			break
		}
		read("pack reader", ps.NewPackReader(src()))
		d := ps.NewDecoder(bitreader.NewReader(src()))
		see("decoder", decoderEnd(d, n, c, what))
	case "ps marker", "ps end", "ps start":
		for i := r.N(3); i > 0; i-- {
			pk := genPack(r, r.N(3), pesOpt{maxLoad: 100})
			data = append(data, pk.raw()...)
			for _, p := range pk.packets {
				good = append(good, p.payload...)
			}
		}
		pk := genPack(r, 1, pesOpt{maxLoad: 20})
		raw := append([]byte{}, pk.raw()...)
		switch kind {
		case "ps marker":
			want = ps.ErrMarkerNotFound
			m := pk.markers[r.N(len(pk.markers))]
			raw[m/8] ^= 0x80 >> uint(m%8)
			what = fmt.Sprintf("%s: bit %d", kind, m)
		case "ps start":
			want = ps.ErrUnexpectedStartCode
			data, good = nil, nil
			raw[r.N(3)] ^= byte(1 << r.N(8))
		default:
			want = ps.ErrProgramEndCodeNotFound
			for _, p := range pk.packets {
				good = append(good, p.payload...)
			}
			raw = append(raw, byte(r.In(1, 255)), byte(r.U64()), 5, 6, 7, 8, 9)
		}
		data = append(append(data, raw...), make([]byte, 300)...)
		if kind != "ps end" {
			if len(data) == len(raw)+300 {
				_, err := ps.NewPackHeader(bitreader.NewReader(src()))
				see("pack header", err)
			}
			if kind == "ps marker" {
				read("pack reader", ps.NewPackReader(src()))
			}
		}
		d := ps.NewDecoder(bitreader.NewReader(src()))
		see("decoder", decoderEnd(d, -1, c, what))
	case "video zero bytes", "video sequence header":
		o := defaultOpt()
		o.maxMBW, o.maxMBH, o.pics = 2, 2, 1
		data = genVideo(r, o).encode(nil)
		want = video.ErrUnexpectedNonZeroByte
		if kind == "video zero bytes" {
			data = append(append(make([]byte, r.N(5)), byte(r.In(2, 255)), byte(r.In(1, 255))), data...)
		} else {
			want = video.ErrUnexpectedStartCode
			code := []byte{0, 1, 0xaf, 0xb2, 0xb5, 0xb7, 0xb8, 0xba, 0xe0}[r.N(9)]
			data = append([]byte{0, 0, 1, code, 0x12, 0x34, 0x56, 0x78}, data...)
		}
		vs := video.NewVideoSequence(src())
		img, err := vs.Next()
		c.Check(img == nil, "%s: a picture", what)
		see("decoder", err)
	}
	c.Input = data
	c.Count("fault: "+kind, 1)
	c.Sig(append([]byte(kind), data...), true)
}

// decoderEnd takes everything from a decoder and gives its error.
func decoderEnd(d ps.Decoder, packets int, c *Case, what string) error {
	packs := d.Packs()
	done := d.Go()
	n := 0
	for p := range packs {
		for range p.Packets() {
			n++
		}
	}
	<-done
	c.Check(packets < 0 || n == packets, "%s: %d packets from the decoder, want %d", what, n, packets)
	return d.Err()
}

func readOut(rd io.Reader) (got []byte, err error) {
	b := make([]byte, 700)
	for {
		n, err := rd.Read(b)
		got = append(got, b[:n]...)
		if err != nil {
			return got, err
		}
	}
}
