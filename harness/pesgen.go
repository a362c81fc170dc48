package main

import (
	"bytes"
	"fmt"

	"github.com/32bitkid/mpeg/pes"
)

// The independent description of a PES packet, from ISO/IEC 13818-1 2.4.3.6.

type pesExt struct {
	priv, packHdr, seq, pstd, ext2 bool
	privData                       []byte
	packHdrData                    []byte
	seqData                        uint64
	scale, size                    uint64
	ext2Data                       []byte
}

type pesPkt struct {
	id        uint32
	hasHeader bool
	unbounded bool
	length    int // as coded

	scr                     uint64
	prio, align, copyr, org bool
	ptsdts                  uint64
	pts, dts                uint64
	escr, esRate, trick     bool
	copyInfo, crc           bool
	ext                     *pesExt
	hdl                     int
	stuffing                int

	payload []byte
	body    []byte // of packets without header: payload or padding
	raw     []byte
	hdrEnd  int // offset in raw of the first payload byte
}

// Streams without the optional PES header (table 2-18 and 2.4.3.7).
var headerless = map[uint32]bool{0xbc: true, 0xbe: true, 0xbf: true, 0xf0: true, 0xf1: true, 0xff: true, 0xf2: true, 0xf8: true}

func putTS(w *BW, marker uint64, v uint64) {
	w.Put(4, marker)
	w.Put(3, v>>30)
	w.Put(1, 1)
	w.Put(15, v>>15)
	w.Put(1, 1)
	w.Put(15, v)
	w.Put(1, 1)
}

type pesOpt struct {
	ids      []uint32
	maxLoad  int
	noExtras bool // only PTS/DTS and stuffing
}

var pesIDs = []uint32{0xbc, 0xbd, 0xbe, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xff, 0xbe, 0xe0, 0xe0, 0xe5, 0xc1}

func genPES(r *R, o pesOpt) *pesPkt {
	p := &pesPkt{}
	ids := pesIDs
	if len(o.ids) > 0 {
		ids = o.ids
	}
	p.id = ids[r.N(len(ids))]
	p.fill(r, o)
	n := r.N(o.maxLoad + 1)
	switch r.N(8) {
	case 0:
		n = 0
	case 1:
		n = r.N(4)
	case 2:
		if o.maxLoad < 300 || !r.P(1, 20) {
			break
		}
		// up to the largest there can be
		n = 65535
		if p.hasHeader {
			n -= 3 + len(p.optional()) + p.stuffing
		}
		switch r.N(3) {
		case 0:
			n -= r.N(n)
		case 1: // a packet length around a power of two
			n = max(0, n-65535+1<<uint(r.In(8, 15))+r.In(-1, 1))
		}
	}
	p.setPayload(r.Bytes(n))
	return p
}

// fill chooses the header values.
func (p *pesPkt) fill(r *R, o pesOpt) {
	p.hasHeader = !headerless[p.id]
	if !p.hasHeader {
		return
	}
	p.scr = r.Bits(2)
	p.prio, p.align, p.copyr, p.org = r.Bool(), r.Bool(), r.Bool(), r.Bool()
	p.ptsdts = []uint64{0, 2, 3}[r.N(3)]
	// the library's time stamp fields have 32 bits (see the known findings)
	if p.ptsdts >= 2 {
		p.pts = r.Bits(32)
	}
	if p.ptsdts == 3 {
		p.dts = r.Bits(32)
	}
	if !o.noExtras {
		p.escr, p.esRate, p.trick, p.copyInfo, p.crc = r.P(1, 4), r.P(1, 4), r.P(1, 4), r.P(1, 4), r.P(1, 4)
		if r.P(1, 2) {
			e := &pesExt{priv: r.P(1, 3), packHdr: r.P(1, 4), seq: r.P(1, 4), pstd: r.P(1, 2), ext2: r.P(1, 4)}
			e.privData = r.Bytes(16)
			if e.packHdr {
				e.packHdrData = r.Bytes(r.In(0, []int{26, 26, 26, 160}[r.N(4)]))
			}
			e.seqData = r.Bits(16) | 0x8080
			e.scale, e.size = r.Bits(1), r.Bits(13)
			if e.ext2 {
				e.ext2Data = r.Bytes(r.In(0, min(200-len(e.packHdrData), []int{30, 30, 30, 127}[r.N(4)])))
			}
			p.ext = e
		}
	}
	p.stuffing = 0
	if r.P(1, 2) {
		p.stuffing = r.N(33)
	}
	switch {
	case r.P(1, 30):
		p.stuffing = 100
	case r.P(1, 30): // the largest header there can be, or nearly
		p.stuffing = max(0, 255-len(p.optional())-r.N(3)*r.N(2))
	}
}

// optional encodes the optional fields.
func (p *pesPkt) optional() []byte {
	w := &BW{}
	h := (p.pts+p.dts)*0x9e3779b97f4a7c15 + 12345 // content of skipped fields
	junk := func(n uint) { h = mix64(h + 1); w.Put(n, h) }
	switch p.ptsdts {
	case 2:
		putTS(w, 2, p.pts)
	case 3:
		putTS(w, 3, p.pts)
		putTS(w, 1, p.dts)
	}
	if p.escr {
		junk(2)
		junk(3)
		w.Put(1, 1)
		junk(15)
		w.Put(1, 1)
		junk(15)
		w.Put(1, 1)
		junk(9)
		w.Put(1, 1)
	}
	if p.esRate {
		w.Put(1, 1)
		junk(22)
		w.Put(1, 1)
	}
	if p.trick {
		junk(8)
	}
	if p.copyInfo {
		w.Put(1, 1)
		junk(7)
	}
	if p.crc {
		junk(16)
	}
	if e := p.ext; e != nil {
		w.Flag(e.priv)
		w.Flag(e.packHdr)
		w.Flag(e.seq)
		w.Flag(e.pstd)
		junk(3)
		w.Flag(e.ext2)
		if e.priv {
			w.Raw(e.privData)
		}
		if e.packHdr {
			w.Put(8, uint64(len(e.packHdrData)))
			w.Raw(e.packHdrData)
		}
		if e.seq {
			w.Put(16, e.seqData)
		}
		if e.pstd {
			w.Put(2, 1)
			w.Put(1, e.scale)
			w.Put(13, e.size)
		}
		if e.ext2 {
			w.Put(1, 1)
			w.Put(7, uint64(len(e.ext2Data)))
			w.Raw(e.ext2Data)
		}
	}
	return w.Bytes()
}

// setPayload encodes the packet with this payload.
func (p *pesPkt) setPayload(b []byte) {
	w := &BW{}
	w.Put(24, 1)
	w.Put(8, uint64(p.id))
	if !p.hasHeader {
		p.length = len(b)
		w.Put(16, uint64(len(b)))
		p.hdrEnd = w.Len()
		w.Raw(b)
		p.body = b
		if p.id != 0xbe {
			p.payload = b
		}
		p.raw = w.Bytes()
		return
	}
	p.payload = b
	opt := p.optional()
	for len(opt)+p.stuffing > 255 {
		p.stuffing = 0
		if len(opt) > 255 {
			panic("pesgen: header too long")
		}
	}
	p.hdl = len(opt) + p.stuffing
	p.length = 3 + p.hdl + len(b)
	if p.unbounded || p.length > 65535 {
		p.unbounded = true
		p.length = 0
	}
	w.Put(16, uint64(p.length))
	w.Put(2, 2)
	w.Put(2, p.scr)
	for _, f := range []bool{p.prio, p.align, p.copyr, p.org} {
		w.Flag(f)
	}
	w.Put(2, p.ptsdts)
	for _, f := range []bool{p.escr, p.esRate, p.trick, p.copyInfo, p.crc, p.ext != nil} {
		w.Flag(f)
	}
	w.Put(8, uint64(p.hdl))
	w.Raw(opt)
	w.Raw(bytes.Repeat([]byte{0xff}, p.stuffing))
	p.hdrEnd = w.Len()
	w.Raw(b)
	p.raw = w.Bytes()
}

func (p *pesPkt) String() string {
	s := fmt.Sprintf("{stream %02x length %d payload %d", p.id, p.length, len(p.payload))
	if p.hasHeader {
		s += fmt.Sprintf(" ptsdts %d escr %v rate %v trick %v info %v crc %v hdl %d stuffing %d", p.ptsdts, p.escr, p.esRate, p.trick, p.copyInfo, p.crc, p.hdl, p.stuffing)
		if p.ext != nil {
			s += fmt.Sprintf(" ext{priv %v pack %v seq %v pstd %v ext2 %v}", p.ext.priv, p.ext.packHdr, p.ext.seq, p.ext.pstd, p.ext.ext2)
		}
	}
	return s + "}"
}

func (p *pesPkt) match(g *pes.Packet) string {
	if g.StreamID != p.id {
		return fmt.Sprintf("StreamID %02x, coded %02x", g.StreamID, p.id)
	}
	if int(g.PacketLength) != p.length {
		return fmt.Sprintf("PacketLength %d, coded %d", g.PacketLength, p.length)
	}
	if (g.Header != nil) != p.hasHeader {
		return fmt.Sprintf("header reported %v, coded %v", g.Header != nil, p.hasHeader)
	}
	if h := g.Header; h != nil {
		a := fmt.Sprint(h.ScramblingControl, h.Priority, h.DataAlignmentIndicator, h.Copyright, h.OrignalOrCopy, h.PtsDtsFlags,
			h.EscrFlag, h.EsRateFlag, h.DsmTrickModeFlag, h.AdditionalCopyInfoFlag, h.CrcFlag, h.ExtensionFlag, h.HeaderDataLength)
		b := fmt.Sprint(p.scr, p.prio, p.align, p.copyr, p.org, p.ptsdts, p.escr, p.esRate, p.trick, p.copyInfo, p.crc, p.ext != nil, p.hdl)
		if a != b {
			return fmt.Sprintf("header fields %s, coded %s", a, b)
		}
		if uint64(h.PresentationTimeStamp) != p.pts {
			return fmt.Sprintf("PresentationTimeStamp %d, coded %d", h.PresentationTimeStamp, p.pts)
		}
		if uint64(h.DecodingTimeStamp) != p.dts {
			return fmt.Sprintf("DecodingTimeStamp %d, coded %d", h.DecodingTimeStamp, p.dts)
		}
		if (h.Extension != nil) != (p.ext != nil) {
			return fmt.Sprintf("extension reported %v, coded %v", h.Extension != nil, p.ext != nil)
		}
		if e, w := h.Extension, p.ext; e != nil {
			a := fmt.Sprint(e.PrivateDataFlag, e.PackHeaderFieldFlag, e.ProgramPacketSequenceCounterFlag, e.P_STD_BufferFlag, e.ExtensionFlag2)
			b := fmt.Sprint(w.priv, w.packHdr, w.seq, w.pstd, w.ext2)
			if a != b {
				return fmt.Sprintf("extension flags %s, coded %s", a, b)
			}
			if w.priv && !bytes.Equal(e.PrivateData, w.privData) {
				return "extension private data: " + firstDiff(e.PrivateData, w.privData)
			}
			if !w.priv && len(e.PrivateData) != 0 {
				return "extension private data reported, none coded"
			}
			if (e.P_STD_Buffer != nil) != w.pstd {
				return fmt.Sprintf("P-STD buffer reported %v, coded %v", e.P_STD_Buffer != nil, w.pstd)
			}
			if w.pstd && (uint64(e.P_STD_Buffer.Scale) != w.scale || uint64(e.P_STD_Buffer.Size) != w.size) {
				return fmt.Sprintf("P-STD buffer %d/%d, coded %d/%d", e.P_STD_Buffer.Scale, e.P_STD_Buffer.Size, w.scale, w.size)
			}
		}
	}
	if !bytes.Equal(g.Payload, p.payload) {
		return "payload: " + firstDiff(g.Payload, p.payload)
	}
	return ""
}

// ---- program stream ----

type psStream struct {
	id    uint64
	scale bool
	size  uint64
}

type psSys struct {
	rate, audio, video       uint64
	fixed, csps, al, vl, prr bool
	streams                  []psStream
}

type psPack struct {
	scrB, scrE, mux uint64
	stuffing        int
	sys             *psSys
	packets         []*pesPkt
	hdr             []byte
	markers         []int // bit offsets of marker bits in hdr
}

func genPack(r *R, npk int, o pesOpt) *psPack {
	p := &psPack{scrB: r.Bits(32), scrE: uint64(r.Bits(9)), mux: r.Bits(22), stuffing: r.N(8)}
	if r.P(1, 2) {
		p.stuffing = 0
	}
	if r.P(1, 3) {
		s := &psSys{rate: r.Bits(22), audio: r.Bits(6), video: r.Bits(5), fixed: r.Bool(), csps: r.Bool(), al: r.Bool(), vl: r.Bool(), prr: r.Bool()}
		n := r.N(5)
		if r.P(1, 20) {
			n = r.N(40)
			if r.P(1, 12) {
				n = r.N(1000)
			}
		}
		for i := 0; i < n; i++ {
			id := []uint64{0xb8, 0xb9, uint64(r.In(0xbc, 0xff))}[r.N(3)]
			s.streams = append(s.streams, psStream{id, r.Bool(), r.Bits(13)})
		}
		p.sys = s
	}
	for i := 0; i < npk; i++ {
		p.packets = append(p.packets, genPES(r, o))
	}
	p.encode(r)
	return p
}

func (p *psPack) encode(r *R) {
	w := &BW{}
	p.markers = nil
	mark := func() { p.markers = append(p.markers, w.Len()*8+int(w.n)); w.Put(1, 1) }
	w.Put(32, 0x1ba)
	p.markers = append(p.markers, w.Len()*8, w.Len()*8+1)
	w.Put(2, 1)
	w.Put(3, p.scrB>>30)
	mark()
	w.Put(15, p.scrB>>15)
	mark()
	w.Put(15, p.scrB)
	mark()
	w.Put(9, p.scrE)
	mark()
	w.Put(22, p.mux)
	mark()
	mark()
	w.Put(5, r.Bits(5))
	w.Put(3, uint64(p.stuffing))
	for i := 0; i < p.stuffing; i++ {
		w.Put(8, 0xff)
	}
	if s := p.sys; s != nil {
		w.Put(32, 0x1bb)
		w.Put(16, uint64(6+3*len(s.streams)))
		mark()
		w.Put(22, s.rate)
		mark()
		w.Put(6, s.audio)
		w.Flag(s.fixed)
		w.Flag(s.csps)
		w.Flag(s.al)
		w.Flag(s.vl)
		mark()
		w.Put(5, s.video)
		w.Flag(s.prr)
		w.Put(7, 0x7f)
		for _, st := range s.streams {
			w.Put(8, st.id)
			p.markers = append(p.markers, w.Len()*8+int(w.n), w.Len()*8+int(w.n)+1)
			w.Put(2, 3)
			w.Flag(st.scale)
			w.Put(13, st.size)
		}
	}
	p.hdr = w.Bytes()
}

func (p *psPack) raw() []byte {
	b := append([]byte{}, p.hdr...)
	for _, q := range p.packets {
		b = append(b, q.raw...)
	}
	return b
}

func (p *psPack) String() string {
	s := fmt.Sprintf("{scr %d/%d mux %d stuffing %d", p.scrB, p.scrE, p.mux, p.stuffing)
	if p.sys != nil {
		s += fmt.Sprintf(" sys %d streams", len(p.sys.streams))
	}
	return s + fmt.Sprintf(" %d packets}", len(p.packets))
}

var psEnd = []byte{0, 0, 1, 0xb9}

func joinPS(packs []*psPack, end bool) (b []byte, payload []byte) {
	for _, p := range packs {
		b = append(b, p.raw()...)
		for _, q := range p.packets {
			payload = append(payload, q.payload...)
		}
	}
	if end {
		b = append(b, psEnd...)
	}
	return
}
