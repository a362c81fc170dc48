package main

// The semantic model of an MPEG-2 video elementary stream and its encoder.
// Motion vectors, coefficients and DC levels are kept as the values the
// decoding process must arrive at; prediction (of vectors, of DC levels, of
// quantiser scales) happens only here, while writing.

type vSeq struct {
	w, h        int
	aspect      int
	frate       int
	bitrate     int // 30 bits
	vbv         int // 18 bits
	constrained bool
	intraM      *[64]int // raster order; nil: not loaded
	nonIntraM   *[64]int
	profile     int
	prog        bool
	chroma      int
	lowDelay    bool
	frN, frD    int
}

func (s *vSeq) mbW() int { return (s.w + 15) / 16 }
func (s *vSeq) mbH() int {
	if s.prog {
		return (s.h + 15) / 16
	}
	return 2 * ((s.h + 31) / 32)
}

type vGOP struct {
	tc     uint64 // 25 bits
	closed bool
	broken bool
}

// vQM is a quant matrix extension (raster order; nil: not loaded).
type vQM struct {
	m [4]*[64]int // intra, non-intra, chroma intra, chroma non-intra
}

type coef struct{ run, level int }

type vMB struct {
	x          int
	intra      bool
	fwd, bwd   bool
	pattern    bool
	quant      int // 0: none
	fieldDCT   bool
	motion     int          // frame_motion_type: 2 frame, 1 field, 3 dual prime
	mv         [2][2][2]int // [r][s][t], what the decoder must arrive at
	fsel       [2][2]int
	cmv        [2]int // concealment vector
	cbp        int
	dc         [6]int // intra: absolute quantised DC level
	blk        [6][]coef
	skipped    bool // not coded: skipped macroblock
	altDelta   bool // use the other representation of extreme deltas
	forceEsc   bool // code everything by escapes
	stuffEsc   int  // unused (MPEG-1 stuffing does not exist in MPEG-2)
	overrun    bool // hostile: run past the end of the block
	usedQscale int
}

type vSlice struct {
	row   int
	qsc   int
	extra []byte
	flag  bool // intra_slice_flag and what it brings
	intra bool
	mbs   []*vMB // in increasing x, including skipped ones (never first or last)
}

type vPic struct {
	typ       int // 1 I, 2 P, 3 B
	tref      int
	vbvDelay  int
	extra     []byte
	fcode     [2][2]int
	dcPrec    int
	structure int
	tff       bool
	fpfd      bool
	conceal   bool
	qtype     int
	ivlc      int
	intraOnly bool
	altScan   int
	rff       bool
	c420      bool
	progFrame bool
	composite *[5]int // v_axis, field_sequence, sub_carrier, burst_amplitude, phase
	qm        *vQM
	slices    []*vSlice

	display int // position in display order of the whole stream
	fwdRef  int // index (coding order) of the picture predicted from, -1
	bwdRef  int
	seq     *vSeq

	off, end int // byte range in the stream, filled by the encoder
}

// vElem is one element of the stream in coding order.
type vElem struct {
	seq  *vSeq
	rep  bool // repeated sequence header
	gop  *vGOP
	pic  *vPic
	eos  bool
	raw  []byte
	ruds [][]byte // user data after this element
}

type vStream struct {
	elems []*vElem
	pics  []*vPic // coding order
	order []int   // display position -> coding index
	data  []byte
	offs  []int // byte offset of every element

	motionCodes []int // codes used, by the last encoding
	wrapped     int
	wraps       [4][9][2]bool
}

// Dressing: optional syntax that must not change the pictures.
type vDress struct {
	r      *R
	counts map[string]int
	only   map[string]bool
}

func (d *vDress) hit(k string, num, den int) bool {
	if d == nil || d.only != nil && !d.only[k] || !d.r.P(num, den) {
		return false
	}
	d.counts[k]++
	return true
}

const (
	scPicture  = 0x00
	scUser     = 0xB2
	scSeq      = 0xB3
	scExt      = 0xB5
	scSeqEnd   = 0xB7
	scGroup    = 0xB8
	idSeq      = 1
	idDisplay  = 2
	idQuant    = 3
	idCopy     = 4
	idScalable = 5
	idPicDisp  = 7
	idPicCode  = 8
	idSpatial  = 9
	idTemporal = 10
)

type vEnc struct {
	BW
	d     *vDress
	seq   *vSeq
	qm    *vQMState
	disp  bool
	mc    [9][33]bool
	wrap  int
	wraps [4][9][2]bool

	loose bool // write what is asked for, even if no decoder can read it
	inj   *vInject
	row   int // of the slice being written
}

func (w *vEnc) start(code uint64) {
	w.Align()
	if w.d.hit("stuffing", 1, 4) {
		for i := w.d.r.In(1, 5); i > 0; i-- {
			w.Put(8, 0)
		}
		if w.d.r.P(1, 30) {
			w.Raw(make([]byte, w.d.r.In(100, 5000)))
		}
	}
	w.Put(32, 0x100|code)
}

func putMatrix(w *BW, m *[64]int) {
	for k := 0; k < 64; k++ {
		w.Put(8, uint64(m[zigzag[k]]))
	}
}

func (w *vEnc) writeSeq(s *vSeq) {
	w.start(scSeq)
	w.seq = s
	w.Put(12, uint64(s.w&0xfff))
	w.Put(12, uint64(s.h&0xfff))
	w.Put(4, uint64(s.aspect))
	w.Put(4, uint64(s.frate))
	w.Put(18, uint64(s.bitrate&0x3ffff))
	w.marker("sequence header marker")
	w.Put(10, uint64(s.vbv&0x3ff))
	w.Flag(s.constrained)
	w.Flag(s.intraM != nil)
	if s.intraM != nil {
		putMatrix(&w.BW, s.intraM)
	}
	w.Flag(s.nonIntraM != nil)
	if s.nonIntraM != nil {
		putMatrix(&w.BW, s.nonIntraM)
	}
	w.start(scExt)
	w.Put(4, idSeq)
	w.Put(8, uint64(s.profile))
	w.Flag(s.prog)
	w.bad("chroma format", func() { w.Put(2, 0) }, func() { w.Put(2, uint64(s.chroma)) })
	w.Put(2, uint64(s.w>>12))
	w.Put(2, uint64(s.h>>12))
	w.Put(12, uint64(s.bitrate>>18))
	w.marker("sequence extension marker")
	w.Put(8, uint64(s.vbv>>10))
	w.Flag(s.lowDelay)
	w.Put(2, uint64(s.frN))
	w.Put(5, uint64(s.frD))
	w.Align()
	w.qm = newQMState(s)
	w.user()
	w.disp = false
	if w.d.hit("sequence_display", 1, 3) {
		w.disp = true
		w.start(scExt)
		w.Put(4, idDisplay)
		w.Put(3, w.d.r.Bits(3))
		if w.d.r.Bool() {
			w.Put(1, 1)
			w.Put(8, uint64(w.d.r.In(1, 255)))
			w.Put(8, uint64(w.d.r.In(1, 255)))
			w.Put(8, uint64(w.d.r.In(1, 255)))
		} else {
			w.Put(1, 0)
		}
		w.Put(14, w.d.r.Bits(14))
		w.marker("sequence display marker")
		w.Put(14, w.d.r.Bits(14))
		w.Align()
		w.user()
	}
}

// userBytes never contain a start code prefix and never end in zero.
// extraLen is how long extra information is: there is no limit to it.
func extraLen(r *R, n int) int {
	switch {
	case r.P(1, 100):
		return r.In(250, 1200)
	case r.P(1, 12):
		return r.In(n, 60)
	}
	return r.In(1, n)
}

func userBytes(r *R) []byte {
	n := r.In(0, 20)
	if r.P(1, 10) {
		n = r.In(21, 600)
	}
	if r.P(1, 500) {
		n = r.In(65000, 70000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.In(0, 255))
		if b[i] == 0 && (i == n-1 || i == 0 || b[i-1] == 0) {
			b[i] = byte(r.In(1, 255))
		}
	}
	return b
}

func (w *vEnc) user() {
	for w.d.hit("user_data", 1, 3) {
		w.start(scUser)
		w.Raw(userBytes(w.d.r))
	}
}

func (w *vEnc) writeGOP(g *vGOP) {
	w.start(scGroup)
	w.Put(25, g.tc)
	w.Flag(g.closed)
	w.Flag(g.broken)
	w.Align()
	w.user()
}

func (w *vEnc) writeQM(q *vQM) {
	w.start(scExt)
	w.Put(4, idQuant)
	for _, m := range q.m {
		w.Flag(m != nil)
		if m != nil {
			putMatrix(&w.BW, m)
		}
	}
	w.Align()
}

func (w *vEnc) writePicHeader(p *vPic) {
	w.start(scPicture)
	w.Put(10, uint64(p.tref))
	w.bad("picture type", func() { w.Put(3, uint64([]int{0, 5, 6, 7}[w.inj.r.N(4)])) }, func() { w.Put(3, uint64(p.typ)) })
	w.Put(16, uint64(p.vbvDelay))
	if p.typ == 2 || p.typ == 3 {
		w.Put(1, 0)
		w.Put(3, 7)
	}
	if p.typ == 3 {
		w.Put(1, 0)
		w.Put(3, 7)
	}
	extra := p.extra
	if w.d.hit("extra_picture", 1, 3) {
		extra = w.d.r.Bytes(extraLen(w.d.r, 12))
	}
	for _, b := range extra {
		w.Put(1, 1)
		w.Put(8, uint64(b))
	}
	w.Put(1, 0)
	w.Align()

	w.start(scExt)
	w.Put(4, idPicCode)
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			if w.inj != nil && p.uses(s) {
				w.bad("vector range code", func() { w.Put(4, uint64([]int{0, 10, 11, 12, 13, 14, 15}[w.inj.r.N(7)])) },
					func() { w.Put(4, uint64(p.fcode[s][t])) })
			} else {
				w.Put(4, uint64(p.fcode[s][t]))
			}
		}
	}
	w.Put(2, uint64(p.dcPrec))
	w.bad("picture structure", func() { w.Put(2, 0) }, func() { w.Put(2, uint64(p.structure)) })
	w.Flag(p.tff)
	w.Flag(p.fpfd)
	w.Flag(p.conceal)
	w.Put(1, uint64(p.qtype))
	w.Put(1, uint64(p.ivlc))
	w.Put(1, uint64(p.altScan))
	w.Flag(p.rff)
	w.Flag(p.c420)
	w.Flag(p.progFrame)
	comp := p.composite
	if w.d.hit("composite_display", 1, 3) {
		comp = &[5]int{w.d.r.N(2), w.d.r.N(8), w.d.r.N(2), w.d.r.N(128), w.d.r.N(256)}
	}
	w.Flag(comp != nil)
	if comp != nil {
		w.Put(1, uint64(comp[0]))
		w.Put(3, uint64(comp[1]))
		w.Put(1, uint64(comp[2]))
		w.Put(7, uint64(comp[3]))
		w.Put(8, uint64(comp[4]))
	}
	w.Align()

	if p.qm != nil {
		w.writeQM(p.qm)
		w.qm.load(p.qm)
	}
	w.user()
	if w.d != nil {
		var exts []int
		if w.d.hit("quant_matrix", 1, 3) {
			exts = append(exts, idQuant)
		}
		if w.d.hit("copyright", 1, 3) {
			exts = append(exts, idCopy)
		}
		if w.disp && w.d.hit("picture_display", 1, 2) {
			exts = append(exts, idPicDisp)
		}
		for _, i := range w.d.r.Perm(len(exts)) {
			switch exts[i] {
			case idQuant:
				// load what is in force anyway, or nothing
				var q vQM
				for k := 0; k < 2; k++ {
					if w.d.r.Bool() {
						m := w.qm.m[k]
						q.m[k] = &m
					}
				}
				w.writeQM(&q)
			case idCopy:
				w.start(scExt)
				w.Put(4, idCopy)
				w.Put(1, w.d.r.Bits(1))
				w.Put(8, w.d.r.Bits(8))
				w.Put(1, w.d.r.Bits(1))
				w.Put(7, 0)
				w.Put(1, 1)
				w.Put(20, w.d.r.Bits(20))
				w.Put(1, 1)
				w.Put(22, w.d.r.Bits(22))
				w.Put(1, 1)
				w.Put(22, w.d.r.Bits(22))
				w.Align()
			case idPicDisp:
				n := 1
				if w.seq.prog {
					if p.rff {
						n = 2
						if p.tff {
							n = 3
						}
					}
				} else if p.structure == 3 {
					n = 2
					if p.rff {
						n = 3
					}
				}
				w.start(scExt)
				w.Put(4, idPicDisp)
				for ; n > 0; n-- {
					w.Put(16, w.d.r.Bits(16))
					w.Put(1, 1)
					w.Put(16, w.d.r.Bits(16))
					w.Put(1, 1)
				}
				w.Align()
			}
			w.user()
		}
	}
}

type sliceState struct {
	p   *vPic
	dc  [3]int
	pmv [2][2][2]int
	qsc int
}

func (s *sliceState) resetDC() {
	for i := range s.dc {
		s.dc[i] = 1 << uint(7+s.p.dcPrec)
	}
}

func (s *sliceState) resetMV() { s.pmv = [2][2][2]int{} }

func (w *vEnc) writeSlice(p *vPic, s *vSlice) {
	tall := w.seq.h > 2800
	row := s.row
	w.row = row
	w.bad("slice row", func() {
		last := 174
		if tall {
			last = 7<<7 | 127
		}
		row = w.inj.near(w.seq.mbH(), last)
	}, nil)
	if tall {
		w.start(uint64(row&127) + 1)
		w.Put(3, uint64(row>>7))
	} else {
		w.start(uint64(row) + 1)
	}
	w.Put(5, uint64(s.qsc))
	flag, intra, extra := s.flag, s.intra, s.extra
	if !flag && w.d.hit("slice_extra", 1, 4) {
		flag = true
		intra = p.typ == 1
		if w.d.r.Bool() {
			extra = w.d.r.Bytes(extraLen(w.d.r, 6))
		}
	}
	if flag {
		w.Put(1, 1)
		w.Flag(intra)
		w.bad("slice reserved bits", func() {
			if w.inj.r.Bool() {
				w.Put(7, 1<<uint(w.inj.r.N(7)))
			} else {
				w.Put(7, uint64(w.inj.r.In(1, 127)))
			}
		}, func() { w.Put(7, 0) })
		for _, b := range extra {
			w.Put(1, 1)
			w.Put(8, uint64(b))
		}
	}
	w.Put(1, 0)
	st := &sliceState{p: p, qsc: s.qsc}
	st.resetDC()
	st.resetMV()
	prev := -1
	var last *vMB
	for _, mb := range s.mbs {
		if mb.skipped {
			continue
		}
		inc := mb.x - prev
		if inc > 1 {
			st.resetDC()
			if p.typ == 2 {
				st.resetMV()
			}
		}
		if w.inj != nil && w.inj.kind == "macroblock address" {
			w.bad("macroblock address", func() { inc = w.inj.near(w.seq.mbW(), w.seq.mbW()+70) - prev }, nil)
		}
		if w.inj != nil && w.inj.kind == "skipped vector outside" && p.typ == 3 && last != nil && !last.intra {
			var runs []int
			for n := 1; prev+n+1 < w.seq.mbW(); n++ {
				if !(*vGen)(nil).fits(p, s.row, prev+n, last) {
					runs = append(runs, n)
				}
			}
			if len(runs) > 0 {
				w.bad("skipped vector outside", func() { inc = runs[w.inj.r.N(len(runs))] + 1 }, nil)
			}
		}
		last = mb
		prev = mb.x
		for inc > 33 {
			w.VLC(mbaiEscape)
			inc -= 33
		}
		w.bad("macroblock address increment", func() { w.illegal(illegalMBAI) }, func() { w.VLC(mbaiVLC[inc-1]) })
		w.writeMB(st, mb)
	}
	w.Align()
}

func (w *vEnc) writeMB(st *sliceState, mb *vMB) {
	p := st.p
	code, ok := mbTypeVLC[p.typ][mbFlags{mb.quant != 0, mb.fwd, mb.bwd, mb.pattern, mb.intra}]
	if !ok {
		panic("vmodel: no such macroblock type")
	}
	w.bad("macroblock type", func() { w.illegal(illegalMBType[p.typ]) }, func() { w.VLC(code) })
	if (mb.fwd || mb.bwd) && p.structure == 3 && !p.fpfd {
		w.bad("motion type", func() { w.Put(2, 0) }, func() { w.Put(2, uint64(mb.motion)) })
	}
	if (mb.fwd || mb.bwd) && p.structure != 3 {
		w.Put(2, uint64(mb.motion))
	}
	if p.structure == 3 && !p.fpfd && (mb.intra || mb.pattern) {
		w.Flag(mb.fieldDCT)
	}
	if mb.quant != 0 {
		w.Put(5, uint64(mb.quant))
		st.qsc = mb.quant
	}
	mb.usedQscale = st.qsc
	if mb.fwd {
		w.writeVectors(st, mb, 0)
	}
	if mb.intra && p.conceal {
		w.writeVector(st, mb, 0, 0, mb.cmv, false)
		st.pmv[1][0] = st.pmv[0][0]
		w.Put(0, 0)
	}
	if mb.bwd {
		w.writeVectors(st, mb, 1)
	}
	if mb.intra && p.conceal {
		w.marker("concealment marker")
	}
	if mb.intra && !p.conceal {
		st.resetMV()
	}
	if p.typ == 2 && !mb.intra && !mb.fwd {
		st.resetMV()
	}
	if !mb.intra {
		st.resetDC()
	}
	if mb.pattern {
		w.bad("coded block pattern", func() { w.illegal(illegalCBP) }, func() { w.VLC(cbpVLC[mb.cbp]) })
		if w.seq.chroma == 2 {
			w.Put(2, 0)
		} else if w.seq.chroma == 3 {
			w.Put(6, 0)
		}
	}
	for i := 0; i < 6; i++ {
		if mb.intra {
			w.writeBlock(st, mb, i)
		} else if mb.pattern && mb.cbp&(1<<uint(5-i)) != 0 {
			w.writeBlock(st, mb, i)
		}
	}
	if mb.intra && w.seq.chroma > 1 {
		// the further chrominance blocks of 4:2:2 and 4:4:4: no difference, no coefficients
		tab := dctTabs[0]
		if p.ivlc == 1 {
			tab = dctTabs[1]
		}
		for i := 0; i < []int{0, 0, 2, 6}[w.seq.chroma]; i++ {
			w.VLC(dcSizeChroma[0])
			w.VLC(tab.eob)
		}
	}
}

func (w *vEnc) writeVectors(st *sliceState, mb *vMB, s int) {
	if mb.motion == 1 && !st.p.fpfd {
		for r := 0; r < 2; r++ {
			w.Put(1, uint64(mb.fsel[r][s]))
			w.writeVector(st, mb, r, s, mb.mv[r][s], true)
		}
		return
	}
	if mb.motion == 3 && !st.p.fpfd {
		// dual prime: zero differences, zero dmvectors
		w.Put(4, 0xa)
		st.pmv[0][s][1] = 2 * floorHalf(st.pmv[0][s][1])
		st.pmv[1][s] = st.pmv[0][s]
		return
	}
	w.writeVector(st, mb, 0, s, mb.mv[0][s], false)
	st.pmv[1][s] = st.pmv[0][s]
}

// floorHalf is DIV 2 towards minus infinity.
func floorHalf(v int) int {
	if v < 0 {
		return -((-v + 1) / 2)
	}
	return v / 2
}

func (w *vEnc) writeVector(st *sliceState, mb *vMB, r, s int, mv [2]int, field bool) {
	if w.inj != nil && w.inj.kind == "vector outside" && !mb.intra {
		if out, ok := w.inj.outside(w, st.p, mb, s, mv, field); ok {
			w.bad("vector outside", func() { mv = out; mb.mv[r][s] = out }, nil)
		}
	}
	for t := 0; t < 2; t++ {
		rs := uint(st.p.fcode[s][t] - 1)
		f := 1 << rs
		low, high := -16*f, 16*f-1
		pred := st.pmv[r][s][t]
		if field && t == 1 {
			pred = floorHalf(pred)
		}
		d := mv[t] - pred
		if d < low {
			d += 32 * f
		}
		if d > high {
			d -= 32 * f
		}
		if v := pred + d; v < low || v > high {
			w.wrap++
			w.wraps[s*2+t][rs][bit(v > high)] = true
		}
		if d < low || d > high {
			if !w.loose {
				panic("vmodel: vector out of range")
			}
			if d < low {
				d = low
			} else {
				d = high
			}
		}
		if d == low && mb.altDelta {
			d = 16 * f
		}
		if d == 0 {
			w.mc[rs][16] = true
			w.Put(1, 1)
		} else {
			a, sign := d, uint64(0)
			if a < 0 {
				a, sign = -a, 1
			}
			w.bad("motion code", func() { w.illegal(illegalMotion) }, func() { w.VLC(motionVLC[(a-1)>>rs]) })
			if sign == 1 {
				w.mc[rs][16-(1+(a-1)>>rs)] = true
			} else {
				w.mc[rs][16+(1+(a-1)>>rs)] = true
			}
			w.Put(1, sign)
			w.Put(rs, uint64((a-1)&(f-1)))
		}
		st.pmv[r][s][t] = mv[t]
		if field && t == 1 {
			st.pmv[r][s][t] = 2 * mv[t]
		}
	}
}

func (w *vEnc) writeBlock(st *sliceState, mb *vMB, i int) {
	cc := 0
	if i >= 4 {
		cc = i - 3
	}
	tab := dctTabs[0]
	first := true
	if mb.intra {
		d := mb.dc[i] - st.dc[cc]
		st.dc[cc] = mb.dc[i]
		a := d
		if a < 0 {
			a = -a
		}
		size := uint(0)
		for a>>size != 0 {
			size++
		}
		if cc == 0 {
			w.VLC(dcSizeLuma[size])
		} else {
			w.VLC(dcSizeChroma[size])
		}
		if d < 0 {
			d += 1<<size - 1
		}
		w.Put(size, uint64(d))
		first = false
		if st.p.ivlc == 1 {
			tab = dctTabs[1]
		}
	}
	for _, c := range mb.blk[i] {
		w.bad("coefficient", func() { w.illegal(illegalDCT[bit(tab == dctTabs[1])]) }, func() {})
		w.writeCoef(tab, c, first, mb.forceEsc)
		first = false
	}
	if mb.overrun {
		w.writeCoef(tab, coef{63, 5}, false, false)
	}
	w.bad("too many coefficients", func() {
		n := 0
		if mb.intra {
			n = 1
		}
		for _, c := range mb.blk[i] {
			n += c.run + 1
		}
		for n <= 64 {
			c := w.inj.coef(64 - n)
			w.writeCoef(tab, c, first, false)
			first = false
			n += c.run + 1
		}
	}, nil)
	w.bad("coefficient", func() { w.illegal(illegalDCT[bit(tab == dctTabs[1])]) }, func() { w.VLC(tab.eob) })
}

func (w *vEnc) writeCoef(tab *dctTab, c coef, first, esc bool) {
	a, sign := c.level, uint64(0)
	if a < 0 {
		a, sign = -a, 1
	}
	if first && c.run == 0 && a == 1 && !esc {
		w.Put(1, 1)
		w.Put(1, sign)
		return
	}
	if v, ok := tab.code[runLevel{c.run, a}]; ok && !esc {
		w.VLC(v)
		w.Put(1, sign)
		return
	}
	w.VLC(tab.esc)
	w.Put(6, uint64(c.run))
	w.Put(12, uint64(c.level)&0xfff)
}

// encode writes the stream; d adds optional syntax.
func (s *vStream) encode(d *vDress) []byte {
	w := &vEnc{d: d}
	return s.encodeTo(w)
}

func (s *vStream) encodeTo(w *vEnc) []byte {
	s.offs = nil
	for _, e := range s.elems {
		s.offs = append(s.offs, len(w.b))
		switch {
		case e.seq != nil:
			w.writeSeq(e.seq)
		case e.gop != nil:
			s.maybeRepeat(w)
			w.writeGOP(e.gop)
		case e.pic != nil:
			if e.pic.typ != 3 {
				s.maybeRepeat(w)
			}
			w.Align()
			e.pic.off = len(w.b)
			w.writePicHeader(e.pic)
			for _, sl := range e.pic.slices {
				w.writeSlice(e.pic, sl)
			}
			e.pic.end = len(w.b)
		case e.eos:
			w.start(scSeqEnd)
		case e.raw != nil:
			w.Align()
			w.Raw(e.raw)
		}
		for _, u := range e.ruds {
			w.start(scUser)
			w.Raw(u)
		}
	}
	w.Align()
	s.offs = append(s.offs, len(w.b))
	s.data = w.b
	s.motionCodes, s.wrapped = nil, w.wrap
	s.wraps = w.wraps
	for rs := range w.mc {
		for k, ok := range w.mc[rs] {
			if ok {
				s.motionCodes = append(s.motionCodes, rs*33+k)
			}
		}
	}
	return w.b
}

// maybeRepeat repeats the sequence header after a picture, where that leaves
// the matrices in force as they are.
func (s *vStream) maybeRepeat(w *vEnc) {
	if w.d == nil || w.seq == nil || len(s.offs) < 2 {
		return
	}
	if pe := s.elems[len(s.offs)-2]; pe.pic == nil || *w.qm != *newQMState(w.seq) {
		return
	}
	if w.d.hit("repeated_sequence_header", 1, 3) {
		w.writeSeq(w.seq)
	}
}

// vQMState follows which matrices are in force.
type vQMState struct{ m [4][64]int }

func newQMState(s *vSeq) *vQMState {
	q := &vQMState{}
	i, n := defIntra, defNonIntra
	if s.intraM != nil {
		i = *s.intraM
	}
	if s.nonIntraM != nil {
		n = *s.nonIntraM
	}
	q.m = [4][64]int{i, n, i, n}
	return q
}

func (q *vQMState) load(x *vQM) {
	for k := 0; k < 4; k++ {
		if x.m[k] != nil {
			q.m[k] = *x.m[k]
			if k < 2 {
				q.m[k+2] = *x.m[k]
			}
		}
	}
}
