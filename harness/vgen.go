package main

// Random legal video streams.

type vOpt struct {
	minMBW, maxMBW int
	minMBH, maxMBH int
	pics           int // coded pictures per sequence (about)
	types          int // 1: I only, 2: I and P, 3: I, P and B
	prog           int // -1 random, 0 interlaced, 1 progressive
	fpfd           int // -1 random, 0, 1 (1: frame prediction and frame DCT only)
	conceal        int // -1 random
	fieldMC        bool
	density        int  // coefficients: 0 sparse .. 3 dense
	extremes       bool // extreme levels, codes and vectors
	gopHeaders     int  // -1 random, 0 only the first, 1 always
	qm             bool // matrices
	nopel          bool // integer vectors only (zero)
	exactBias      bool // many blocks without residual
	exactSize      bool // both sizes mostly whole macroblocks
	sliceStyle     int  // -1 random, 0 one per row, 1 many
	maxB           int
	tall           bool
	noGOPAtAll     bool
	repSeq         bool // repeat the sequence header with other matrices
	eos            int  // -1 random, 0 never, 1 always
	bigF           bool // large ranges of vectors
	dcWide         bool // DC coefficients that differ much
	skips          bool // skip runs of notable lengths
}

func defaultOpt() vOpt {
	return vOpt{minMBW: 1, maxMBW: 5, minMBH: 1, maxMBH: 4, pics: 6, types: 3, prog: -1, fpfd: -1,
		conceal: -1, density: 1, fieldMC: true, gopHeaders: -1, sliceStyle: -1, maxB: 3, eos: 1}
}

type vGen struct {
	r *R
	o vOpt
	s *vStream
}

func (g *vGen) tri(v int, num, den int) bool {
	if v >= 0 {
		return v == 1
	}
	return g.r.P(num, den)
}

func genMatrix(r *R) *[64]int {
	var m [64]int
	style := r.N(4)
	for i := range m {
		switch style {
		case 0:
			m[i] = r.In(8, 40)
		case 1:
			m[i] = r.In(1, 255)
		case 2:
			m[i] = 16 + i
		case 3:
			m[i] = 16
		}
	}
	if style == 3 {
		m[r.N(64)] = r.In(1, 255)
	}
	return &m
}

// pairMatrix draws a non-intra matrix to stand beside the intra matrix m: now
// and then the same one, or one that differs in a single value.
func pairMatrix(r *R, m *[64]int) *[64]int {
	if m == nil || !r.P(1, 4) {
		return genMatrix(r)
	}
	n := *m
	if r.P(1, 3) {
		n[r.In(1, 63)] = r.In(1, 255)
	}
	return &n
}

func (g *vGen) seq() *vSeq {
	r := g.r
	s := &vSeq{
		aspect: r.In(1, 4), frate: r.In(1, 8), bitrate: r.In(1, 1<<30-1), vbv: r.In(0, 1<<18-1),
		profile: 0x48, chroma: 1, frN: r.N(4), frD: r.N(32),
	}
	s.prog = g.tri(g.o.prog, 1, 2)
	mw, mh := r.In(g.o.minMBW, g.o.maxMBW), r.In(g.o.minMBH, g.o.maxMBH)
	s.w = mw*16 - r.N(16)
	if r.P(1, 3) || s.w > 16383 || g.o.exactSize && r.P(3, 4) {
		s.w = min(mw*16, 16383)
	}
	s.h = mh*16 - r.N(16)
	if r.P(1, 3) || s.h > 16383 || g.o.exactSize && r.P(3, 4) {
		s.h = min(mh*16, 16383)
	}
	if !s.prog && s.h > 2784 && s.h <= 2800 {
		s.h = 2801 // the last row would need a slice position that does not exist
	}
	if g.o.qm {
		if r.Bool() {
			s.intraM = genMatrix(r)
			s.intraM[0] = 8 // 6.3.11: the first value shall be 8
		}
		if r.Bool() {
			s.nonIntraM = pairMatrix(r, s.intraM)
		}
	}
	return s
}

// genVideo makes one sequence with a full group structure.
func genVideo(r *R, o vOpt) *vStream {
	g := &vGen{r: r, o: o, s: &vStream{}}
	g.sequence()
	return g.s
}

// genVideos makes several sequences, each ended.
func genVideos(r *R, n int, o vOpt) *vStream {
	g := &vGen{r: r, o: o, s: &vStream{}}
	for i := 0; i < n; i++ {
		g.o = o
		g.o.eos = 1
		g.sequence()
	}
	return g.s
}

func (g *vGen) sequence() {
	r := g.r
	seq := g.seq()
	if g.o.types < 3 {
		seq.lowDelay = r.Bool()
	}
	g.s.elems = append(g.s.elems, &vElem{seq: seq})
	type anchor struct{ idx int }
	prevAnchor, lastAnchor := -1, -1 // coding indices
	base := len(g.s.order)           // display base of the sequence
	disp := 0                        // pictures displayed so far (coded order bookkeeping)
	gopBase := 0                     // display position at which temporal references restart
	total := r.In(1, g.o.pics)
	if g.o.pics > 30 {
		total = g.o.pics
	}
	coded := 0
	first := true
	var display []int
	for coded < total {
		isI := first || r.P(1, 4) || g.o.types == 1
		nb := 0
		if g.o.types == 3 {
			nb = r.N(g.o.maxB + 1)
		}
		if coded+1+nb > total {
			nb = total - coded - 1
		}
		gop := false
		closed := false
		if isI {
			if first {
				gop = !g.o.noGOPAtAll && (g.o.gopHeaders != -1 || r.P(3, 4))
				closed = true
			} else {
				gop = !g.o.noGOPAtAll && g.tri(g.o.gopHeaders, 1, 2)
				closed = r.Bool()
			}
		}
		if !gop && !first {
			closed = false
		}
		if g.o.repSeq && !first && r.Bool() {
			ns := *seq
			ns.intraM, ns.nonIntraM = nil, nil
			if r.Bool() {
				ns.intraM = genMatrix(r)
				ns.intraM[0] = 8
			}
			if r.Bool() {
				ns.nonIntraM = pairMatrix(r, ns.intraM)
			}
			g.s.elems = append(g.s.elems, &vElem{seq: &ns})
		}
		if gop {
			gopBase = disp
			tc := uint64(r.N(2))<<24 | uint64(r.N(24))<<19 | uint64(r.N(60))<<13 | 1<<12 | uint64(r.N(60))<<6 | uint64(r.N(60))
			if nb == 0 {
				closed = r.Bool()
			}
			// the flag says closed exactly when nothing refers to the previous group
			g.s.elems = append(g.s.elems, &vElem{gop: &vGOP{tc: tc, closed: closed,
				// the flag is about leading B pictures only
				broken: nb == 0 && r.P(1, 4)}})
		}
		typ := 2
		if isI {
			typ = 1
		}
		p := &vPic{typ: typ, seq: seq, fwdRef: -1, bwdRef: -1}
		if first && !gop && g.o.types > 1 && r.P(1, 8) {
			// a sequence that begins with a P picture made of intra macroblocks
			p.typ, p.intraOnly = 2, true
			typ = 1
		}
		p.tref = (disp + nb - gopBase) & 1023
		p.display = base + disp + nb
		if typ == 2 {
			p.fwdRef = lastAnchor
		}
		ai := len(g.s.pics)
		g.picture(p, false)
		g.s.pics = append(g.s.pics, p)
		g.s.elems = append(g.s.elems, &vElem{pic: p})
		prevAnchor, lastAnchor = lastAnchor, ai
		for b := 0; b < nb; b++ {
			q := &vPic{typ: 3, seq: seq, fwdRef: prevAnchor, bwdRef: lastAnchor}
			bwdOnly := closed && isI || prevAnchor < 0
			if bwdOnly {
				q.fwdRef = -1
			}
			q.tref = (disp - gopBase) & 1023
			q.display = base + disp
			disp++
			display = append(display, len(g.s.pics))
			g.picture(q, bwdOnly)
			g.s.pics = append(g.s.pics, q)
			g.s.elems = append(g.s.elems, &vElem{pic: q})
		}
		disp++
		display = append(display, ai)
		coded += 1 + nb
		first = false
	}
	g.s.order = append(g.s.order, display...)
	if g.tri(g.o.eos, 1, 2) {
		g.s.elems = append(g.s.elems, &vElem{eos: true})
	}
}

func (g *vGen) picture(p *vPic, bwdOnly bool) {
	r := g.r
	p.structure = 3
	p.vbvDelay = r.N(1 << 16)
	if p.seq.prog {
		p.fpfd, p.progFrame = true, true
	} else {
		p.fpfd = g.tri(g.o.fpfd, 1, 2)
		p.progFrame = p.fpfd && r.Bool() // a progressive frame implies frame prediction
		p.tff = r.Bool()
		p.rff = p.progFrame && r.P(1, 4)
	}
	p.c420 = p.progFrame
	p.conceal = g.tri(g.o.conceal, 1, 4)
	p.dcPrec = r.N(4)
	p.qtype, p.ivlc, p.altScan = r.N(2), r.N(2), r.N(2)
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			p.fcode[s][t] = 15
			used := s == 0 && (p.typ >= 2 || p.conceal) || s == 1 && p.typ == 3
			if used {
				p.fcode[s][t] = r.In(1, 4)
				if r.P(1, 3) {
					p.fcode[s][t] = r.In(1, 9)
				}
				if g.o.bigF && r.P(3, 4) {
					p.fcode[s][t] = r.In(5, 9)
				}
			}
		}
	}
	if g.o.qm && r.P(1, 3) {
		p.qm = &vQM{}
		for k := 0; k < 2; k++ {
			if r.Bool() {
				if k == 0 {
					p.qm.m[k] = genMatrix(r)
					p.qm.m[k][0] = 8
				} else {
					p.qm.m[k] = pairMatrix(r, p.qm.m[0])
				}
			}
		}
	}
	mbw, mbh := p.seq.mbW(), p.seq.mbH()
	style := g.o.sliceStyle
	if style < 0 {
		style = r.N(3)
	}
	for row := 0; row < mbh; row++ {
		for x := 0; x < mbw; {
			n := mbw - x
			if style == 1 {
				n = r.In(1, n)
			} else if style == 2 && r.P(1, 3) {
				n = r.In(1, n)
			}
			p.slices = append(p.slices, g.slice(p, row, x, n, bwdOnly))
			x += n
		}
	}
}

func (g *vGen) qscode() int {
	r := g.r
	if g.o.extremes {
		return r.In(1, 31)
	}
	if r.P(1, 4) {
		return r.In(1, 31)
	}
	return r.In(1, 6)
}

func (g *vGen) slice(p *vPic, row, x, n int, bwdOnly bool) *vSlice {
	r := g.r
	s := &vSlice{row: row, qsc: g.qscode()}
	if r.P(1, 6) {
		s.flag = true
		s.intra = p.typ == 1
		if r.Bool() {
			s.extra = r.Bytes(extraLen(r, 5))
		}
	}
	var last *vMB
	runs := r.P(1, 3) // long skip runs
	for i, run := 0, 0; i < n; i++ {
		if g.o.skips && run == 0 && r.P(1, 3) {
			// A run after which the increment is around what one escape codes.
			run = []int{1, 31, 32, 33, 34, 64, 65, 66, 67, 98, 99}[r.N(11)]
		}
		if run > 0 {
			run--
			if i > 0 && i < n-1 && p.typ != 1 && !p.intraOnly && (p.typ == 2 || !last.intra && g.fits(p, row, x+i, last)) {
				s.mbs = append(s.mbs, &vMB{x: x + i, skipped: true})
				continue
			}
			run = 0
		}
		if i > 0 && i < n-1 && p.typ != 1 && !p.intraOnly && (p.typ == 2 || !last.intra) {
			if runs && r.P(9, 10) || !runs && r.P(1, 4) {
				// a skipped B macroblock repeats the last vectors: they must fit here too
				if p.typ == 2 || g.fits(p, row, x+i, last) {
					s.mbs = append(s.mbs, &vMB{x: x + i, skipped: true})
					continue
				}
			}
		}
		mb := g.mb(p, row, x+i, bwdOnly)
		// Intra macroblocks on both sides of a run show whether the DC predictors survived it.
		for k := 0; k < 8 && g.o.skips && !mb.intra && i > 0 && s.mbs[i-1].skipped && last.intra; k++ {
			mb = g.mb(p, row, x+i, bwdOnly)
		}
		s.mbs = append(s.mbs, mb)
		last = mb
	}
	return s
}

// fits: does the repeated prediction of a skipped B macroblock stay inside?
func (g *vGen) fits(p *vPic, row, x int, last *vMB) bool {
	v := last.skipMV()
	for s := 0; s < 2; s++ {
		if s == 0 && last.fwd || s == 1 && last.bwd {
			lo, hi := mvRange(p, row, x, s, false)
			for t := 0; t < 2; t++ {
				if v[s][t] < lo[t] || v[s][t] > hi[t] {
					return false
				}
			}
		}
	}
	return true
}

// mvRange is the range of a vector by f_code and by the reference picture.
func mvRange(p *vPic, row, x, s int, field bool) (lo, hi [2]int) {
	W, H := p.seq.mbW()*16, p.seq.mbH()*16
	lo = [2]int{-x * 32, -row * 32}
	hi = [2]int{(W - 16 - x*16) * 2, (H - 16 - row*16) * 2}
	if field {
		lo[1], hi[1] = lo[1]/2, hi[1]/2
	}
	for t := 0; t < 2; t++ {
		f := 1 << uint(p.fcode[s][t]-1)
		l, h := -16*f, 16*f-1
		if field && t == 1 {
			l, h = -8*f, 8*f-1
		}
		if lo[t] < l {
			lo[t] = l
		}
		if hi[t] > h {
			hi[t] = h
		}
	}
	return
}

func (g *vGen) vector(p *vPic, row, x, s int, field bool) (v [2]int) {
	r := g.r
	lo, hi := mvRange(p, row, x, s, field)
	for t := 0; t < 2; t++ {
		switch r.N(6) {
		case 0:
			v[t] = lo[t]
		case 1:
			v[t] = hi[t]
		case 2, 3:
			v[t] = r.In(lo[t], hi[t])
		case 4:
			v[t] = r.In(-3, 3)
		case 5:
			v[t] = 0
		}
		if g.o.nopel {
			v[t] = 0
		}
		if v[t] < lo[t] {
			v[t] = lo[t]
		}
		if v[t] > hi[t] {
			v[t] = hi[t]
		}
	}
	return
}

func (g *vGen) mb(p *vPic, row, x int, bwdOnly bool) *vMB {
	r := g.r
	mb := &vMB{x: x, motion: 2, altDelta: r.Bool()}
	var fl mbFlags
	for {
		fl = mbFlags{}
		if p.typ == 1 || p.intraOnly || r.P(1, 6) || g.o.skips && r.P(1, 3) {
			fl.intra = true
			fl.quant = r.P(1, 3)
		} else {
			fl.fwd = r.P(2, 3)
			if p.typ == 3 {
				fl.bwd = r.P(2, 3)
				if bwdOnly {
					fl.fwd, fl.bwd = false, true
				}
			}
			fl.pattern = r.P(1, 2)
			if g.o.exactBias {
				fl.pattern = r.P(1, 5)
			}
			fl.quant = fl.pattern && r.P(1, 3)
		}
		if _, ok := mbTypeVLC[p.typ][fl]; ok {
			break
		}
	}
	mb.intra, mb.fwd, mb.bwd, mb.pattern = fl.intra, fl.fwd, fl.bwd, fl.pattern
	if fl.quant {
		mb.quant = g.qscode()
	}
	if !p.fpfd && g.o.fieldMC && (mb.fwd || mb.bwd) && r.Bool() {
		mb.motion = 1
	}
	if !p.fpfd && (mb.intra || mb.pattern) {
		mb.fieldDCT = r.Bool()
	}
	for s := 0; s < 2; s++ {
		if s == 0 && mb.fwd || s == 1 && mb.bwd {
			if mb.motion == 1 {
				for k := 0; k < 2; k++ {
					mb.mv[k][s] = g.vector(p, row, x, s, true)
					mb.fsel[k][s] = r.N(2)
				}
			} else {
				mb.mv[0][s] = g.vector(p, row, x, s, false)
			}
		}
	}
	if mb.intra && p.conceal {
		// not used for prediction, but must be legal
		mb.cmv = g.vector(p, row, x, 0, false)
	}
	if mb.pattern {
		mb.cbp = r.In(1, 63)
	}
	mb.forceEsc = false
	for i := 0; i < 6; i++ {
		coded := mb.intra || mb.pattern && mb.cbp&(1<<uint(5-i)) != 0
		if coded {
			g.block(p, mb, i)
		}
	}
	return mb
}

func (g *vGen) block(p *vPic, mb *vMB, i int) {
	r := g.r
	n := 0
	if mb.intra {
		max := 1<<uint(8+p.dcPrec) - 1
		switch {
		case g.o.dcWide && r.P(7, 8): // far apart, but not where samples clip
			mb.dc[i] = r.In(max/12, max/2)
			if r.Bool() {
				mb.dc[i] = max - mb.dc[i]
			}
		case g.o.extremes && r.P(1, 6):
			mb.dc[i] = max * r.N(2)
		case r.P(1, 8):
			mb.dc[i] = r.In(0, max)
		default:
			mb.dc[i] = r.In(max/4, max*3/4)
		}
		n = 1
	}
	var k int
	switch g.o.density {
	case 0:
		k = r.N(3)
	case 1:
		k = r.N(8)
	case 2:
		k = r.N(24)
	default:
		k = r.N(65)
	}
	if r.P(1, 12) {
		k = 64
	}
	tab := dctTabs[0]
	if mb.intra && p.ivlc == 1 {
		tab = dctTabs[1]
	}
	for j := 0; j < k && n < 64; j++ {
		var c coef
		switch r.N(8) {
		case 0, 1, 2:
			rl := tab.list[r.N(len(tab.list))]
			c = coef{rl.run, rl.level}
		case 3:
			c = coef{r.N(64), r.In(1, 3)}
		case 4:
			c = coef{0, r.In(1, 60)}
		default:
			c = coef{r.N(4), 1}
		}
		if g.o.extremes && r.P(1, 12) {
			c.level = []int{2047, 1024, 255, 127, 128, 256, 41, 2046}[r.N(8)]
		}
		if k > 40 {
			c.run = 0
		}
		if n+c.run > 63 {
			if r.Bool() {
				break
			}
			c.run = 63 - n
		}
		if r.Bool() {
			c.level = -c.level
		}
		n += c.run + 1
		mb.blk[i] = append(mb.blk[i], c)
	}
	if !mb.intra && len(mb.blk[i]) == 0 {
		mb.blk[i] = []coef{{r.N(64), r.In(1, 4)}}
	}
}

// toLimit changes blocks so that one of their coefficients comes out around
// the end of the range of coefficients. The stream must have been encoded
// once, so that the quantiser scales are known.
func (s *vStream) toLimit(r *R) {
	var qm *vQMState
	for _, e := range s.elems {
		if e.seq != nil {
			qm = newQMState(e.seq)
		}
		p := e.pic
		if p == nil {
			continue
		}
		if p.qm != nil {
			qm.load(p.qm)
		}
		for _, sl := range p.slices {
			for _, mb := range sl.mbs {
				for i := range mb.blk {
					if mb.skipped || !mb.intra && (!mb.pattern || mb.cbp&(1<<uint(5-i)) == 0) || r.P(1, 4) {
						continue
					}
					w, first, k := 1, 0, 1
					if mb.intra {
						w, first, k = 0, 1, 0
					}
					qs := quantScale(p.qtype, mb.usedQscale)
					for try := 0; try < 20; try++ {
						n := r.In(first, 63)
						if r.Bool() { // in one row or column less comes of it
							n = []int{1, 2, 3, 5, 9, 14}[r.N(6)]
						}
						pos := scans[p.altScan][n]
						W := qm.m[w][pos]
						want := r.In(2046, 2050)
						q := (want*32/(W*qs)-k)/2 + r.N(2)
						v := (2*q + k) * W * qs / 32
						if q < 1 || q > 2047 || v < 2046 || v > 2050 {
							continue
						}
						if r.Bool() {
							q = -q
						}
						mb.blk[i] = []coef{{n - first, q}}
						// More coefficients, so that rounding is different everywhere.
						for left := 63 - n; left > 0 && len(mb.blk[i]) < 6; {
							run := r.N(min(left, 9))
							mb.blk[i] = append(mb.blk[i], coef{run, r.In(1, 3) * (2*r.N(2) - 1)})
							left -= run + 1
						}
						break
					}
				}
			}
		}
	}
}
