package main

// Streams that are illegal in one respect and well-formed in all others: single
// syntax fields replaced while everything after them stays in its place, and
// models that say what no encoder may.

// fieldNoise is asked about every field that is written.
type fieldNoise struct {
	r       *R
	wide    int // one field of several bits in so many is damaged
	narrow  int // a flag, a bit
	code    int // a variable length code
	resize  bool
	damaged int
}

var putHook *fieldNoise

func (h *fieldNoise) field(n uint, v uint64) uint64 {
	if n == 0 {
		return v
	}
	k := h.wide
	if n == 1 {
		k = h.narrow
	}
	if k == 0 || h.r.N(k) != 0 {
		return v
	}
	h.damaged++
	mask := uint64(1)<<n - 1
	switch h.r.N(6) {
	case 0:
		return v ^ 1<<uint(h.r.N(int(n)))
	case 1:
		return 0
	case 2:
		return mask
	case 3:
		return (v + 1) & mask
	case 4:
		return (v - 1) & mask
	}
	return h.r.U64() & mask
}

func (h *fieldNoise) vlc(v vlc) vlc {
	if h.code == 0 || h.r.N(h.code) != 0 {
		return v
	}
	h.damaged++
	if h.resize {
		switch h.r.N(4) {
		case 0:
			return vlc{}
		case 1:
			v.n = uint(h.r.In(1, 24))
		}
	}
	if h.r.P(1, 4) { // mostly zeros: long or missing codes
		v.bits = uint64(h.r.N(2)) << uint(h.r.N(int(v.n)+1)) & (1<<v.n - 1)
		return v
	}
	v.bits = h.r.U64() & (1<<v.n - 1)
	return v
}

// withNoise runs a generator while fields are damaged.
func withNoise(r *R, f func()) int {
	rate := func() int {
		if r.P(1, 3) {
			return 0
		}
		return []int{3, 10, 30, 100, 300, 1000, 3000}[r.N(7)]
	}
	h := &fieldNoise{r: &R{r.U64()}, wide: rate(), narrow: rate(), code: rate(), resize: r.Bool()}
	putHook = h
	defer func() { putHook = nil }()
	f()
	return h.damaged
}

// hostileVideo is a video stream that breaks rules beyond the syntax.
func hostileVideo(c *Case) []byte {
	r := c.R
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.pics = 3, 3, 5
	o.density = r.N(3)
	o.qm = r.P(1, 3)
	o.repSeq = r.P(1, 4)
	s := genVideos(r, r.In(1, 3), o)
	d := &vDress{r: r, counts: map[string]int{}}
	if r.Bool() {
		d = nil
	}
	mbs := func(f func(p *vPic, mb *vMB)) {
		for _, p := range s.pics {
			for _, sl := range p.slices {
				for _, mb := range sl.mbs {
					f(p, mb)
				}
			}
		}
	}
	for n := r.N(4); n > 0; n-- {
		k := r.N(15)
		c.Count("model_damage", 1)
		rate := []int{1, 3, 20}[r.N(3)]
		switch k {
		case 0: // vectors that point anywhere
			mbs(func(p *vPic, mb *vMB) {
				for _, v := range []*[2]int{&mb.mv[0][0], &mb.mv[0][1], &mb.mv[1][0], &mb.mv[1][1], &mb.cmv} {
					for t := range v {
						if r.N(rate) == 0 {
							f := 16 << uint(p.fcode[0][t]-1)
							if f > 1<<12 {
								f = 1 << 12
							}
							v[t] = r.In(-f, f-1)
						}
					}
				}
			})
		case 1: // slices anywhere
			for _, p := range s.pics {
				for _, sl := range p.slices {
					if r.N(rate) == 0 {
						sl.row = r.In(0, 174)
						if r.Bool() {
							sl.row = r.N(5)
						}
					}
				}
			}
		case 2: // macroblocks beyond the row
			for _, p := range s.pics {
				for _, sl := range p.slices {
					if r.N(rate) == 0 {
						off := r.In(1, 4)
						if r.P(1, 4) {
							off = r.In(1, 500)
						}
						for _, mb := range sl.mbs[r.N(len(sl.mbs)):] {
							mb.x += off
						}
					}
				}
			}
		case 3: // too many coefficients
			mbs(func(p *vPic, mb *vMB) {
				if r.N(rate*3) == 0 {
					if r.Bool() {
						mb.overrun = true
					} else {
						i := r.N(6)
						for j := r.In(1, 70); j > 0; j-- {
							mb.blk[i] = append(mb.blk[i], coef{r.N(4), []int{1, -1, 40, 2047, -2047, -2048, 0}[r.N(7)]})
						}
					}
				}
			})
		case 4: // another size while references are kept
			for _, e := range s.elems {
				if e.seq != nil && r.Bool() {
					q := *e.seq
					if r.Bool() {
						q.w = r.In(1, 80)
					}
					if r.Bool() {
						q.h = r.In(1, 80)
					}
					q.prog = r.Bool()
					e.seq = &q
				}
			}
		case 5: // leave elements out
			var l []*vElem
			for _, e := range s.elems {
				if r.N(rate+1) != 0 {
					l = append(l, e)
				}
			}
			s.elems = l
		case 6: // other orders
			for i := r.In(1, 4); i > 0 && len(s.elems) > 0; i-- {
				a, b := r.N(len(s.elems)), r.N(len(s.elems))
				s.elems[a], s.elems[b] = s.elems[b], s.elems[a]
			}
		case 7: // repeat an element; mostly one of another sequence
			for i := r.In(1, 3); i > 0 && len(s.elems) > 0; i-- {
				a, b := r.N(len(s.elems)), r.N(len(s.elems))
				l := append([]*vElem{}, s.elems[:a]...)
				s.elems = append(append(l, s.elems[b]), s.elems[a:]...)
			}
		case 8: // temporal references
			for _, p := range s.pics {
				if r.N(rate) == 0 {
					p.tref = r.N(1024)
				}
			}
		case 9: // matrices, also those for chrominance
			for _, p := range s.pics {
				if r.N(rate) == 0 {
					p.qm = &vQM{}
					for k := range p.qm.m {
						if r.Bool() {
							p.qm.m[k] = genMatrix(r)
							if r.P(1, 4) {
								p.qm.m[k][r.N(64)] = 0
							}
						}
					}
				}
			}
		case 10: // picture types that don't fit what the macroblocks need
			for _, p := range s.pics {
				if r.N(rate) == 0 {
					p.structure = r.N(4)
					p.dcPrec = r.N(4)
				}
			}
		case 11: // prediction types
			mbs(func(p *vPic, mb *vMB) {
				if r.N(rate) == 0 {
					mb.motion = r.N(4)
				}
				if r.N(rate) == 0 {
					mb.fsel = [2][2]int{{r.N(2), r.N(2)}, {r.N(2), r.N(2)}}
				}
			})
		case 12: // coefficients and DC values of any size
			mbs(func(p *vPic, mb *vMB) {
				for i := range mb.dc {
					if r.N(rate*4) == 0 {
						mb.dc[i] = r.In(0, 1<<uint(8+p.dcPrec)-1)
					}
				}
				if r.N(rate) == 0 {
					mb.quant, mb.forceEsc = 0, true
				}
			})
		case 14: // skipped macroblocks anywhere
			for _, p := range s.pics {
				for _, sl := range p.slices {
					for i, mb := range sl.mbs {
						if i > 0 && i < len(sl.mbs)-1 && r.N(rate) == 0 {
							mb.skipped = true
						}
					}
				}
			}
		case 13: // a sequence that goes on from the pictures of the one before
			var l []*vElem
			drop := 0
			for i, e := range s.elems {
				if e.eos && i < len(s.elems)-1 && r.P(3, 4) {
					drop = 1
					continue
				}
				if e.pic != nil && drop > 0 {
					drop--
					continue
				}
				l = append(l, e)
			}
			s.elems = l
		}
	}
	var data []byte
	enc := func() { data = s.encodeLoose(d) }
	if r.P(3, 4) {
		c.Count("fields_damaged", withNoise(r, enc))
	} else {
		enc()
	}
	return data
}

// encodeLoose encodes a model that may be impossible as far as it goes.
func (s *vStream) encodeLoose(d *vDress) (data []byte) {
	w := &vEnc{d: d, loose: true}
	w.seq = &vSeq{chroma: 1}
	w.qm = newQMState(w.seq)
	defer func() {
		if e := recover(); e != nil {
			data = w.Bytes()
		}
	}()
	s.encodeTo(w)
	return w.b
}
