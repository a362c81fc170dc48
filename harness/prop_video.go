package main

import (
	"fmt"
	"image"
	"sort"
	"unsafe"
)

func init() {
	register(&Prop{
		ID: "V03", Rule: "a stream with an intra picture that has at least one AC coefficient",
		Quick: 36000, Thorough: 600000, Run: runV03, Post: offPost,
		Min: map[string]int64{"intra_macroblocks": 5000, "dct_codes_table0": 111, "dct_codes_table1": 111,
			"dc_sizes_luma": 12, "dc_sizes_chroma": 12, "quantiser_scales": 62, "escapes": 1000, "block_classes_judged": 250, "dc_classes_judged": 60, "limit_classes_judged": 6},
		Assume: []string{"inverse transform output within +-500 (beyond it the permitted approximations may overflow): other blocks are decoded but not judged"},
	})
	register(&Prop{
		ID: "V05", Rule: "a stream with motion-compensated macroblocks",
		Quick: 20000, Thorough: 600000, Run: runV05, Post: offPost,
		Min: map[string]int64{"forward_macroblocks": 2000, "backward_macroblocks": 2000, "bidirectional_macroblocks": 500,
			"half_h_vectors": 500, "half_v_vectors": 500, "half_hv_vectors": 200, "blocks_exact": 20000, "concealment_vectors": 500,
			"f_codes": 9, "motion_codes": 33, "motion_codes_with_f_code": 290, "wrapped_vectors": 100, "wraps": 66, "block_classes_judged": 300, "field_dct_predicted": 200, "field_predicted_macroblocks": 500, "dc_classes_judged": 60, "limit_classes_judged": 6},
	})
	register(&Prop{
		ID: "V06", Rule: "a stream with several slices or skipped macroblocks",
		Quick: 8000, Thorough: 160000, Run: runV06, Post: offPost,
		Min: map[string]int64{"skipped_p": 2000, "skipped_b": 500, "address_escapes": 50, "slices": 2000,
			"slices_not_at_left_edge": 500, "slices_below_2800": 50, "predictor_resets_by_skip": 200, "macroblock_increments": 33, "increments_between_intra": 40},
	})
	register(&Prop{
		ID: "V07", Rule: "a stream with at least two pictures",
		Quick: 15000, Thorough: 300000, Run: runV07,
		Min: map[string]int64{"frames_in_order": 5000, "pictures_reordered": 500, "groups_closed": 100, "groups_open": 100,
			"anchors_without_group_header": 100, "temporal_reference_wraps": 3, "sequences": 20, "repeated_sequence_header": 100},
	})
	register(&Prop{
		ID: "V08", Rule: "a stream in which at least one matrix is loaded",
		Quick: 30000, Thorough: 600000, Run: runV08, Post: offPost,
		Min: map[string]int64{"matrices_in_sequence_header": 300, "matrices_in_extension": 300, "repeated_headers_resetting": 100},
	})
	register(&Prop{
		ID: "V09", Rule: "a stream that was given at least one optional element",
		Quick: 40000, Thorough: 800000, Run: runV09,
		Min: map[string]int64{"user_data": 200, "sequence_display": 100, "copyright": 100, "picture_display": 50, "quant_matrix": 100,
			"extra_picture": 100, "slice_extra": 100, "composite_display": 100, "stuffing": 500, "repeated_sequence_header": 50},
	})
	register(&Prop{
		ID: "V10", Rule: "a stream with reference pictures, all of whose frames are kept",
		Quick: 6400, Thorough: 120000, RaceQuick: 20, RaceThor: 800, Run: runV10,
		Min: map[string]int64{"very_long_streams": 10, "long_streams": 10, "frames_rehashed": 1500, "storage_pairs_compared": 3000},
	})
	register(&Prop{
		ID: "V11", Rule: "at least two decoders running at the same time",
		Quick: 1000, Thorough: 20000, RaceQuick: 30, RaceThor: 1500, Run: runV11,
		Min: map[string]int64{"decoders_run_concurrently": 200, "frames_compared": 500},
	})
	register(&Prop{
		ID: "V13", Rule: "a sequence with a size not seen before",
		Quick: 4500, Thorough: 100000, Run: runV13,
		Min: map[string]int64{"frames_measured": 600, "interlaced": 100, "progressive": 100, "sizes_above_4095": 20, "odd_sizes": 200, "round_sizes": 200, "common_sizes": 50},
	})
}

func runV03(c *Case) {
	o := defaultOpt()
	o.types, o.pics = 1, 3
	o.density = c.R.N(4)
	o.extremes = c.R.P(1, 3)
	limit := false
	switch c.R.N(6) {
	case 0:
		o.dcWide, o.extremes, o.density = true, false, 1
	case 1:
		limit = true
	}
	s := genVideo(c.R, o)
	data := s.encode(nil)
	if limit {
		s.toLimit(c.R)
		data = s.encode(nil)
	}
	c.Sig(data, true)
	c.countCodes(s)
	st := reconStats{proj: c.Acc("proj", projLen), off: c.Acc("off", offLen)}
	res := decodeStream(c, data, chunkAll, len(s.pics)+2)
	s.check(c, res, &st)
	st.report(c)
}

// countCodes records which codes a stream exercised.
func (c *Case) countCodes(s *vStream) {
	once := func(name string, v int) {
		c.See(name, uint64(v)+1)
	}
	for _, p := range s.pics {
		for _, sl := range p.slices {
			st := &sliceState{p: p}
			st.resetDC()
			prev := -1
			for _, mb := range sl.mbs {
				if mb.skipped {
					continue
				}
				if mb.x-prev > 1 {
					st.resetDC()
				}
				once("macroblock_increments", min(mb.x-prev, 34))
				prev = mb.x
				if !mb.intra {
					st.resetDC()
				}
				once("quantiser_scales", p.qtype*32+mb.usedQscale)
				t := 0
				if mb.intra && p.ivlc == 1 {
					t = 1
				}
				for i := 0; i < 6; i++ {
					if mb.intra {
						cc := 0
						if i > 3 {
							cc = i - 3
						}
						d := mb.dc[i] - st.dc[cc]
						st.dc[cc] = mb.dc[i]
						if d < 0 {
							d = -d
						}
						n := 0
						for d>>uint(n) != 0 {
							n++
						}
						if cc == 0 {
							once("dc_sizes_luma", n)
						} else {
							once("dc_sizes_chroma", n)
						}
					}
					for _, k := range mb.blk[i] {
						a := k.level
						if a < 0 {
							a = -a
						}
						if _, ok := dctTabs[t].code[runLevel{k.run, a}]; ok {
							once(fmt.Sprintf("dct_codes_table%d", t), k.run*64+a)
						} else {
							c.Count("escapes", 1)
						}
					}
				}
			}
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func runV05(c *Case) {
	o := defaultOpt()
	o.density = c.R.N(4)
	o.extremes = c.R.P(1, 3)
	o.exactBias = c.R.Bool()
	if c.R.P(1, 4) {
		o.maxMBW, o.maxMBH = 16, 12
		o.pics = 4
	}
	switch c.Idx % 40 {
	case 3: // far vectors: all of the larger ranges
		o.minMBW, o.maxMBW, o.maxMBH, o.pics = 100, 300, 2, 4
		o.density = c.R.N(2)
		o.bigF = true
	case 23:
		o.maxMBW, o.minMBH, o.maxMBH, o.pics = 2, 100, 300, 4
		o.density = c.R.N(2)
		o.bigF = true
	}
	s := genVideo(c.R, o)
	data := s.encode(nil)
	if c.R.P(1, 12) {
		s.toLimit(c.R)
		data = s.encode(nil)
	}
	mot := false
	for _, p := range s.pics {
		for i := range p.fcode {
			for _, f := range p.fcode[i] {
				if f < 15 {
					c.once("f_codes", f)
				}
			}
		}
		for _, sl := range p.slices {
			for _, mb := range sl.mbs {
				mot = mot || mb.fwd || mb.bwd
				if mb.intra && p.conceal {
					c.Count("concealment_vectors", 1)
				}
				if mb.fieldDCT && (mb.fwd || mb.bwd) {
					c.Count("field_dct_predicted", 1)
				}
			}
		}
	}
	for _, k := range s.motionCodes {
		c.once("motion_codes", k%33)
		c.once("motion_codes_with_f_code", k)
	}
	c.Count("wrapped_vectors", s.wrapped)
	for k, a := range s.wraps {
		for f, b := range a {
			for d, ok := range b {
				if ok {
					c.once("wraps", (k*9+f)*2+d)
				}
			}
		}
	}
	c.Sig(data, mot)
	st := reconStats{proj: c.Acc("proj", projLen), off: c.Acc("off", offLen)}
	res := decodeStream(c, data, chunkAll, len(s.pics)+2)
	s.check(c, res, &st)
	st.report(c)
}

func (c *Case) once(name string, v int) {
	c.See(name, uint64(v)+1)
}

func runV06(c *Case) {
	o := defaultOpt()
	o.pics = 4
	o.exactBias = true
	o.density = c.R.N(2)
	switch {
	case c.Idx%10 == 0: // wide: escapes in the address increment
		o.minMBW, o.maxMBW, o.maxMBH = 36, 110, 2
		o.skips = c.R.Bool()
		if c.Idx%40 == 0 {
			o.minMBW, o.maxMBW, o.maxMBH, o.pics = 250, 1024, 1, 3
			if c.R.P(1, 3) {
				o.minMBW = 1024
			}
		}
	case c.Idx%10 == 5: // skipped runs of notable lengths
		o.minMBW, o.maxMBW, o.maxMBH = 36, 110, 1
		o.skips, o.pics = true, 3
		if c.R.Bool() {
			o.sliceStyle = 0
		}
	case c.Idx%10 == 1: // tall: slice position extension
		o.maxMBW, o.minMBH, o.maxMBH = 3, 176, 300
		o.prog = c.R.N(2)
		o.pics = 3
		if c.Idx%40 == 1 {
			o.maxMBW, o.minMBH, o.maxMBH = 1, 900, 1024
			if c.R.P(1, 3) {
				o.minMBH = 1024
			}
		}
	case c.Idx%10 == 2: // just around 2800 lines
		o.maxMBW, o.minMBH, o.maxMBH = 2, 174, 177
		o.pics = 3
	default:
		o.maxMBW, o.maxMBH = 14, 4
	}
	s := genVideo(c.R, o)
	data := s.encode(nil)
	nt := false
	for _, p := range s.pics {
		nt = nt || len(p.slices) > 1
		for _, sl := range p.slices {
			c.Count("slices", 1)
			if sl.mbs[0].x > 0 {
				c.Count("slices_not_at_left_edge", 1)
			}
			if p.seq.h > 2800 && sl.row >= 175 {
				c.Count("slices_below_2800", 1)
			}
			prev := -1
			var pm *vMB
			for _, mb := range sl.mbs {
				if mb.skipped {
					nt = true
					c.Count([]string{"", "", "skipped_p", "skipped_b"}[p.typ], 1)
					continue
				}
				if mb.x-prev > 33 {
					c.Count("address_escapes", (mb.x-prev-1)/33)
				}
				if pm != nil && mb.x-prev > 1 && (pm.fwd || pm.bwd) && (mb.fwd || mb.bwd) {
					c.Count("predictor_resets_by_skip", 1)
				}
				if pm != nil && mb.x-prev > 1 && pm.intra && mb.intra {
					c.Count("intra_around_skipped", 1)
					c.See("increments_between_intra", uint64(mb.x-prev))
				}
				prev, pm = mb.x, mb
			}
		}
	}
	c.countCodes(s)
	c.Sig(data, nt)
	st := reconStats{off: c.Acc("off", offLen)}
	res := decodeStream(c, data, chunkAll, len(s.pics)+2)
	s.check(c, res, &st)
	st.report(c)
}

func runV07(c *Case) {
	o := defaultOpt()
	o.maxMBW, o.maxMBH = 2, 2
	o.pics = c.R.In(4, 40)
	o.maxB = c.R.In(0, 6)
	if c.R.P(1, 20) {
		o.maxB = 20
	}
	o.exactBias = true
	o.density = 0
	n := c.R.In(1, 3)
	switch {
	case c.Idx%100 == 7: // temporal references wrap around
		o.pics = c.R.In(1030, 1200)
		o.maxMBW, o.maxMBH = 1, 1
		o.prog = 1
		o.gopHeaders = 0
		n = 1
		if c.R.P(1, 4) {
			o.pics = 2100
		}
	case c.Idx%3 == 0:
		o.gopHeaders = 1
	case c.Idx%3 == 1:
		o.noGOPAtAll = true
	}
	s := genVideos(c.R, n, o)
	d := &vDress{r: c.R, counts: map[string]int{}}
	d.only = map[string]bool{"repeated_sequence_header": true}
	data := s.encode(d)
	c.addCounts(d)
	c.Sig(data, len(s.pics) > 1)
	var st reconStats
	res := decodeStream(c, data, chunkAll, len(s.pics)+2)
	s.check(c, res, &st)
	c.Count("frames_in_order", len(res.frames))
	c.Count("sequences", n)
	c.Check(len(res.eosAt) == n, "%d sequence ends reported, want %d", len(res.eosAt), n)
	for i, p := range s.pics {
		if p.display != i {
			c.Count("pictures_reordered", 1)
		}
		if i > 0 && p.tref < s.pics[i-1].tref-900 {
			c.Count("temporal_reference_wraps", 1)
		}
	}
	last := &vElem{}
	for _, e := range s.elems {
		if e.gop != nil {
			if e.gop.closed {
				c.Count("groups_closed", 1)
			} else {
				c.Count("groups_open", 1)
			}
		}
		if e.pic != nil && e.pic.typ == 1 && last.gop == nil {
			c.Count("anchors_without_group_header", 1)
		}
		last = e
	}
	st.report(c)
}

func (c *Case) addCounts(d *vDress) {
	for k, n := range d.counts {
		c.Count(k, n)
	}
}

func runV08(c *Case) {
	o := defaultOpt()
	o.qm = true
	o.repSeq = c.R.Bool()
	o.density = c.R.In(1, 3)
	s := genVideos(c.R, c.R.In(1, 2), o)
	data := s.encode(nil)
	nt := false
	prev := (*vElem)(nil)
	for _, e := range s.elems {
		if e.seq != nil {
			if e.seq.intraM != nil {
				c.Count("matrices_in_sequence_header", 1)
				nt = true
			}
			if e.seq.nonIntraM != nil {
				c.Count("matrices_in_sequence_header", 1)
				nt = true
			}
			if prev != nil && prev.pic != nil {
				c.Count("repeated_headers_resetting", 1)
			}
		}
		if e.pic != nil && e.pic.qm != nil {
			for _, m := range e.pic.qm.m {
				if m != nil {
					c.Count("matrices_in_extension", 1)
					nt = true
				}
			}
		}
		prev = e
	}
	c.Sig(data, nt)
	st := reconStats{off: c.Acc("off", offLen)}
	res := decodeStream(c, data, chunkAll, len(s.pics)+2)
	s.check(c, res, &st)
	st.report(c)
}

func runV09(c *Case) {
	o := defaultOpt()
	o.density = c.R.N(2)
	o.qm = c.R.P(1, 3)
	o.maxMBW, o.maxMBH = 3, 3
	s := genVideos(c.R, c.R.In(1, 2), o)
	plain := append([]byte(nil), s.encode(nil)...)
	d := &vDress{r: c.R, counts: map[string]int{}}
	if c.R.Bool() {
		// one kind of element only, everywhere
		d.only = map[string]bool{dressKinds[c.R.N(len(dressKinds))]: true}
		if d.only["picture_display"] {
			d.only["sequence_display"] = true
		}
	}
	dressed := append([]byte(nil), s.encode(d)...)
	c.addCounts(d)
	c.Sig(dressed, len(d.counts) > 0)
	c.Note("elements: %v", d.counts)
	a := decodeStream(c, plain, chunkAll, len(s.pics)+2)
	b := decodeStream(c, dressed, chunkAll, len(s.pics)+2)
	c.Check(len(a.frames) == len(s.pics), "plain stream: %d frames of %d (%v)", len(a.frames), len(s.pics), a.err)
	c.Check(len(b.frames) == len(a.frames), "with optional elements %d frames (%v), without %d", len(b.frames), b.err, len(a.frames))
	for i := range a.frames {
		if m := sameFrame(a.frames[i], b.frames[i]); m != "" {
			c.Fail("frame %d differs when optional elements are added: %s", i, m)
		}
		c.Count("frames_compared", 1)
	}
	c.Check(fmt.Sprint(a.err) == fmt.Sprint(b.err), "ended with %v, without optional elements with %v", b.err, a.err)
	c.Check(fmt.Sprint(a.eosAt) == fmt.Sprint(b.eosAt), "sequence ends at %v, without optional elements at %v", b.eosAt, a.eosAt)
}

var dressKinds = []string{"user_data", "sequence_display", "copyright", "picture_display", "quant_matrix",
	"extra_picture", "slice_extra", "composite_display", "stuffing", "repeated_sequence_header"}

type span struct {
	lo, hi uintptr
	what   string
}

func spansOf(img *image.YCbCr, i int) []span {
	var l []span
	for cc, p := range [][]uint8{img.Y, img.Cb, img.Cr} {
		if len(p) == 0 {
			continue
		}
		a := uintptr(unsafe.Pointer(&p[0]))
		l = append(l, span{a, a + uintptr(len(p)), fmt.Sprintf("frame %d plane %d", i, cc)})
	}
	return l
}

func runV10(c *Case) {
	o := defaultOpt()
	o.maxMBW, o.maxMBH = 4, 3
	o.pics = c.R.In(3, 14)
	o.density = 0
	o.nopel = c.R.P(1, 3)
	o.exactBias = c.R.Bool()
	if c.Idx%25 == 24 { // many frames are kept
		o.maxMBW, o.maxMBH, o.pics = 1, 1, c.R.In(60, 300)
		c.Count("long_streams", 1)
	}
	if c.Idx%400 == 199 { // past the wrap of the temporal reference
		o.maxMBW, o.maxMBH, o.pics = 1, 1, c.R.In(1040, 1400)
		o.noGOPAtAll = c.R.Bool()
		c.Count("very_long_streams", 1)
	}
	s := genVideos(c.R, c.R.In(1, 2), o)
	data := append([]byte(nil), s.encode(nil)...)
	c.Sig(data, len(s.pics) > 1)
	other := genVideo(c.R, o)
	odata := append([]byte(nil), other.encode(nil)...)
	vs := newDecoder(c, data)
	vo := newDecoder(c, odata)
	type kept struct {
		img  *image.YCbCr
		copy image.YCbCr
		h    uint64
		i    int
	}
	var l []kept
	check := func(when string) {
		from := 0
		if len(l) > 320 && len(l)%64 != 0 && when != "by the end of the stream" {
			from = len(l) - 40 // all of them now and then
		}
		for _, k := range l[from:] {
			if hashFrame(k.img) != k.h {
				c.Fail("frame %d changed %s", k.i, when)
			}
			c.Check(k.img.Rect == k.copy.Rect && k.img.YStride == k.copy.YStride && k.img.CStride == k.copy.CStride &&
				&k.img.Y[0] == &k.copy.Y[0] && len(k.img.Y) == len(k.copy.Y), "the image of frame %d was changed %s", k.i, when)
			c.Count("frames_rehashed", 1)
		}
	}
	add := func(img *image.YCbCr) {
		l = append(l, kept{img, *img, hashFrame(img), len(l)})
	}
	ends := 0
	for n := 0; n < len(s.pics)+4; n++ {
		img, err := vs.Next()
		if err == nil {
			add(img)
			check(fmt.Sprintf("while frame %d was decoded", n))
		} else if ends++; ends > 3 {
			break
		}
		if c.R.Bool() {
			if img, err := vo.Next(); err == nil {
				add(img)
				check("while another decoder ran")
			}
		}
	}
	check("by the end of the stream")
	c.Check(len(l) >= len(s.pics), "only %d frames of %d", len(l), len(s.pics))
	var sp []span
	for _, k := range l {
		sp = append(sp, spansOf(k.img, k.i)...)
	}
	sort.Slice(sp, func(i, j int) bool { return sp[i].lo < sp[j].lo })
	for i := 1; i < len(sp); i++ {
		// sorted by their beginnings: if any two overlap, two neighbours do
		if sp[i].lo < sp[i-1].hi {
			c.Fail("%s and %s share storage", sp[i].what, sp[i-1].what)
		}
	}
	c.Count("storage_pairs_compared", len(sp)*(len(sp)-1)/2)
}

func runV11(c *Case) {
	o := defaultOpt()
	o.maxMBW, o.maxMBH = 4, 3
	o.pics = 10
	o.qm = true
	o.conceal = -1
	k := c.R.In(2, 6)
	type job struct {
		data []byte
		want *vResult
		got  *vResult
		fail interface{}
	}
	jobs := make([]*job, k)
	same := c.R.P(1, 3)
	for i := range jobs {
		if i > 0 && same {
			jobs[i] = &job{data: jobs[0].data}
		} else {
			s := genVideos(c.R, c.R.In(1, 2), o)
			jobs[i] = &job{data: append([]byte(nil), s.encode(nil)...)}
		}
		jobs[i].want = decodeStream(c, jobs[i].data, chunkAll, 100)
	}
	c.Sig(jobs[0].data, true)
	done := make(chan bool)
	for i := range jobs {
		j := jobs[i]
		sub := &Case{Prop: c.Prop, Idx: c.Idx, R: newR(c.R.U64(), "v11", i), st: newStats()}
		style := c.R.N(chunkStyles)
		go func() {
			defer func() {
				j.fail = recover()
				done <- true
			}()
			j.got = decodeStream(sub, j.data, style, 100)
		}()
	}
	for range jobs {
		<-done
	}
	for i, j := range jobs {
		if j.fail != nil {
			c.Fail("decoder %d: %v", i, j.fail)
		}
		c.Count("decoders_run_concurrently", 1)
		if m := sameResult(j.got, j.want); m != "" {
			c.Fail("decoder %d of %d running together: %s (alone: %d frames)", i, k, m, len(j.want.frames))
		}
		c.Count("frames_compared", len(j.got.frames))
	}
}

func sameResult(got, want *vResult) string {
	if len(got.frames) != len(want.frames) {
		return fmt.Sprintf("%d frames, want %d", len(got.frames), len(want.frames))
	}
	for i := range got.frames {
		if m := sameFrame(got.frames[i], want.frames[i]); m != "" {
			return fmt.Sprintf("frame %d: %s", i, m)
		}
	}
	if fmt.Sprint(got.eosAt) != fmt.Sprint(want.eosAt) {
		return fmt.Sprintf("sequence ends at %v, want %v", got.eosAt, want.eosAt)
	}
	if fmt.Sprint(got.err) != fmt.Sprint(want.err) {
		return fmt.Sprintf("ended with %v, want %v", got.err, want.err)
	}
	return ""
}

func runV13(c *Case) {
	o := defaultOpt()
	o.pics = 3
	o.density = 0
	o.exactBias = true
	switch c.Idx % 12 {
	case 0:
		o.minMBW, o.maxMBW, o.maxMBH = 250, 1024, 1
		if c.R.P(1, 4) {
			o.minMBW = 1023
		}
	case 1:
		o.maxMBW, o.minMBH, o.maxMBH = 1, 160, 1024
		if c.R.P(1, 4) {
			o.minMBH = 1023
		}
	case 2:
		o.minMBW, o.maxMBW, o.maxMBH = 255, 258, 1
	case 3:
		o.maxMBW, o.minMBH, o.maxMBH = 1, 255, 258
	case 4:
		// both sides near a power of two, or a size in common use
		w := 1<<uint(c.R.N(9)) + c.R.In(-1, 1)
		h := 1<<uint(c.R.N(9)) + c.R.In(-1, 1)
		if c.R.P(1, 3) {
			x := [][2]int{{22, 18}, {22, 15}, {30, 36}, {44, 36}, {45, 36}, {45, 30}, {80, 45}, {90, 68}, {120, 68}, {16, 176}, {64, 176}, {16, 192}}[c.R.N(12)]
			w, h = x[0], x[1]
			c.Count("common_sizes", 1)
		} else {
			w, h = max(1, w), max(1, h)
			for w*h > 1100 {
				if c.R.Bool() {
					w = (w + 1) / 2
				} else {
					h = (h + 1) / 2
				}
			}
		}
		o.minMBW, o.maxMBW, o.minMBH, o.maxMBH = w, w, h, h
		o.exactSize = true
		if w*h > 2000 {
			o.pics = 1
		}
		c.Count("round_sizes", 1)
	default:
		o.maxMBW, o.maxMBH = 12, 12
	}
	s := genVideo(c.R, o)
	data := s.encode(nil)
	seq := s.elems[0].seq
	c.Sig([]byte(fmt.Sprint(seq.w, seq.h, seq.prog)), true)
	c.Input = data
	vs := newDecoder(c, data)
	res := runDecoder(c, vs, len(s.pics)+2)
	c.Check(len(res.frames) == len(s.pics), "%dx%d: %d frames of %d (%v)", seq.w, seq.h, len(res.frames), len(s.pics), res.err)
	w, h := seq.mbW()*16, seq.mbH()*16
	for i, f := range res.frames {
		c.Check(f.SubsampleRatio == image.YCbCrSubsampleRatio420, "frame %d: subsampling %v", i, f.SubsampleRatio)
		c.Check(f.Rect == image.Rect(0, 0, w, h), "frame %d of a %dx%d sequence (progressive %v): bounds %v, want %dx%d",
			i, seq.w, seq.h, seq.prog, f.Rect, w, h)
		c.Check(f.YStride >= w && f.CStride >= w/2, "frame %d: strides %d and %d for width %d", i, f.YStride, f.CStride, w)
		c.Check(len(f.Y) >= (h-1)*f.YStride+w && len(f.Cb) >= (h/2-1)*f.CStride+w/2 && len(f.Cr) >= (h/2-1)*f.CStride+w/2,
			"frame %d: planes of %d, %d and %d samples do not cover %dx%d", i, len(f.Y), len(f.Cb), len(f.Cr), w, h)
		// the corners can be looked at through the public image interface
		f.At(0, 0)
		f.At(w-1, h-1)
		c.Count("frames_measured", 1)
	}
	if seq.prog {
		c.Count("progressive", 1)
	} else {
		c.Count("interlaced", 1)
	}
	if seq.w > 4095 || seq.h > 4095 {
		c.Count("sizes_above_4095", 1)
	}
	if seq.w%16 != 0 || seq.h%16 != 0 {
		c.Count("odd_sizes", 1)
	}
	var st reconStats
	s.check(c, res, &st)
}
