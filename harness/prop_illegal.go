package main

import (
	"bytes"
	"fmt"

	"github.com/32bitkid/mpeg/video"
)

// V16: one illegal code in an otherwise legal stream is an error, and no
// picture is made of it.

var illegalKinds = []string{"macroblock address increment", "macroblock type", "motion type", "motion code",
	"coded block pattern", "coefficient", "too many coefficients", "macroblock address", "slice row", "vector outside", "skipped vector outside",
	"vector range code", "concealment marker", "slice reserved bits", "picture type", "picture structure", "chroma format",
	"sequence header marker", "sequence extension marker", "sequence display marker"}

func init() {
	min := map[string]int64{"frames_before": 5000, "then_zeros": 2000, "then_legal_codes": 2000, "then_random_bits": 2000,
		"distinct_illegal_codes": 18}
	for _, k := range illegalKinds {
		min["kind: "+k] = 400
	}
	register(&Prop{
		ID: "V16", Rule: "a stream with exactly one illegal code",
		Quick: 40000, Thorough: 1500000, Run: runV16,
		Min:    min,
		Assume: []string{"only codes that the decoder has to look at are made illegal: reserved values of fields it merely passes over are not"},
	})
}

// illegalPrefixes is the complement of a variable length code: the shortest
// strings that no code word begins with or is the beginning of.
func illegalPrefixes(codes []vlc, allow ...vlc) (l []vlc) {
	codes = append(append([]vlc{}, codes...), allow...)
	var walk func(v vlc)
	walk = func(v vlc) {
		within := false
		for _, c := range codes {
			if c.n <= v.n && v.bits>>(v.n-c.n) == c.bits {
				return // a code word, or one and more
			}
			if c.n > v.n && c.bits>>(c.n-v.n) == v.bits {
				within = true
			}
		}
		if !within {
			l = append(l, v)
			return
		}
		walk(vlc{v.bits << 1, v.n + 1})
		walk(vlc{v.bits<<1 | 1, v.n + 1})
	}
	walk(vlc{})
	return
}

func vlcsOf[K comparable](m map[K]vlc) (l []vlc) {
	for _, v := range m {
		l = append(l, v)
	}
	return
}

var illegalMBAI = illegalPrefixes(mbaiVLC, mbaiEscape)
var illegalMBType = [4][]vlc{nil, illegalPrefixes(vlcsOf(mbTypeVLC[1])), illegalPrefixes(vlcsOf(mbTypeVLC[2])), illegalPrefixes(vlcsOf(mbTypeVLC[3]))}
var illegalMotion = illegalPrefixes(motionVLC, mkVLC("1"))

// A pattern without coded blocks is not for 4:2:0, but it is a code.
var illegalCBP = illegalPrefixes(vlcsOf(cbpVLC), mkVLC("000000001"))
var illegalDCT = [2][]vlc{
	illegalPrefixes(vlcsOf(dctTabs[0].code), dctTabs[0].eob, dctTabs[0].esc),
	illegalPrefixes(vlcsOf(dctTabs[1].code), dctTabs[1].eob, dctTabs[1].esc),
}

const (
	thenZeros = iota
	thenLegal
	thenRandom
)

// vInject replaces the nth code of a kind while a stream is written.
type vInject struct {
	kind string
	nth  int
	then int
	r    *R
	seen int
	at   int // length of the stream where it happened
	code vlc
}

type injected struct{}

// bad is asked at every code of a kind: f writes an illegal one (or arranges
// for it, if there is no g), g what belongs there.
func (w *vEnc) bad(kind string, f, g func()) {
	if w.inj != nil && w.inj.kind == kind {
		w.inj.seen++
		if w.inj.seen-1 == w.inj.nth {
			w.inj.at = len(w.b)
			f()
			if g != nil && w.inj.then != thenLegal {
				panic(injected{})
			}
			return
		}
	}
	if g != nil {
		g()
	}
}

func (w *vEnc) marker(kind string) {
	w.bad(kind, func() { w.Put(1, 0) }, func() { w.Put(1, 1) })
}

func (w *vEnc) illegal(l []vlc) {
	r := w.inj.r
	v := l[r.N(len(l))]
	w.inj.code = v
	w.VLC(v)
	if v.bits == 0 && w.inj.kind == "macroblock address increment" {
		// not the end of a slice
		w.Put(1, 1)
	}
}

// near is a number from min on, mostly min.
func (x *vInject) near(min, max int) int {
	if min >= max || x.r.Bool() {
		return min
	}
	if x.r.Bool() {
		return x.r.In(min, max)
	}
	return x.r.In(min, minInt(max, min+3))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// coef is some coefficient where n places are left in the block.
func (x *vInject) coef(n int) coef {
	run := x.r.N(4)
	switch x.r.N(4) {
	case 0:
		run = 0
	case 1:
		run = x.r.N(64)
	case 2:
		run = minInt(63, n+x.r.N(3)) // just too far
		if x.r.Bool() && n > 0 {
			run = minInt(63, n-1) // the last place
		}
	}
	level := x.r.In(1, 20)
	if x.r.P(1, 4) {
		level = x.r.In(1, 2047)
	}
	if x.r.Bool() {
		level = -level
	}
	return coef{run, level}
}

// outside is a vector that can be coded and that points outside of the reference picture.
func (x *vInject) outside(w *vEnc, p *vPic, mb *vMB, s int, mv [2]int, field bool) ([2]int, bool) {
	W, H := p.seq.mbW()*16, p.seq.mbH()*16
	row := w.row
	lo := [2]int{-mb.x * 32, -row * 32}
	hi := [2]int{(W - 16 - mb.x*16) * 2, (H - 16 - row*16) * 2}
	if field {
		lo[1], hi[1] = lo[1]/2, hi[1]/2
	}
	type span struct{ t, a, b int }
	var l []span
	for t := 0; t < 2; t++ {
		f := 16 << uint(p.fcode[s][t]-1)
		low, high := -f, f-1
		if field && t == 1 {
			low, high = low/2, high/2
		}
		if low < lo[t] {
			l = append(l, span{t, low, lo[t] - 1})
		}
		if high > hi[t] {
			l = append(l, span{t, hi[t] + 1, high})
		}
	}
	if len(l) == 0 {
		return mv, false
	}
	v := l[int(mix64(uint64(w.Len())*7+uint64(row))%uint64(len(l)))]
	if v.b < 0 { // counted from the edge
		mv[v.t] = v.b - (x.near(0, v.b-v.a))
	} else {
		mv[v.t] = v.a + x.near(0, v.b-v.a)
	}
	return mv, true
}

// uses: does the picture have vectors of direction s?
func (p *vPic) uses(s int) bool {
	for _, sl := range p.slices {
		for _, mb := range sl.mbs {
			if mb.skipped {
				continue
			}
			if s == 0 && mb.fwd || s == 1 && mb.bwd || s == 0 && mb.intra && p.conceal {
				return true
			}
		}
	}
	return false
}

// encodeWith encodes with an illegal code in it.
func (s *vStream) encodeWith(d *vDress, inj *vInject) (w *vEnc, stopped bool) {
	w = &vEnc{d: d, inj: inj}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(injected); !ok {
				panic(e)
			}
			stopped = true
		}
	}()
	s.encodeTo(w)
	return w, false
}

func runV16(c *Case) {
	r := c.R
	kind := illegalKinds[c.Idx%len(illegalKinds)]
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.pics, o.density = 4, 3, 5, r.N(2)
	o.types = r.In(1, 3)
	dressed := r.P(1, 3)
	switch kind {
	case "motion type":
		o.prog, o.fpfd, o.types = 0, 0, r.In(2, 3)
	case "motion code", "vector outside", "vector range code", "coded block pattern":
		o.types = r.In(2, 3)
	case "skipped vector outside":
		o.types, o.maxMBW = 3, 6
	case "concealment marker":
		o.conceal = 1
	case "sequence display marker", "slice reserved bits":
		dressed = true
	case "slice row":
		if r.P(1, 40) {
			o.minMBW, o.maxMBW, o.pics = 1, 1, 2
			o.minMBH, o.maxMBH = 176, 180
		}
	}
	s := genVideos(r, r.In(1, 2), o)
	seed := r.U64()
	dress := func() *vDress {
		if !dressed {
			return nil
		}
		return &vDress{r: &R{seed}, counts: map[string]int{}}
	}
	clean := append([]byte{}, s.encode(dress())...)
	var ends []int
	for _, p := range s.pics {
		ends = append(ends, p.end)
	}
	// one run to count
	iseed := r.U64()
	x := &vInject{kind: kind, nth: -1, r: &R{iseed}}
	s.encodeWith(dress(), x)
	if x.seen == 0 {
		return
	}
	inj := &vInject{kind: kind, nth: r.N(x.seen), then: r.N(3), r: &R{iseed}}
	w, stopped := s.encodeWith(dress(), inj)
	if stopped {
		if inj.then == thenRandom {
			n := r.In(8, 200)
			for i := 0; i < n; i++ {
				w.put(8, uint64(r.In(1, 255)))
			}
		} else {
			w.put(24, 0)
		}
		w.Align()
		// and on with the next start code of the legal stream
		k := bytes.Index(clean[inj.at:], []byte{0, 0, 1})
		if k < 0 {
			return
		}
		w.Raw(clean[inj.at+k:])
	}
	w.Raw(make([]byte, 16))
	data := w.Bytes()
	c.Sig(data, true)
	c.Check(bytes.Equal(data[:inj.at], clean[:inj.at]), "harness: the streams differ in front of the illegal code")
	// the pictures in front of the one with the illegal code
	damaged := 0
	for damaged < len(ends) && ends[damaged] <= inj.at {
		damaged++
	}
	want := 0
	for want < len(s.order) && s.order[want] < damaged && allBefore(s.order[:want], damaged) {
		want++
	}
	vs := video.NewVideoSequence(newSource(data, r.N(chunkStyles), r))
	res := runDecoder(c, vs, len(s.pics)+2)
	what := kind
	if inj.code.n > 0 {
		what += " " + inj.code.String()
		c.See("distinct_illegal_codes", mix64(hashBytes([]byte(kind)))^inj.code.bits<<8^uint64(inj.code.n))
	}
	then := []string{"zeros", "legal codes", "random bits"}[inj.then]
	if !stopped {
		then = "legal codes"
	}
	c.Note("illegal %s at byte %d, in coded picture %d, then %s", what, inj.at, damaged, then)
	c.Check(!isEnd(res.err), "illegal %s in coded picture %d (then %s): no error but %v after %d frames", what, damaged, then, res.err, len(res.frames))
	c.Check(len(res.frames) == want, "illegal %s in coded picture %d (then %s): %d frames in front of the error (%v), want %d",
		what, damaged, then, len(res.frames), res.err, want)
	var st reconStats
	if err := s.verify(res.frames, &st); err != nil {
		c.Fail("in front of an illegal %s: %v", what, err)
	}
	if c.named {
		// (reserved types are put in P and B pictures as well, whose headers go on in another way)
		late := lookedAtLate[kind] && (then != "legal codes" || kind == "picture type" && res.err == video.ErrUnexpectedNonZeroByte)
		if !late {
			c.Check(res.err == illegalErrors[kind], "illegal %s (then %s): reported as %q, want %q", what, then, fmt.Sprint(res.err), fmt.Sprint(illegalErrors[kind]))
			c.Count("named", 1)
		}
		c.Count("illegal: "+kind, 1)
		return
	}
	c.Count("kind: "+kind, 1)
	c.Count("frames_before", want)
	switch then {
	case "zeros":
		c.Count("then_zeros", 1)
	case "legal codes":
		c.Count("then_legal_codes", 1)
	default:
		c.Count("then_random_bits", 1)
	}
}

func allBefore(l []int, n int) bool {
	for _, i := range l {
		if i >= n {
			return false
		}
	}
	return true
}

func (v vlc) String() string {
	b := make([]byte, v.n)
	for i := range b {
		b[i] = '0' + byte(v.bits>>(v.n-1-uint(i))&1)
	}
	return string(b)
}
