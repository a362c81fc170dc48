package main

import (
	"bytes"
	"fmt"
	"image"

	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Prop{
		ID: "V15", Rule: "a stream entered or continued at a sequence header behind other pictures",
		Quick: 36000, Thorough: 800000, Run: runV15,
		Min: map[string]int64{"tuned_in": 2000, "skipped_ahead": 1000, "recovered": 300, "frames_compared": 20000, "leading_pictures_of_open_groups": 500,
			"closed_entries": 1000, "open_entries": 500, "entries_into_other_sequences": 300, "skipped_to_groups": 1000, "recovered_at_groups": 300, "entries_same_sequence": 1000},
	})
}

// An entry point: a sequence header followed by a group of pictures.
type vEntry struct {
	off   int // of the sequence header
	first int // position in display order of the first picture from here on
	from  int // position from which pictures depend on nothing before
	eos   int // sequence ends from here on
	elem  int
	seq   bool // starts a sequence (or repeats its header by choice of the generator)
	gop   bool // off is the one of a group header
}

// groups lists the group headers as entry points of a decoder that knows the sequence.
func (s *vStream) groups(data []byte) (l []vEntry) {
	for i, e := range s.elems {
		if e.gop == nil {
			continue
		}
		at := s.offs[i] + bytes.Index(data[s.offs[i]:], []byte{0, 0, 1, scGroup})
		if en, ok := s.entry(at, i, e.gop.closed); ok {
			en.gop = true
			l = append(l, en)
		}
	}
	return
}

// sameSequence tells whether no sequence starts or ends from byte at on up to the entry.
func (s *vStream) sameSequence(at int, en vEntry) bool {
	for i, e := range s.elems {
		if s.offs[i] >= at && s.offs[i] < en.off && (e.seq != nil || e.eos) {
			return false
		}
	}
	return true
}

func (s *vStream) entry(at, elem int, closed bool) (vEntry, bool) {
	en := vEntry{off: at, first: 1 << 30, elem: elem, seq: s.elems[elem].seq != nil}
	for _, x := range s.elems[elem:] {
		if x.pic != nil {
			if en.from == 0 && en.first == 1<<30 {
				en.from = x.pic.display // the I picture
			}
			if x.pic.display < en.first {
				en.first = x.pic.display
			}
		}
		if x.eos {
			en.eos++
		}
	}
	if closed {
		en.from = en.first
	}
	return en, en.first < 1<<30
}

func (s *vStream) entries(data []byte) (l []vEntry, all []int) {
	for off := 0; ; {
		k := bytes.Index(data[off:], []byte{0, 0, 1, scSeq})
		if k < 0 {
			break
		}
		all = append(all, off+k)
		off += k + 4
	}
	for i, e := range s.elems {
		at := s.offs[i]
		if !bytes.HasPrefix(data[at:], []byte{0, 0, 1, scSeq}) {
			continue
		}
		g := e.gop
		if e.seq != nil && i+1 < len(s.elems) {
			g = s.elems[i+1].gop
			// a repeated header in front of the group header
			if g != nil && bytes.HasPrefix(data[s.offs[i+1]:], []byte{0, 0, 1, scSeq}) {
				continue
			}
		}
		if g == nil {
			continue
		}
		if en, ok := s.entry(at, i, g.closed); ok {
			l = append(l, en)
		}
	}
	return
}

func runV15(c *Case) {
	r := c.R
	o := defaultOpt()
	o.maxMBW, o.maxMBH = 2, 2
	o.pics = r.In(4, 14)
	o.gopHeaders = 1
	o.density = r.N(2)
	o.exactBias = true
	o.qm = r.P(1, 3)
	o.repSeq = r.P(1, 3)
	s := genVideos(r, r.In(1, 3), o)
	d := &vDress{r: r, counts: map[string]int{}, only: map[string]bool{"repeated_sequence_header": true, "user_data": r.Bool()}}
	data := s.encode(d)
	full := decodeStream(c, data, chunkAll, len(s.pics)+2)
	c.Check(len(full.frames) == len(s.order), "whole stream: %d frames, %d pictures (%v)", len(full.frames), len(s.order), full.err)
	l, all := s.entries(data)
	if len(l) == 0 {
		c.Sig(data, false)
		return
	}
	judge := func(what string, en vEntry, got []*image.YCbCr, eos int, err error) {
		want := full.frames[en.first:]
		c.Check(len(got) == len(want), "%s: %d frames, want %d (ended with %v)", what, len(got), len(want), err)
		for i := range got {
			dp := en.first + i
			if dp < en.from {
				c.Count("leading_pictures_of_open_groups", 1)
				continue
			}
			if x := sameFrame(got[i], want[i]); x != "" {
				c.Fail("%s: frame %d of %d (%d in the whole stream): %s", what, i, len(got), dp, x)
			}
			c.Count("frames_compared", 1)
		}
		c.Check(eos == en.eos, "%s: %d sequence ends, want %d", what, eos, en.eos)
		c.Check(err.Error() == full.err.Error(), "%s: ended with %v, the whole stream with %v", what, err, full.err)
		if en.from == en.first {
			c.Count("closed_entries", 1)
		} else {
			c.Count("open_entries", 1)
		}
		if s.elems[en.elem].seq != nil {
			c.Count("entries_into_other_sequences", 1)
		} else {
			c.Count("entries_same_sequence", 1)
		}
	}
	// tuning in
	en := l[r.N(len(l))]
	lo := 0
	for _, a := range all {
		if a < en.off {
			lo = a + 1
		}
	}
	start := r.In(lo, en.off)
	vs := video.NewVideoSequence(newSource(data[start:], r.N(chunkStyles), r))
	if bits := r.N(8); start < en.off && r.P(1, 3) {
		if _, err := vs.Read32(uint(bits)); err != nil {
			c.Fail("harness read: %v", err)
		}
	}
	if err := vs.AlignTo(video.SequenceHeaderStartCode); err != nil {
		c.Fail("tuning in at byte %d: AlignTo returned %v, a sequence header is at %d", start, err, en.off)
	}
	res := runDecoder(c, vs, len(s.pics)+2)
	judge("tuned in", en, res.frames, len(res.eosAt), res.err)
	c.Count("tuned_in", 1)

	// the group headers between which nothing but pictures matters
	groups := s.groups(data)
	for _, p := range s.pics {
		if p.qm != nil {
			groups = nil
		}
	}
	code := func(en vEntry) video.StartCode {
		if en.gop {
			return video.GroupStartCode
		}
		return video.SequenceHeaderStartCode
	}

	// skipping ahead: after m frames go to the next sequence or group header
	for t := 0; t < 3; t++ {
		m := r.N(len(s.order))
		last := -1
		for _, i := range s.order[:m] {
			if i > last {
				last = i
			}
		}
		at := 0
		if last >= 0 {
			at = s.pics[last].end
		}
		next := -1
		for _, a := range all {
			if a >= at {
				next = a
				break
			}
		}
		ok := false
		if r.Bool() {
			for _, e := range groups {
				if e.off >= at {
					en, ok, next = e, s.sameSequence(at, e), e.off
					break
				}
			}
		} else {
			for _, e := range l {
				if e.off == next {
					en, ok = e, true
				}
			}
		}
		if !ok || m == 0 {
			continue
		}
		vs := video.NewVideoSequence(newSource(data, r.N(chunkStyles), r))
		var got []*image.YCbCr
		for len(got) < m {
			img, err := vs.Next()
			if err == video.EOS {
				continue
			}
			c.Check(err == nil, "frame %d: %v", len(got), err)
			got = append(got, img)
		}
		if err := vs.AlignTo(code(en)); err != nil {
			c.Fail("skipping ahead after %d frames: AlignTo returned %v, a header is at %d", m, err, next)
		}
		res := runDecoder(c, vs, len(s.pics)+2)
		rest := res.frames
		// a picture that was decoded ahead may still come
		if m < len(s.order) && m < en.first && s.order[m] <= last && len(rest) == len(s.order)-en.first+1 {
			if x := sameFrame(rest[0], full.frames[m]); x != "" {
				c.Fail("skipping ahead after %d frames: the frame decoded before: %s", m, x)
			}
			rest = rest[1:]
			c.Count("frames_decoded_ahead", 1)
		}
		judge("skipped ahead", en, rest, len(res.eosAt), res.err)
		for i := range got {
			if x := sameFrame(got[i], full.frames[i]); x != "" {
				c.Fail("frame %d: %s", i, x)
			}
		}
		c.Count("skipped_ahead", 1)
		if en.gop {
			c.Count("skipped_to_groups", 1)
		}
	}
	if len(groups) > 0 && r.P(1, 3) {
		l, all = groups, nil
		for _, e := range groups {
			all = append(all, e.off)
		}
	}
	recoverV15(c, s, data, l, all, judge)
	c.Sig(data, start > 0)
	c.Sample("%d pictures, %d sequence headers, tuned in at byte %d of %d", len(s.pics), len(all), start, len(data))
}

// recoverV15: after an error in a damaged picture, go on at the next entry.
func recoverV15(c *Case, s *vStream, data []byte, l []vEntry, all []int, judge func(string, vEntry, []*image.YCbCr, int, error)) {
	r := c.R
	last := l[len(l)-1].off
	var pics []*vPic
	for _, p := range s.pics {
		if p.end <= last {
			pics = append(pics, p)
		}
	}
	if len(pics) == 0 {
		return
	}
	bad := append([]byte{}, data...)
	p := pics[r.N(len(pics))]
	lastBad := 0
	for k, n := 0, r.In(1, 4); k < n; k++ {
		from := p.off + bytes.Index(data[p.off:p.end], []byte{0, 0, 1, 1}) + 4
		for t := 0; t < 20; t++ {
			i := r.In(from, p.end-1)
			if i < 4 || i+4 > len(data) || bytes.Contains(data[i-3:i+4], []byte{0, 0, 1}) {
				continue
			}
			bad[i] = byte(r.N(256)) | []byte{0x80, 0x40, 0x02}[r.N(3)]
			lastBad = max(lastBad, i)
			break
		}
	}
	src := newSource(bad, chunkOne, r)
	vs := video.NewVideoSequence(src)
	var err error
	for n := 0; ; n++ {
		if _, err = vs.Next(); err != nil && err != video.EOS {
			break
		}
		c.Check(n < 2*len(s.pics)+16, "damaged stream: endless results")
	}
	if isEnd(err) {
		c.Count("damage_unnoticed", 1)
		return
	}
	// where it stopped is known up to what it looked ahead
	next := -1
	for _, a := range all {
		if a >= src.pos {
			next = a
			break
		}
		if a > src.pos-16 {
			return
		}
	}
	for _, en := range l {
		if en.off != next || lastBad > next {
			continue
		}
		code := video.SequenceHeaderStartCode
		if en.gop {
			code = video.GroupStartCode
			if !s.sameSequence(p.off, en) {
				return
			}
		}
		if e := vs.AlignTo(code); e != nil {
			c.Fail("after %v at byte %d: AlignTo returned %v, a header is at %d", err, src.pos, e, next)
		}
		res := runDecoder(c, vs, len(s.pics)+2)
		rest := res.frames
		// pictures decoded before the damage may still come
		if k := len(rest) - (len(s.order) - en.first); k > 0 && k <= 2 {
			rest = rest[k:]
			c.Count("frames_decoded_ahead", 1)
		}
		judge(fmt.Sprintf("going on after %q at byte %d", err, src.pos), en, rest, len(res.eosAt), res.err)
		c.Count("recovered", 1)
		if en.gop {
			c.Count("recovered_at_groups", 1)
		}
	}
}
