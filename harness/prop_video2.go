package main

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Prop{
		ID: "V01", Rule: "a header with at least one value that is not a default",
		Quick: 120000, Thorough: 3000000, Run: runV01,
		Min: map[string]int64{"sequence_headers": 1000, "group_headers": 1000, "time_codes_printed": 1000, "stuffing_after_header": 200,
			"sequence_extensions": 300, "picture_headers": 500, "coding_extensions": 500, "header_fields_compared": 20000, "size_extensions": 50},
		Assume: []string{"fields that the library keeps unexported are read by reflection; one that no longer exists under its ISO name is not compared"},
	})
	register(&Prop{
		ID: "V02", Rule: "input holding at least one start code prefix",
		Quick: 2000000, Thorough: 30000000, Run: runV02,
		Min: map[string]int64{"align_found": 2000, "align_not_found": 200, "align_unaligned": 500, "align_near_misses": 1000,
			"code_present": 1000, "code_absent": 1000, "id_present": 500, "id_absent": 500, "short_input": 200, "failing_source": 100, "program_stream_codes": 300, "headers_refused": 300},
	})
	register(&Prop{
		ID: "V04", Rule: "a run over at least 1000 blocks of one distribution",
		Quick: 96, Thorough: 3000, Run: runV04, Post: projPost,
		Min: map[string]int64{"blocks_judged": 100000, "ieee1180_runs": 12, "sparse_blocks": 2000, "extreme_blocks": 2000, "all_zero_blocks": 500,
			"samples_compared": 5000000},
		Assume: []string{"residuals are observed through saturation to 0..255 on flat references 0 and 255, that is within -255..255"},
	})
	register(&Prop{
		ID: "V14", Rule: "a stream with a sequence end or an unsupported tool after supported pictures",
		Quick: 45000, Thorough: 900000, Run: runV14,
		Min: map[string]int64{"sequences": 1000, "sequence_ends": 800, "streams_without_end": 100, "mpeg1": 50, "chroma_422": 50, "chroma_444": 50,
			"field_pictures": 50, "dual_prime": 50, "d_pictures": 30, "reserved_picture_types": 30, "sequence_scalable": 50,
			"spatial_scalable": 50, "frames_before_unsupported": 200, "headerless_gops": 50, "headerless_pictures": 100},
	})
}

// ---- V01 ----

// hdrField reads a field of a header, exported or not.
func hdrField(h interface{}, name string) (uint64, bool) {
	v := reflect.ValueOf(h)
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return 0, false
		}
		v = v.Elem()
	}
	f := v.FieldByName(name)
	if !f.IsValid() {
		return 0, false
	}
	switch f.Kind() {
	case reflect.Bool:
		if f.Bool() {
			return 1, true
		}
		return 0, true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(f.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return f.Uint(), true
	}
	return 0, false
}

type hdrWant struct {
	name string
	v    uint64
}

func bit(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// diffHeader compares the fields; it returns "" when all those that exist agree.
func diffHeader(h interface{}, want []hdrWant) (string, int) {
	n := 0
	for _, x := range want {
		g, ok := hdrField(h, x.name)
		if !ok {
			continue
		}
		n++
		if g != x.v {
			return fmt.Sprintf("%s is %d, coded %d", x.name, g, x.v), n
		}
	}
	return "", n
}

// matrixOf reads an [8][8] matrix field in its stored order.
func matrixOf(h interface{}, name string) (m [64]int, ok bool) {
	v := reflect.ValueOf(h).Elem().FieldByName(name)
	if !v.IsValid() || v.Kind() != reflect.Array || v.Len() != 8 || v.Index(0).Kind() != reflect.Array || v.Index(0).Len() != 8 {
		return m, false
	}
	for i := range m {
		e := v.Index(i / 8).Index(i % 8)
		if e.Kind() != reflect.Uint8 {
			return m, false
		}
		m[i] = int(e.Uint())
	}
	return m, true
}

func (s *vSeq) wantHeader() []hdrWant {
	return []hdrWant{
		{"horizontal_size_value", uint64(s.w & 0xfff)}, {"vertical_size_value", uint64(s.h & 0xfff)},
		{"aspect_ratio_information", uint64(s.aspect)}, {"frame_rate_code", uint64(s.frate)},
		{"bit_rate_value", uint64(s.bitrate & 0x3ffff)}, {"vbv_buffer_size_value", uint64(s.vbv & 0x3ff)},
		{"constrained_parameters_flag", bit(s.constrained)},
		{"load_intra_quantiser_matrix", bit(s.intraM != nil)}, {"load_non_intra_quantiser_matrix", bit(s.nonIntraM != nil)},
	}
}

func (s *vSeq) wantExtension() []hdrWant {
	return []hdrWant{
		{"profile_and_level_indication", uint64(s.profile)}, {"progressive_sequence", bit(s.prog)}, {"chroma_format", uint64(s.chroma)},
		{"horizontal_size_extension", uint64(s.w >> 12)}, {"vertical_size_extension", uint64(s.h >> 12)},
		{"bit_rate_extension", uint64(s.bitrate >> 18)}, {"vbv_buffer_size_extension", uint64(s.vbv >> 10)},
		{"low_delay", bit(s.lowDelay)}, {"frame_rate_extension_n", uint64(s.frN)}, {"frame_rate_extension_d", uint64(s.frD)},
	}
}

func (p *vPic) wantHeader() []hdrWant {
	l := []hdrWant{{"temporal_reference", uint64(p.tref)}, {"picture_coding_type", uint64(p.typ)}, {"vbv_delay", uint64(p.vbvDelay)}}
	if p.typ >= 2 {
		l = append(l, hdrWant{"full_pel_forward_vector", 0}, hdrWant{"forward_f_code", 7})
	}
	if p.typ == 3 {
		l = append(l, hdrWant{"full_pel_backward_vector", 0}, hdrWant{"backward_f_code", 7})
	}
	return l
}

func (p *vPic) wantExtension() []hdrWant {
	l := []hdrWant{
		{"intra_dc_precision", uint64(p.dcPrec)}, {"picture_structure", uint64(p.structure)}, {"top_field_first", bit(p.tff)},
		{"frame_pred_frame_dct", bit(p.fpfd)}, {"concealment_motion_vectors", bit(p.conceal)}, {"q_scale_type", uint64(p.qtype)},
		{"intra_vlc_format", uint64(p.ivlc)}, {"alternate_scan", uint64(p.altScan)}, {"repeat_first_field", bit(p.rff)},
		{"chroma_420_type", bit(p.c420)}, {"progressive_frame", bit(p.progFrame)}, {"composite_display_flag", bit(p.composite != nil)},
	}
	if x := p.composite; x != nil {
		l = append(l, hdrWant{"v_axis", uint64(x[0])}, hdrWant{"field_sequence", uint64(x[1])}, hdrWant{"sub_carrier", uint64(x[2])},
			hdrWant{"burst_amplitude", uint64(x[3])}, hdrWant{"sub_carrier_phase", uint64(x[4])})
	}
	return l
}

// anySeq is a sequence header of any legal size.
func anySeq(r *R) *vSeq {
	s := &vSeq{aspect: r.In(1, 15), frate: r.In(1, 8), bitrate: r.In(0, 1<<30-1), vbv: r.In(0, 1<<18-1),
		profile: r.In(0, 255), prog: r.Bool(), chroma: 1, lowDelay: r.Bool(), frN: r.N(4), frD: r.N(32), constrained: r.Bool()}
	size := func() int {
		for {
			v := r.In(1, 16383)
			switch r.N(5) {
			case 0:
				v = r.In(1, 4095)
			case 1:
				v = 1 << uint(r.N(14))
			case 2:
				v = 1<<uint(r.In(1, 14)) - 1
			}
			if v&0xfff != 0 {
				return v
			}
		}
	}
	s.w, s.h = size(), size()
	if r.Bool() {
		s.intraM = genMatrix(r)
	}
	if r.Bool() {
		s.nonIntraM = pairMatrix(r, s.intraM)
	}
	return s
}

func runV01(c *Case) {
	switch c.Idx % 4 {
	case 0:
		v01Sequence(c)
	case 1:
		v01Group(c)
	case 2:
		v01Size(c)
	case 3:
		v01Stream(c)
	}
}

// follow writes what comes after a header: zero stuffing and a start code.
func follow(c *Case, w *BW) (at int, code uint64) {
	w.Align()
	n := 0
	if c.R.P(1, 2) {
		n = c.R.In(1, 9)
		c.Count("stuffing_after_header", 1)
	}
	w.Raw(make([]byte, n))
	at = w.Len()
	code = uint64(c.R.N(256))
	w.Put(32, 0x100|code)
	w.Raw(c.R.Bytes(c.R.N(20)))
	return
}

// atStart checks that the reader stands just before byte `at` of data.
func atStart(c *Case, what string, br bitreader.BitReader, data []byte, at int) {
	rest := data[at:]
	for i, b := range rest {
		g, err := br.Read32(8)
		if err != nil {
			c.Fail("%s: the stream was not left at the next start code: reading byte %d of the %d after it: %v", what, i, len(rest), err)
		}
		if byte(g) != b {
			c.Fail("%s: the stream was not left at the next start code: byte %d after it reads %02x, want %02x", what, i, g, b)
		}
	}
	if _, err := br.Read32(8); err == nil {
		c.Fail("%s: the stream was not left at the next start code: more bytes remain than should", what)
	}
}

func v01Sequence(c *Case) {
	r := c.R
	s := anySeq(r)
	e := &vEnc{}
	e.writeSeq(s)
	// the header alone, up to its extension
	all := e.Bytes()
	k := 4 + bytes.Index(all[4:], []byte{0, 0, 1, 0xb5})
	w := &BW{}
	w.Raw(all[:k])
	at, _ := follow(c, w)
	data := w.Bytes()
	c.Sig(data, true)
	br := bitreader.NewReader(newSource(data, r.N(chunkStyles), r))
	sh, err := video.ReadSequenceHeader(br)
	if err != nil || sh == nil {
		c.Fail("ReadSequenceHeader of a legal header (%+v): %v", s.wantHeader(), err)
	}
	d, n := diffHeader(sh, s.wantHeader())
	if d != "" {
		c.Fail("sequence header: %s", d)
	}
	c.Count("header_fields_compared", n)
	for i, m := range []*[64]int{s.intraM, s.nonIntraM} {
		name := []string{"intra_quantiser_matrix", "non_intra_quantiser_matrix"}[i]
		g, ok := matrixOf(sh, name)
		if m == nil || !ok {
			continue
		}
		// kept either as coded or in raster order
		coded := [64]int{}
		for j := range coded {
			coded[j] = m[zigzag[j]]
		}
		if g != coded && g != *m {
			c.Fail("sequence header: %s is %v, coded %v", name, g, coded)
		}
		c.Count("matrices_compared", 1)
	}
	c.Count("sequence_headers", 1)
	atStart(c, "ReadSequenceHeader", br, data, at)
	c.Sample("sequence header %+v", s.wantHeader())
}

func v01Group(c *Case) {
	r := c.R
	df, h, m, s, f := r.N(2), r.N(24), r.N(60), r.N(60), r.N(60)
	if r.P(1, 4) {
		h, m, s, f = r.N(32), r.N(64), r.N(64), r.N(64)
	}
	g := &vGOP{tc: uint64(df)<<24 | uint64(h)<<19 | uint64(m)<<13 | 1<<12 | uint64(s)<<6 | uint64(f), closed: r.Bool(), broken: r.Bool()}
	e := &vEnc{}
	e.writeGOP(g)
	w := &BW{}
	w.Raw(e.Bytes())
	at, _ := follow(c, w)
	data := w.Bytes()
	c.Sig(data, true)
	br := bitreader.NewReader(newSource(data, r.N(chunkStyles), r))
	gh, err := video.ReadGOPHeader(br)
	if err != nil || gh == nil {
		c.Fail("ReadGOPHeader of a legal header: %v", err)
	}
	c.Check(gh.ClosedGOP == g.closed && gh.BrokenLink == g.broken, "group header: closed %v broken %v, coded %v %v", gh.ClosedGOP, gh.BrokenLink, g.closed, g.broken)
	tc := gh.TimeCode()
	want := video.TimeCode{DropFrame: df == 1, Hours: int32(h), Minutes: int32(m), Seconds: int32(s), Pictures: int32(f)}
	c.Check(tc == want, "time code %#v, coded %#v", tc, want)
	sep := ":"
	if df == 1 {
		sep = ";"
	}
	str := fmt.Sprintf("%d%d:%d%d:%d%d%s%d%d", h/10, h%10, m/10, m%10, s/10, s%10, sep, f/10, f%10)
	c.Check(tc.String() == str, "time code prints %q, want %q", tc.String(), str)
	c.Check(fmt.Sprint(tc) == str, "time code prints %q, want %q", fmt.Sprint(tc), str)
	c.Count("group_headers", 1)
	c.Count("time_codes_printed", 1)
	cf := video.ChromaFormat(c.R.N(6))
	c.Check(video.ChromaFormat420 == 1 && video.ChromaFormat422 == 2 && video.ChromaFormat444 == 3, "the chroma formats are numbered %d, %d, %d", video.ChromaFormat420, video.ChromaFormat422, video.ChromaFormat444)
	if cf >= 1 && cf <= 3 {
		str := []string{"", "4:2:0", "4:2:2", "4:4:4"}[cf]
		c.Check(cf.String() == str && fmt.Sprint(cf) == str, "chroma format %d prints %q, want %q", uint32(cf), cf.String(), str)
	}
	ct := video.PictureCodingType(c.R.N(8))
	pstr := fmt.Sprintf("%d?", uint32(ct))
	if ct >= 1 && ct <= 4 {
		pstr = "IPBD"[ct-1 : ct]
	}
	c.Check(ct.String() == pstr && fmt.Sprint(ct) == pstr, "picture coding type %d prints %q, want %q", uint32(ct), ct.String(), pstr)
	c.Check(video.IFrame == 1 && video.PFrame == 2 && video.BFrame == 3, "the picture coding types are numbered %d, %d, %d", uint32(video.IFrame), uint32(video.PFrame), uint32(video.BFrame))
	c.Check(video.PictureCodingType_IntraCoded == 1 && video.PictureCodingType_PredictiveCoded == 2 && video.PictureCodingType_BidirectionallyPredictiveCoded == 3 && video.PictureCodingType_DCIntraCoded == 4,
		"the picture coding types are numbered otherwise than in the standard")
	c.Count("header_fields_compared", 7)
	atStart(c, "ReadGOPHeader", br, data, at)
	c.Sample("time code %s", str)
}

// v01Size: sequence header and extension through the decoder, which then
// meets the end of the stream before it needs any picture.
func v01Size(c *Case) {
	r := c.R
	s := anySeq(r)
	d := &vDress{r: r, counts: map[string]int{}}
	e := &vEnc{d: d}
	if r.P(1, 3) {
		e.d = nil
	}
	e.writeSeq(s)
	p := &vPic{typ: 1, structure: 3, tref: r.N(1024), vbvDelay: r.N(65536)}
	p.fcode = [2][2]int{{15, 15}, {15, 15}}
	e.writePicHeader(p)
	data := e.Bytes()
	c.Sig(data, true)
	vs := video.NewVideoSequence(newSource(data, r.N(chunkStyles), r))
	if w, h := vs.Size(); w != -1 || h != -1 {
		c.Fail("Size before any header: %d x %d", w, h)
	}
	img, err := vs.Next()
	if img != nil || err == nil {
		c.Fail("a frame from a stream without slices: %v %v", img, err)
	}
	w, h := vs.Size()
	if w != s.w || h != s.h {
		c.Fail("Size() = %d x %d, coded %d x %d", w, h, s.w, s.h)
	}
	c.Count("header_fields_compared", 2)
	if s.w > 4095 || s.h > 4095 {
		c.Count("size_extensions", 1)
	}
	if msg, n := diffHeader(vs.SequenceHeader, s.wantHeader()); msg != "" {
		c.Fail("sequence header: %s", msg)
	} else {
		c.Count("header_fields_compared", n)
	}
	if msg, n := diffHeader(vs.SequenceExtension, s.wantExtension()); msg != "" {
		c.Fail("sequence extension: %s", msg)
	} else {
		c.Count("header_fields_compared", n)
	}
	c.Count("sequence_extensions", 1)
	c.Sample("size %dx%d", s.w, s.h)
}

// v01Stream: the headers reported while a stream is decoded.
func v01Stream(c *Case) {
	r := c.R
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.density, o.exactBias = 2, 2, 0, true
	o.qm = r.Bool()
	s := genVideo(r, o)
	for _, p := range s.pics {
		if r.P(1, 3) {
			p.composite = &[5]int{r.N(2), r.N(8), r.N(2), r.N(128), r.N(256)}
		}
	}
	d := &vDress{r: r, counts: map[string]int{}, only: map[string]bool{"user_data": true, "sequence_display": true, "copyright": true,
		"extra_picture": true, "stuffing": true, "picture_display": true}}
	if r.P(1, 3) {
		d = nil
	}
	data := s.encode(d)
	c.Sig(data, true)
	// the group header in force for every picture
	gops := map[*vPic]*vGOP{}
	var g *vGOP
	for _, e := range s.elems {
		if e.gop != nil {
			g = e.gop
		}
		if e.pic != nil {
			gops[e.pic] = g
		}
	}
	vs := video.NewVideoSequence(newSource(data, r.N(chunkStyles), r))
	need := -1
	for d, i := range s.order {
		if _, err := vs.Next(); err != nil {
			c.Fail("frame %d: %v", d, err)
		}
		if i > need {
			need = i
		}
		if msg, n := diffHeader(vs.SequenceHeader, s.pics[i].seq.wantHeader()); msg != "" {
			c.Fail("sequence header: %s", msg)
		} else {
			c.Count("header_fields_compared", n)
		}
		// the headers reported are those of the last picture decoded, which is
		// at least the last one this frame needed
		var bad []string
		ok := false
		for k := need; k < len(s.pics) && !ok; k++ {
			p := s.pics[k]
			m1, n1 := diffHeader(vs.PictureHeader, p.wantHeader())
			m2, n2 := diffHeader(vs.PictureCodingExtension, p.wantExtension())
			str := fmt.Sprintf("[%s%d]", []string{"", "I", "P", "B"}[p.typ], p.tref)
			m3, m4 := "", ""
			if vs.PictureHeader != nil && vs.PictureHeader.String() != str {
				m3 = fmt.Sprintf("picture header prints %q, want %q", vs.PictureHeader.String(), str)
			}
			if g := gops[p]; g != nil {
				tc := vs.GroupOfPicturesHeader.TimeCode()
				want := video.TimeCode{DropFrame: g.tc>>24 == 1, Hours: int32(g.tc >> 19 & 31), Minutes: int32(g.tc >> 13 & 63), Seconds: int32(g.tc >> 6 & 63), Pictures: int32(g.tc & 63)}
				if tc != want || vs.ClosedGOP != g.closed || vs.BrokenLink != g.broken {
					m4 = fmt.Sprintf("group header %v closed %v broken %v, coded %v %v %v", tc, vs.ClosedGOP, vs.BrokenLink, want, g.closed, g.broken)
				}
			}
			if m1+m2+m3+m4 == "" {
				ok = true
				c.Count("header_fields_compared", n1+n2+1)
			} else if len(bad) < 2 {
				bad = append(bad, fmt.Sprintf("picture %d: %s %s %s %s", k, m1, m2, m3, m4))
			}
			if f, ok := reflectFcode(vs.PictureCodingExtension); ok && m1+m2+m3+m4 == "" {
				for a := 0; a < 4; a++ {
					if f[a] != uint64(p.fcode[a/2][a%2]) {
						c.Fail("f_code[%d][%d] of picture %d is %d, coded %d", a/2, a%2, k, f[a], p.fcode[a/2][a%2])
					}
				}
			}
		}
		if !ok {
			c.Fail("after frame %d: %s", d, strings.Join(bad, "; "))
		}
		c.Count("picture_headers", 1)
		c.Count("coding_extensions", 1)
	}
}

func reflectFcode(h interface{}) (f [4]uint64, ok bool) {
	v := reflect.ValueOf(h)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return f, false
	}
	v = v.Elem().FieldByName("f_code")
	if !v.IsValid() || v.Kind() != reflect.Array || v.Len() != 2 || v.Index(0).Kind() != reflect.Array || v.Index(0).Len() != 2 || v.Index(0).Index(0).Kind() != reflect.Uint32 {
		return f, false
	}
	for i := range f {
		f[i] = v.Index(i / 2).Index(i % 2).Uint()
	}
	return f, true
}

// ---- V02 ----

// codeSoup is full of start codes and near misses.
func codeSoup(r *R, n int, code byte) []byte {
	var b []byte
	for len(b) < n {
		switch r.N(9) {
		case 0:
			b = append(b, 0, 0, 1, byte(r.N(256)))
		case 1:
			b = append(b, 0, 0, 0, 1, code)
		case 2:
			b = append(b, 0, 0, 1)
		case 3:
			b = append(b, 0, 0)
		case 4:
			b = append(b, make([]byte, r.N(6))...)
		case 5:
			b = append(b, 0, 1, code)
		case 6:
			b = append(b, 0, 0, 1, code^byte(1<<uint(r.N(8))))
		case 7:
			b = append(b, r.Bytes(r.N(8))...)
		case 8:
			if r.P(1, 3) {
				b = append(b, 0, 0, 1, code)
			}
		}
	}
	return b
}

func runV02(c *Case) {
	switch c.Idx % 3 {
	case 0:
		v02Align(c)
	case 1:
		v02Code(c)
	case 2:
		v02ID(c)
	}
}

var alignCodes = []video.StartCode{video.SequenceHeaderStartCode, video.PictureStartCode, video.GroupStartCode, video.SequenceEndStartCode,
	video.UserDataStartCode, video.ExtensionStartCode, video.MinSliceStartCode, video.MaxSliceStartCode, 0x100 | 0x37}

func v02Align(c *Case) {
	r := c.R
	code := alignCodes[r.N(len(alignCodes))]
	n := r.N(120)
	if r.P(1, 10) {
		n = r.N(9000)
	}
	data := codeSoup(r, n, byte(code))
	src := newSource(data, r.N(chunkStyles), r).ends(r)
	wantErr := io.EOF
	end := len(data)
	if r.P(1, 4) {
		src.errAt, src.err = r.N(len(data)+1), errSource
		wantErr = errSource
		end = src.errAt
	}
	c.Sig(data, bytes.Contains(data, []byte{0, 0, 1}))
	vs := video.NewVideoSequence(src)
	pre := r.N(24)
	if r.Bool() {
		pre = 8 * r.N(4)
	}
	if pre > 8*end {
		pre = 0
	}
	if pre > 0 {
		if err := vs.Skip(uint(pre)); err != nil {
			c.Fail("reading the first %d bits: %v", pre, err)
		}
	}
	if pre%8 != 0 {
		c.Count("align_unaligned", 1)
	}
	pos := (pre + 7) / 8
	rounds := r.In(1, 4)
	for k := 0; k < rounds; k++ {
		at := -1
		for i := pos; i+4 <= end; i++ {
			if uint32(data[i])<<24|uint32(data[i+1])<<16|uint32(data[i+2])<<8|uint32(data[i+3]) == uint32(code) {
				at = i
				break
			}
			if data[i] == 0 && data[i+1] == 0 {
				c.Count("align_near_misses", 1)
			}
		}
		err := vs.AlignTo(code)
		if at < 0 {
			if err != wantErr {
				c.Fail("AlignTo(%08x) from byte %d: no such code, returned %v, want the source's end (%v)", uint32(code), pos, err, wantErr)
			}
			c.Count("align_not_found", 1)
			return
		}
		if err != nil {
			c.Fail("AlignTo(%08x) from byte %d (after %d bits): the code is at byte %d, returned %v", uint32(code), pos, pre, at, err)
		}
		c.Count("align_found", 1)
		// aligning again must not move
		if r.P(1, 3) {
			if err := vs.AlignTo(code); err != nil {
				c.Fail("AlignTo(%08x) on the code itself: %v", uint32(code), err)
			}
		}
		take := r.In(1, 5)
		if k == rounds-1 {
			take = end - at
		}
		for i := at; i < end && i < at+take; i++ {
			b, err := vs.Read32(8)
			if err != nil || byte(b) != data[i] {
				c.Fail("AlignTo(%08x) from byte %d: the first occurrence is at byte %d; %d bytes further the stream reads %02x %v, want %02x", uint32(code), pos, at, i-at, b, err, data[i])
			}
			pos = i + 1
		}
	}
}

// bitString reads all remaining bits.
func bitString(br bitreader.BitReader) (s []byte) {
	for {
		b, err := br.Read1()
		if err != nil {
			return
		}
		s = append(s, byte(bit(b)))
	}
}

func bitsOf(data []byte, from int) (s []byte) {
	for i := from; i < len(data)*8; i++ {
		s = append(s, data[i/8]>>uint(7-i%8)&1)
	}
	return
}

// A coder is a start code of either package.
type coder interface {
	Check(br bitreader.BitReader) (bool, error)
	Assert(br bitreader.BitReader) error
}

var psCodes = []ps.StartCode{ps.PackStartCode, ps.ProgramEndCode, ps.SystemHeaderStartCode}
var psCodeValues = []uint64{0x1ba, 0x1b9, 0x1bb}

func v02Code(c *Case) {
	r := c.R
	var code coder
	var val uint64
	wrongCode := video.ErrUnexpectedStartCode
	if k := r.N(4); k == 3 {
		k = r.N(len(psCodes))
		code, val, wrongCode = psCodes[k], psCodeValues[k], ps.ErrUnexpectedStartCode
		c.Count("program_stream_codes", 1)
	} else {
		k := alignCodes[r.N(len(alignCodes))]
		code, val = k, uint64(k)
	}
	off := 0
	if r.P(1, 3) {
		off = r.N(16)
	}
	w := &BW{}
	w.Put(uint(off), r.Bits(16))
	present := r.Bool()
	short := r.P(1, 6)
	v := val
	if !present {
		v = val ^ 1<<uint(r.N(32))
		if r.P(1, 4) {
			v = r.Bits(32)
		}
		present = v == val
	}
	w.Put(32, v)
	w.Raw(r.Bytes(r.N(10)))
	data := w.Bytes()
	src := newSource(data, r.N(chunkStyles), r)
	wantErr := io.EOF
	if short {
		k := r.N((off + 32) / 8) // fewer than the 32 bits are there
		if k*8 < off {
			off = 0
		}
		if r.Bool() {
			src.errAt, src.err = k, errSource
			wantErr = errSource
			c.Count("failing_source", 1)
		} else {
			src.data = data[:k]
		}
		c.Count("short_input", 1)
	}
	c.Sig(append([]byte{byte(off), byte(val)}, src.data...), true)
	br := bitreader.NewReader(src)
	if off > 0 {
		if err := br.Skip(uint(off)); err != nil {
			c.Fail("skip: %v", err)
		}
	}
	for i := r.N(3); i >= 0; i-- {
		ok, err := code.Check(br)
		if short {
			if ok || err != wantErr {
				c.Fail("Check(%08x) with too few bits left: %v, %v, want the source's end (%v)", uint32(val), ok, err, wantErr)
			}
		} else if err != nil || ok != present {
			c.Fail("Check(%08x) on %08x: %v, %v", uint32(val), v, ok, err)
		}
	}
	err := code.Assert(br)
	if !present && !short && r.Bool() {
		// the readers of headers assert their codes, too
		var got interface{}
		k := r.N(2)
		if k == 0 && v != uint64(video.SequenceHeaderStartCode) {
			var h *video.SequenceHeader
			if h, err = video.ReadSequenceHeader(br); h != nil {
				got = h
			}
			wrongCode = video.ErrUnexpectedStartCode
		} else if k == 1 && v != uint64(video.GroupStartCode) {
			var h *video.GroupOfPicturesHeader
			if h, err = video.ReadGOPHeader(br); h != nil {
				got = h
			}
			wrongCode = video.ErrUnexpectedStartCode
		}
		c.Check(got == nil, "a header was read from %08x: %+v", v, got)
		c.Count("headers_refused", 1)
	}
	left := off
	switch {
	case short:
		if err != wantErr {
			c.Fail("Assert(%08x) with too few bits left: %v, want the source's end (%v)", uint32(val), err, wantErr)
		}
		return
	case present:
		if err != nil {
			c.Fail("Assert(%08x) on the code: %v", uint32(val), err)
		}
		left += 32
		c.Count("code_present", 1)
	default:
		if err != wrongCode {
			c.Fail("Assert(%08x) on %08x: %v, want ErrUnexpectedStartCode", uint32(val), v, err)
		}
		c.Count("code_absent", 1)
	}
	if !bytes.Equal(bitString(br), bitsOf(src.data, left)) {
		c.Fail("Check and Assert(%08x) on %08x at bit %d: the stream does not continue at bit %d", uint32(val), v, off, left)
	}
	// which codes are slices
	k := video.StartCode(0x100 | r.N(256))
	if r.P(1, 10) {
		k = video.StartCode(r.Bits(32))
	}
	want := k >= 0x101 && k <= 0x1af
	if k.IsSlice() != want {
		c.Fail("IsSlice(%08x) = %v", uint32(k), !want)
	}
	// and which extensions are reserved (table 6-2; 11 and 12 differ between editions)
	x := r.N(16)
	if x != 11 && x != 12 {
		reserved := x == 0 || x == 6 || x > 12
		c.Check(video.ExtensionID(x).IsReserved() == reserved, "IsReserved(%d) = %v", x, !reserved)
	}
}

var extIDs = []video.ExtensionID{video.SequenceExtensionID, video.SequenceDisplayExtensionID, video.QuantMatrixExtensionID, video.CopyrightExtensionID,
	video.SequenceScalableExtensionID, video.PictureDisplayExtensionID, video.PictureCodingExtensionID, video.PictureSpatialScalableExtensionID, video.PictureTemporalScalableExtensionID}

var extIDValues = []uint64{1, 2, 3, 4, 5, 7, 8, 9, 10}

func v02ID(c *Case) {
	r := c.R
	k := r.N(len(extIDs))
	id := extIDs[k]
	off := r.N(12)
	w := &BW{}
	w.Put(uint(off), r.Bits(16))
	v := extIDValues[k]
	if r.Bool() {
		v = uint64(r.N(16))
	}
	present := v == extIDValues[k]
	w.Put(4, v)
	w.Align()
	w.Raw(r.Bytes(r.N(6)))
	data := w.Bytes()
	src := newSource(data, r.N(chunkStyles), r)
	short := r.P(1, 8)
	wantErr := io.EOF
	if short {
		off = 0
		if r.Bool() {
			src.errAt, src.err = 0, errSource
			wantErr = errSource
			c.Count("failing_source", 1)
		} else {
			src.data = nil
		}
		c.Count("short_input", 1)
	}
	c.Sig(append([]byte{byte(off), byte(k), byte(bit(short))}, src.data...), true)
	br := bitreader.NewReader(src)
	if off > 0 {
		if err := br.Skip(uint(off)); err != nil {
			c.Fail("skip: %v", err)
		}
	}
	for i := r.N(3); i >= 0; i-- {
		ok, err := id.Check(br)
		if short {
			if ok || err != wantErr {
				c.Fail("Check(extension %d) at the end: %v, %v, want %v", k, ok, err, wantErr)
			}
		} else if err != nil || ok != present {
			c.Fail("Check(extension %d) on %d: %v, %v", extIDValues[k], v, ok, err)
		}
	}
	err := id.Assert(br)
	left := off
	switch {
	case short:
		if err != wantErr {
			c.Fail("Assert(extension %d) at the end: %v, want %v", extIDValues[k], err, wantErr)
		}
		return
	case present:
		if err != nil {
			c.Fail("Assert(extension %d) on the id: %v", extIDValues[k], err)
		}
		left += 4
		c.Count("id_present", 1)
	default:
		if err != video.ErrUnexpectedExtensionID {
			c.Fail("Assert(extension %d) on %d: %v, want ErrUnexpectedExtensionID", extIDValues[k], v, err)
		}
		c.Count("id_absent", 1)
	}
	if !bytes.Equal(bitString(br), bitsOf(src.data, left)) {
		c.Fail("Check and Assert(extension %d) on %d at bit %d: the stream does not continue at bit %d", extIDValues[k], v, off, left)
	}
}

// ---- V04 ----

// ieeeRand is the generator of IEEE 1180-1990.
type ieeeRand struct{ x int32 }

func (g *ieeeRand) next(l, h int) int {
	g.x = int32(uint32(g.x)*1103515245 + 12345)
	i := int64(g.x & 0x7ffffffe)
	x := float64(i) / float64(0x7fffffff)
	return int(x*float64(l+h+1)) - l
}

// fdct is the exact forward transform, rounded and limited to 12 bits.
func fdct(p *[64]int) (f [64]int) {
	var t [64]float64
	for y := 0; y < 8; y++ {
		for u := 0; u < 8; u++ {
			s := 0.0
			for x := 0; x < 8; x++ {
				s += cosTab[x][u] * float64(p[y*8+x])
			}
			t[y*8+u] = s
		}
	}
	for v := 0; v < 8; v++ {
		for u := 0; u < 8; u++ {
			s := 0.0
			for y := 0; y < 8; y++ {
				s += cosTab[y][v] * t[y*8+u]
			}
			k := int(math.Floor(s + 0.5))
			if k < -2047 {
				k = -2047
			}
			if k > 2047 {
				k = 2047
			}
			f[v*8+u] = k
		}
	}
	return
}

// codeResiduals makes a stream whose P picture adds every block to flat
// references 0 and 255; it returns the stream. Coefficients pass the inverse
// quantisation unchanged: flat matrix of 16, quantiser scale 1.
func codeResiduals(blocks [][64]int) (*vStream, int) {
	n := (len(blocks) + 5) / 6 // macroblocks per reference
	const half = 16
	rows := (n + half - 1) / half
	seq := &vSeq{w: half * 32, h: rows * 16, aspect: 1, frate: 3, bitrate: 1, profile: 0x48, prog: true, chroma: 1}
	mk := func(typ int) *vPic {
		p := &vPic{typ: typ, seq: seq, structure: 3, fpfd: true, progFrame: true, c420: true, qtype: 1, fwdRef: -1, bwdRef: -1}
		p.fcode = [2][2]int{{15, 15}, {15, 15}}
		if typ == 2 {
			p.fcode[0] = [2]int{1, 1}
			p.tref, p.display, p.fwdRef = 1, 1, 0
		}
		return p
	}
	ref, pic := mk(1), mk(2)
	for row := 0; row < rows; row++ {
		s0, s1 := &vSlice{row: row, qsc: 1}, &vSlice{row: row, qsc: 1}
		for x := 0; x < 2*half; x++ {
			a := &vMB{x: x, intra: true}
			if x >= half {
				a.dc = [6]int{255, 255, 255, 255, 255, 255}
			}
			s0.mbs = append(s0.mbs, a)
			b := &vMB{x: x, fwd: true, motion: 2}
			for i := 0; i < 6; i++ {
				k := (row*half+x%half)*6 + i
				if k >= len(blocks) {
					continue
				}
				run := 0
				for j := 0; j < 64; j++ {
					v := blocks[k][zigzag[j]]
					if v == 0 {
						run++
						continue
					}
					b.blk[i] = append(b.blk[i], coef{run, v})
					run = 0
				}
				if len(b.blk[i]) > 0 {
					b.cbp |= 1 << uint(5-i)
				}
			}
			b.pattern = b.cbp != 0
			s1.mbs = append(s1.mbs, b)
		}
		ref.slices = append(ref.slices, s0)
		pic.slices = append(pic.slices, s1)
	}
	s := &vStream{pics: []*vPic{ref, pic}, order: []int{0, 1}}
	s.elems = []*vElem{{seq: seq}, {pic: ref}, {pic: pic}, {eos: true}}
	return s, half
}

// seenResidual reads the residual of sample j of block k back.
func seenResidual(img *image.YCbCr, half, k, j int) int {
	mb, i := k/6, k%6
	row, x := mb/half, mb%half
	px := func(x int) int {
		switch i {
		case 4:
			return int(img.Cb[(row*8+j/8)*img.CStride+x*8+j%8])
		case 5:
			return int(img.Cr[(row*8+j/8)*img.CStride+x*8+j%8])
		}
		return int(img.Y[(row*16+(i>>1)*8+j/8)*img.YStride+x*16+(i&1)*8+j%8])
	}
	lo, hi := px(x), px(x+half)
	if lo > 0 {
		return lo
	}
	return hi - 255
}

func runV04(c *Case) {
	r := c.R
	var blocks [][64]int
	kind := c.Idx % 8
	name := ""
	switch {
	case kind < 6: // the six IEEE 1180 runs
		l, h := [][2]int{{256, 255}, {5, 5}, {300, 300}}[kind%3][0], [][2]int{{256, 255}, {5, 5}, {300, 300}}[kind%3][1]
		sign := 1
		if kind >= 3 {
			sign = -1
		}
		g := &ieeeRand{1}
		if c.Idx >= 8 {
			g.x = int32(r.Bits(31) | 1)
		}
		for k := 0; k < 10000; k++ {
			var p [64]int
			for j := range p {
				p[j] = sign * g.next(l, h)
			}
			blocks = append(blocks, fdct(&p))
		}
		name = fmt.Sprintf("IEEE 1180 run, range %d..%d, sign %d", -l, h, sign)
		c.Count("ieee1180_runs", 1)
	case kind == 6: // sparse
		for k := 0; k < 3000; k++ {
			var b [64]int
			for n := r.In(1, 4); n > 0; n-- {
				m := []int{2, 20, 200, 1000, 2047}[r.N(5)]
				b[r.N(64)] = r.In(-m, m)
			}
			blocks = append(blocks, b)
		}
		c.Count("sparse_blocks", len(blocks))
		name = "sparse blocks"
	default: // extreme and empty
		for k := 0; k < 3000; k++ {
			var b [64]int
			switch r.N(4) {
			case 0: // nothing
				c.Count("all_zero_blocks", 1)
			case 1: // a single extreme coefficient
				b[r.N(64)] = []int{2047, -2047, 2046, -2046, 1024, -1024}[r.N(6)]
				c.Count("extreme_blocks", 1)
			case 2: // a checkerboard or stripes of full swing
				var p [64]int
				a, m := r.N(8), r.In(100, 255)
				for j := range p {
					p[j] = m
					if (j/8>>uint(a&1)+j%8>>uint(a>>1&1))&1 == 1 {
						p[j] = -m
					}
				}
				b = fdct(&p)
				c.Count("extreme_blocks", 1)
			case 3: // extreme steps
				var p [64]int
				at := r.N(64)
				m := r.In(150, 255)
				for j := range p {
					p[j] = m
					if j >= at {
						p[j] = -m
					}
					if r.P(1, 8) {
						p[j] = -p[j]
					}
				}
				b = fdct(&p)
				c.Count("extreme_blocks", 1)
			}
			blocks = append(blocks, b)
		}
		name = "extreme and empty blocks"
	}
	s, half := codeResiduals(blocks)
	data := s.encode(nil)
	c.Sig(data, len(blocks) >= 1000)
	c.Input = nil
	res := decodeStream(c, data, chunkAll, 3)
	if len(res.frames) != 2 {
		c.Fail("%s: %d frames, %v", name, len(res.frames), res.err)
	}
	ref := res.frames[0]
	for y := 0; y < s.pics[0].seq.h; y++ {
		for x := 0; x < half*32; x++ {
			if g := ref.Y[y*ref.YStride+x]; int(g) != x/(half*16)*255 {
				c.Fail("%s: the flat reference is %d at (%d,%d)", name, g, x, y)
			}
		}
	}
	img := res.frames[1]
	var sum, sq [64]int
	judged := 0
	for k := range blocks {
		f := blocks[k]
		zero := true
		tot := 0
		for _, v := range f {
			tot += v
			zero = zero && v == 0
		}
		alt := f[63] + 1
		if f[63]&1 != 0 {
			alt = f[63] - 1
		}
		if !zero && tot&1 == 0 { // mismatch control (7.4.4)
			f[63], alt = alt, f[63]
		}
		var diff [64]float64
		var clip [64]bool
		want := idctExact(&f)
		big := false
		for _, v := range want {
			big = big || math.Abs(v) > idctLimit
		}
		if big {
			continue
		}
		judged++
		for j := range want {
			w := int(math.Floor(want[j] + 0.5))
			if w > 255 {
				w = 255
			}
			if w < -255 {
				w = -255
			}
			g := seenResidual(img, half, k, j)
			diff[j] = float64(g) - want[j]
			clip[j] = math.Abs(want[j]) > 254
			e := g - w
			if e > 1 || e < -1 {
				c.Fail("%s: block %d sample %d: residual %d, exact %.4f", name, k, j, g, want[j])
			}
			if zero && g != 0 {
				c.Fail("%s: an empty block gives residual %d", name, g)
			}
			sum[j] += e
			sq[j] += e * e
		}
		if !zero {
			// The residuals of the other runs are near whole numbers, and rounding
			// then takes back what mismatch control does.
			sat := -1
			if kind == 6 {
				sat = 0
			}
			projection(c.Acc("proj", projLen), kind == 6, &f, alt, sat, nil, &diff, &clip)
		}
	}
	c.Count("blocks_judged", judged)
	c.Count("samples_compared", judged*64)
	if kind < 6 {
		n := float64(judged)
		ts, tq := 0, 0
		var worstMean, worstSq float64
		for j := range sum {
			ts += sum[j]
			tq += sq[j]
			worstMean = math.Max(worstMean, math.Abs(float64(sum[j]))/n)
			worstSq = math.Max(worstSq, float64(sq[j])/n)
		}
		mean, msq := math.Abs(float64(ts))/n/64, float64(tq)/n/64
		c.Sample("%s: worst position mean %.5f (limit 0.015), mean square %.5f (0.06); overall mean %.6f (0.0015), mean square %.5f (0.02)", name, worstMean, worstSq, mean, msq)
		if worstMean > 0.015 || worstSq > 0.06 || mean > 0.0015 || msq > 0.02 {
			c.Fail("%s: over the limits: worst position mean %.5f (limit 0.015), mean square %.5f (0.06); overall mean %.6f (0.0015), mean square %.5f (0.02)", name, worstMean, worstSq, mean, msq)
		}
	} else {
		c.Sample("%s: %d judged", name, judged)
	}
}

// ---- V14 ----

func runV14(c *Case) {
	if c.Idx%2 == 0 {
		v14Sequences(c)
	} else {
		v14Unsupported(c)
	}
}

func v14Sequences(c *Case) {
	r := c.R
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.density, o.pics = 3, 2, 0, 6
	o.noGOPAtAll = r.P(1, 3)
	n := r.In(1, 4)
	if c.Idx%400 == 100 { // ends where the temporal reference is about to wrap
		o.maxMBW, o.maxMBH, o.pics, n = 1, 1, r.In(1021, 1026), 2
		o.noGOPAtAll = r.P(2, 3)
		c.Count("ends_at_wrap", 1)
	}
	s := genVideos(r, n, o)
	noEnd := r.P(1, 4)
	if noEnd {
		s.elems = s.elems[:len(s.elems)-1]
	}
	data := s.encode(nil)
	if noEnd {
		// another picture header closes the last picture; nothing follows
		data = append(append([]byte{}, data...), 0, 0, 1, 0)
		c.Count("streams_without_end", 1)
	}
	c.Sig(data, true)
	c.Count("sequences", n)
	// every sequence alone
	var want []uint64
	var ends []int
	from := -1
	for i, e := range s.elems {
		if e.seq != nil && from < 0 {
			from = s.offs[i]
		}
		if e.eos || i == len(s.elems)-1 {
			part := data[from:s.offs[i+1]]
			if !e.eos {
				part = data[from:]
			}
			res := decodeStream(c, part, chunkAll, len(s.pics)+2)
			for _, f := range res.frames {
				want = append(want, hashFrame(f))
			}
			if e.eos {
				ends = append(ends, len(want))
				c.Check(len(res.eosAt) == 1, "one sequence alone: %d ends reported", len(res.eosAt))
			}
			from = -1
		}
	}
	c.Check(len(want) == len(s.order), "sequences decoded one by one give %d frames, %d were coded", len(want), len(s.order))
	vs := video.NewVideoSequence(newSource(data, r.N(chunkStyles), r))
	res := runDecoder(c, vs, len(s.order)+2)
	c.Check(fmt.Sprint(res.eosAt) == fmt.Sprint(ends), "ends of sequences reported after frames %v, want %v (then %v)", res.eosAt, ends, res.err)
	c.Check(len(res.frames) == len(want), "%d frames, want %d", len(res.frames), len(want))
	for i, f := range res.frames {
		c.Check(hashFrame(f) == want[i], "frame %d differs from the same frame when its sequence is decoded alone (sequences end at %v)", i, ends)
	}
	c.Check(isEnd(res.err) && (noEnd || res.err == io.EOF), "the stream ended with %v, want end-of-file", res.err)
	c.Count("sequence_ends", len(ends))
	for k := 0; k < 2; k++ {
		img, err := vs.Next()
		c.Check(img == nil && err != nil && err != video.EOS, "Next after the end of the file returned %v, %v", img != nil, err)
	}
	if !noEnd {
		var st reconStats
		s.check(c, res, &st)
	}
	if !noEnd {
		v14Headerless(c, s, data, len(res.frames), len(res.eosAt))
	}
	c.Sample("%d sequences, frames end at %v", n, ends)
}

// v14Headerless lets the stream go on after its last sequence end code with a
// group or a picture that no sequence header announces: nothing of the ended
// sequence may serve to decode it.
func v14Headerless(c *Case, s *vStream, data []byte, frames, eoss int) {
	r := c.R
	at := s.pics[r.N(len(s.pics))].off
	if k := bytes.LastIndex(data[:at], []byte{0, 0, 1, 0xb8}); k >= 0 && r.Bool() {
		at = k
		c.Count("headerless_gops", 1)
	} else {
		c.Count("headerless_pictures", 1)
	}
	tail := data[at:]
	vs := video.NewVideoSequence(newSource(append(append([]byte{}, data...), tail...), r.N(chunkStyles), r))
	for n, e := 0, 0; n < frames || e < eoss; {
		img, err := vs.Next()
		switch {
		case img != nil && err == nil:
			n++
		case img == nil && err == video.EOS:
			e++
		default:
			c.Fail("a group or picture after the last sequence end: %v, %v after %d of %d frames and %d of %d ends", img != nil, err, n, frames, e, eoss)
		}
	}
	_, want := video.NewVideoSequence(newSource(tail, r.N(chunkStyles), r)).Next()
	img, err := vs.Next()
	c.Check(img == nil && err != nil && err != video.EOS, "after the sequence end the stream goes on without a sequence header: Next returned (image %v, %v), a new decoder gives %v there", img != nil, err, want)
}

func v14Unsupported(c *Case) {
	r := c.R
	o := defaultOpt()
	o.maxMBW, o.maxMBH, o.density, o.pics = 3, 3, 1, 5
	o.types = r.In(1, 3)
	o.eos = 1
	kind := []string{"mpeg1", "chroma_422", "chroma_444", "field_pictures", "dual_prime", "d_pictures", "reserved_picture_types",
		"sequence_scalable", "spatial_scalable"}[c.Idx/2%9]
	if kind == "dual_prime" || kind == "field_pictures" {
		o.prog, o.fpfd = 0, 0
	}
	s := genVideo(r, o)
	seq := s.pics[0].seq
	first := 0 // coded index of the first unsupported picture
	if len(s.pics) > 1 && r.Bool() {
		first = r.N(len(s.pics))
	}
	var wantErr error
	var data []byte
	// sub is the stream with the pictures before the unsupported one
	sub := func() []byte { return s.data[:s.pics[first].off] }
	switch kind {
	case "mpeg1":
		first = 0
		wantErr = video.ErrUnsupportedVideoStream_ISO_IEC_11172_2
		s.encode(nil)
		w := &BW{}
		all := s.data
		w.Raw(all[:4+bytes.Index(all[4:], []byte{0, 0, 1, 0xb5})])
		if r.Bool() {
			w.Raw(append([]byte{0, 0, 1, 0xb2}, userBytes(r)...))
		}
		if r.Bool() {
			w.Put(32, 0x1b8)
			w.Put(25, 1<<12)
			w.Put(2, 2)
			w.Align()
		}
		w.Put(32, 0x100)
		w.Put(10, 0)
		w.Put(3, 1)
		w.Put(16, 0xffff)
		w.Put(1, 0)
		w.Align()
		w.Raw([]byte{0, 0, 1, 1, 0x0a, 0xfa, 0x34, 0x88, 0x12, 0, 0, 1, 0xb7})
		data = w.Bytes()
	case "chroma_422", "chroma_444":
		first = 0
		seq.chroma = 2
		if kind == "chroma_444" {
			seq.chroma = 3
		}
		data = s.encode(nil)
	case "sequence_scalable":
		first = 0
		data = s.encode(nil)
		w := &BW{}
		k := s.offs[1]
		w.Raw(data[:k])
		w.Put(32, 0x1b5)
		w.Put(4, idScalable)
		mode := r.N(4)
		w.Put(2, uint64(mode))
		w.Put(4, r.Bits(4))
		if mode == 1 {
			w.Put(14, r.Bits(14))
			w.Put(1, 1)
			w.Put(14, r.Bits(14))
			w.Put(20, r.Bits(20))
		}
		if mode == 3 {
			m := r.Bits(1)
			w.Put(1, m)
			if m == 1 {
				w.Put(1, 0)
			}
			w.Put(6, r.Bits(6))
		}
		w.Align()
		w.Raw(data[k:])
		data = w.Bytes()
	case "field_pictures":
		for _, p := range s.pics[first:] {
			if p.typ == 1 {
				p.structure = 1 + r.N(2)
				var l []*vSlice
				for _, sl := range p.slices {
					if sl.row < seq.mbH()/2 {
						l = append(l, sl)
					}
				}
				p.slices = l
				p.conceal = false
				p.tff, p.progFrame, p.rff = false, false, false
				first = s.codedIndex(p)
				break
			}
		}
		if s.pics[first].structure == 3 {
			return
		}
		data = s.encode(nil)
	case "dual_prime":
		// the first P picture with a forward macroblock from there on
		found := false
		for i := first; i < len(s.pics) && !found; i++ {
			p := s.pics[i]
			if p.typ != 2 {
				continue
			}
			for _, sl := range p.slices {
				for _, mb := range sl.mbs {
					if mb.fwd && !mb.skipped && !found {
						mb.motion = 3
						mb.mv[0][0] = [2]int{}
						found = true
						first = i
					}
				}
			}
		}
		if !found {
			return
		}
		data = s.encode(nil)
	case "d_pictures", "reserved_picture_types":
		s.encode(nil)
		t := byte(4)
		if kind != "d_pictures" {
			t = []byte{0, 5, 6, 7}[r.N(4)]
		}
		data = append([]byte{}, s.data...)
		k := s.pics[first].off + 5 // temporal_reference 10 bits, type 3 bits
		data[k] = data[k]&^0x38 | t<<3
		if s.pics[first].typ != 1 {
			// without the vector fields of P and B pictures
			w := &BW{}
			p := *s.pics[first]
			p.typ = 1
			p.slices = nil
			e := &vEnc{seq: seq, qm: newQMState(seq)}
			e.writePicHeader(&p)
			hdr := e.Bytes()
			hdr[5] = hdr[5]&^0x38 | t<<3
			w.Raw(s.data[:s.pics[first].off])
			w.Raw(hdr)
			rest := s.data[s.pics[first].off:]
			w.Raw(rest[bytes.Index(rest, []byte{0, 0, 1, 1}):])
			data = w.Bytes()
		}
	case "spatial_scalable":
		s.encode(nil)
		p := s.pics[first]
		rest := s.data[p.off:]
		k := p.off + bytes.Index(rest, []byte{0, 0, 1, 1})
		w := &BW{}
		w.Raw(s.data[:k])
		w.Put(32, 0x1b5)
		w.Put(4, idSpatial)
		w.Put(10, r.Bits(10))
		w.Put(1, 1)
		w.Put(15, r.Bits(15))
		w.Put(1, 1)
		w.Put(15, r.Bits(15))
		w.Put(4, r.Bits(4))
		w.Align()
		w.Raw(s.data[k:])
		data = w.Bytes()
	}
	c.Sig(append([]byte(kind), data...), true)
	c.Count(kind, 1)
	vs := video.NewVideoSequence(newSource(data, r.N(chunkStyles), r))
	var frames []*image.YCbCr
	var err error
	for {
		var img *image.YCbCr
		img, err = vs.Next()
		if err != nil {
			c.Check(img == nil, "%s: a frame together with %v", kind, err)
			break
		}
		frames = append(frames, img)
		c.Check(len(frames) <= first, "%s in coded picture %d of a stream: frame %d came out instead of an error", kind, first, len(frames)-1)
	}
	if err == video.EOS || isEnd(err) {
		c.Fail("%s in coded picture %d: reported as %v after %d frames, want an error that says so", kind, first, err, len(frames))
	}
	if c.named {
		wantErr = unsupportedErrors[kind]
		c.Count("unsupported: "+kind, 1)
		c.Count("named", 1)
	}
	if wantErr != nil && err != wantErr {
		c.Fail("%s: reported as %v, want %v", kind, err, wantErr)
	}
	if first > 0 && len(frames) > 0 {
		res := decodeStream(c, sub(), chunkAll, len(s.pics)+2)
		for i, f := range frames {
			if i < len(res.frames) {
				if d := sameFrame(f, res.frames[i]); d != "" {
					c.Fail("%s: frame %d before it: %s", kind, i, d)
				}
			}
		}
		c.Count("frames_before_unsupported", len(frames))
	}
	// going on must not crash
	for k := 0; k < 20; k++ {
		if _, err := vs.Next(); err == io.EOF || err == io.ErrUnexpectedEOF {
			break
		}
	}
	c.Sample("%s in coded picture %d: %d frames, then %v", kind, first, len(frames), err)
}

func (s *vStream) codedIndex(p *vPic) int {
	for i, q := range s.pics {
		if p == q {
			return i
		}
	}
	return -1
}
