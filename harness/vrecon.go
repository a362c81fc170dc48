package main

import (
	"fmt"
	"image"
	"math"
	"math/bits"
	"os"
)

// The reference reconstruction: what the standard defines a picture to be,
// given its coded elements and the decoded reference pictures. The inverse
// transform is the exact (double precision) one.

var cosTab = func() (t [8][8]float64) { // [x][u]
	for x := 0; x < 8; x++ {
		for u := 0; u < 8; u++ {
			c := 0.5
			if u == 0 {
				c = math.Sqrt(0.125)
			}
			t[x][u] = c * math.Cos(float64(2*x+1)*float64(u)*math.Pi/16)
		}
	}
	return
}()

// idctExact is the two-dimensional inverse transform of annex A.
func idctExact(F *[64]int) (f [64]float64) {
	var t [64]float64
	for v := 0; v < 8; v++ {
		for u := 0; u < 8; u++ {
			if F[v*8+u] != 0 {
				a := float64(F[v*8+u])
				for x := 0; x < 8; x++ {
					t[v*8+x] += cosTab[x][u] * a
				}
			}
		}
	}
	for v := 0; v < 8; v++ {
		for x := 0; x < 8; x++ {
			if a := t[v*8+x]; a != 0 {
				for y := 0; y < 8; y++ {
					f[y*8+x] += cosTab[y][v] * a
				}
			}
		}
	}
	return
}

func signOf(v int) int {
	switch {
	case v > 0:
		return 1
	case v < 0:
		return -1
	}
	return 0
}

// deqInfo is what happened to a block in dequant. alt is what the last coefficient
// would be if mismatch control had decided the other way, sat is the class of the block: 0 if nothing
// saturated, 1 if something did, more if some coefficient was just at the limit.
type deqInfo struct {
	alt, sat int
	sum      int // of the coefficients, and the last of them, before mismatch control
	pre63    int
	count    int // of coded coefficients, without the DC coefficient of intra blocks
	last     int // scan position of the last of them
	level    int // largest magnitude
	weight   int // largest and smallest value of the matrix at one of them
	weightLo int
}

// dequant applies clauses 7.3 and 7.4 to one block.
func dequant(p *vPic, mb *vMB, i int, qsc int, W *[64]int) (F [64]int, info deqInfo) {
	n := 0
	alt, sat := 0, 0
	info.weightLo = 255
	sc := scans[p.altScan]
	qs := quantScale(p.qtype, qsc)
	put := func(pos, q int) {
		if mb.intra && pos == 0 {
			F[0] = q << uint(3-p.dcPrec)
			return
		}
		k := 0
		if !mb.intra {
			k = signOf(q)
		}
		F[pos] = (2*q + k) * W[pos] * qs / 32
	}
	if mb.intra {
		put(0, mb.dc[i])
		n = 1
	}
	for _, c := range mb.blk[i] {
		n += c.run
		put(sc[n], c.level)
		info.count++
		info.last = n
		info.level = max(info.level, c.level, -c.level)
		info.weight = max(info.weight, W[sc[n]])
		info.weightLo = min(info.weightLo, W[sc[n]])
		n++
	}
	sum := 0
	for j := range F {
		for k, v := range atLimit {
			if F[j] == v {
				sat = 2 + k
			}
		}
	}
	for j := range F {
		if (F[j] > 2047 || F[j] < -2048) && sat == 0 {
			sat = 1
		}
		if F[j] > 2047 {
			F[j] = 2047
		}
		if F[j] < -2048 {
			F[j] = -2048
		}
		sum += F[j]
	}
	info.sum, info.pre63 = sum, F[63]
	alt = F[63] + 1
	if F[63]&1 != 0 {
		alt = F[63] - 1
	}
	if sum&1 == 0 {
		F[63], alt = alt, F[63]
	}
	info.alt, info.sat = alt, sat
	return
}

// The samples of a block are rounded, so that an error of one in a coefficient moves
// hardly any of them by more than rounding may. But it moves the coefficient that the
// forward transform finds in the samples by one, on average. projection sums these
// differences up over all blocks, to be judged by projPost.
//
// Layout of proj: for non-intra and intra blocks, for every coefficient: number of
// blocks where it isn't zero, sum of 1000 times the difference in the direction
// of its sign. Then, for every class of blocks (see dequant): 1000 times the
// difference of the last coefficient in the direction that the other decision
// of mismatch control would move it, and what this would come to. Then, for
// every precision of DC coefficients, size and sign of what is coded of one:
// number of blocks, sum of 1000 times the difference of the DC coefficient.
const (
	projMismatch = 2 * 64 * 2
	projDC       = projMismatch + 2*(2+len(atLimit))
	projLen      = projDC + 2*4*12*2
)

// atLimit are the values around the ends of the range of coefficients.
var atLimit = [...]int{2046, 2047, 2048, 2049, -2047, -2048, -2049, -2050}

// dcClass says how the DC coefficient of an intra block was coded.
type dcClass struct {
	prec, size, neg int
	edge            int // 1: the smallest of its size, 2: the largest
	chroma          int
}

func dcEdge(d int) int {
	switch n := bits.Len(uint(d)); {
	case n == 0:
		return 0
	case d == 1<<uint(n)-1:
		return 2
	case d == 1<<uint(n-1):
		return 1
	}
	return 0
}

func (d *dcClass) String() string {
	return fmt.Sprintf("the DC coefficient of blocks with intra_dc_precision %d, dct_dc_size %d, negative %d", d.prec, d.size, d.neg)
}

func projection(proj []int64, intra bool, F *[64]int, alt int, sat int, dc *dcClass, e *[64]float64, clipped *[64]bool) {
	any := false
	num, den := 0.0, 0.0
	for j := range e {
		if clipped[j] {
			any = true
			continue
		}
		b := cosTab[j%8][7] * cosTab[j/8][7]
		num += e[j] * b
		den += b * b
	}
	// Where the exact samples fall between whole numbers is the same all over
	// some blocks, and rounding then moves a coefficient a lot.
	seen, spread := [16]bool{}, 0
	for _, v := range e {
		if k := int(16 * (v - math.Floor(v))); k < 16 && !seen[k] {
			seen[k] = true
			spread++
		}
	}
	if den >= 0.25 && spread >= 10 && sat >= 0 {
		k := projMismatch + 2*sat
		proj[k] += int64(math.Round(1000 * num * float64(alt-F[63])))
		proj[k+1] += int64(math.Round(1000 * den))
	}
	if any || spread < 10 {
		return
	}
	k := 0
	if intra {
		k = 64 * 2
	}
	for n := range F {
		if F[n] == 0 {
			continue
		}
		d := 0.0
		for j := range e {
			d += e[j] * cosTab[j%8][n%8] * cosTab[j/8][n/8]
		}
		if n == 0 && dc != nil {
			x := projDC + 2*((dc.prec*12+dc.size)*2+dc.neg)
			proj[x]++
			proj[x+1] += int64(math.Round(1000 * d))
		}
		proj[k+2*n]++
		proj[k+2*n+1] += int64(math.Round(1000 * d * float64(signOf(F[n]))))
	}
}

// projPost judges the sums of projection: every difference is zero on average.
func projPost(m *Merged) string {
	proj := m.Acc["proj"]
	if proj == nil {
		return ""
	}
	judged := 0
	worst, worstAt := 0.0, ""
	for k := 0; k < 2*64; k++ {
		n, sum := float64(proj[2*k]), float64(proj[2*k+1])/1000
		if n < 400 { // too few: rounding alone may come to this
			continue
		}
		judged++
		what := fmt.Sprintf("coefficient (%d,%d) of %s blocks", k%64%8, k%64/8, []string{"non-intra", "intra"}[k/64])
		if math.Abs(sum/n) > worst {
			worst, worstAt = math.Abs(sum/n), what
		}
		if math.Abs(sum/n) > 0.2 {
			return fmt.Sprintf("%s is %.3f too large on average (%v blocks)", what, sum/n, n)
		}
	}
	for k := 0; k < 4*12*2; k++ {
		n, sum := float64(proj[projDC+2*k]), float64(proj[projDC+2*k+1])/1000
		if n < 400 {
			continue
		}
		m.Counters["dc_classes_judged"]++
		if what := (&dcClass{prec: k / 24, size: k / 2 % 12, neg: k % 2}).String(); math.Abs(sum/n) > 0.2 {
			return fmt.Sprintf("%s is %.3f too large on average (%v blocks)", what, sum/n, n)
		} else if math.Abs(sum/n) > worst {
			worst, worstAt = math.Abs(sum/n), what
		}
	}
	for sat := 0; sat < 2+len(atLimit); sat++ {
		num, den := float64(proj[projMismatch+2*sat])/1000, float64(proj[projMismatch+2*sat+1])/1000
		if den < 200 || sat < 2 && den < 400 {
			continue
		}
		what := "without saturation"
		if sat == 1 {
			what = "with saturation"
		} else if sat > 1 {
			what = fmt.Sprintf("with a coefficient of %d before saturation", atLimit[sat-2])
			m.Counters["limit_classes_judged"]++
		}
		judged++
		m.Counters["mismatch_control_blocks"] += int64(den)
		if sat > 0 {
			m.Counters["mismatch_control_blocks_saturated"] += int64(den)
		}
		if math.Abs(num/den) > 0.15 {
			return fmt.Sprintf("mismatch control decides otherwise in %.0f%% of the blocks %s", 100*num/den, what)
		}
		m.Samples = append([]string{fmt.Sprintf("mismatch decisions off by %.4f in blocks %s (%.0f)", num/den, what, den)}, m.Samples...)
	}
	m.Counters["coefficients_judged_on_average"] = int64(judged)
	m.Samples = append([]string{fmt.Sprintf("largest average difference: %.4f (%s); limit 0.2", worst, worstAt)}, m.Samples...)
	return ""
}

// A decoder whose inverse transform is as accurate as IEEE 1180 wants it rounds
// a sample otherwise than the exact transform in fewer than 2 % of the cases,
// and in fewer than 6 % at every position. A coefficient that is off by one
// moves a sample by a tenth on average and makes 10 % of them round otherwise,
// though none is off by more than one. So offClasses counts these samples, for
// many classes of blocks, and offPost judges the classes.
//
// The second thing it counts is which decision of mismatch control the samples
// speak for: those that would round otherwise with the other decision.
type offDim struct {
	name string
	n    int
	at   func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int
}

var offDims = []offDim{
	{"DC edge", 2 * 2 * 12 * 3, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		if dc == nil {
			return -1
		}
		return ((dc.chroma*2+dc.neg)*12+dc.size)*3 + dc.edge
	}},
	{"last coefficient", 5, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		switch v := info.pre63; {
		case v > 0:
			return 1 + v&1
		case v < 0:
			return 3 + v&1
		}
		return 0
	}},
	{"sum", 6, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		return (info.sum&1)*3 + 1 + signOf(info.sum)
	}},
	{"coefficients", 65, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int { return info.count }},
	{"last position", 64, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int { return info.last }},
	{"quantiser scale", 64, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		return p.qtype*32 + mb.usedQscale
	}},
	{"block", 24, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		return (int(bit(mb.fieldDCT))*2+p.altScan)*6 + i
	}},
	{"table", 4, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		return p.ivlc*2 + p.altScan
	}},
	{"saturation", 2 + len(atLimit), func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int { return info.sat }},
	{"largest level", 128, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		if info.level < 100 {
			return info.level
		}
		return 100 + bits.Len(uint(info.level))
	}},
	{"largest weight", 256, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int { return info.weight }},
	{"smallest weight", 256, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int { return info.weightLo }},
	{"prediction", 16, func(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass) int {
		return (int(bit(mb.fwd))*2+int(bit(mb.bwd)))*4 + int(bit(!p.fpfd && mb.motion == 1))*2 + int(bit(p.typ == 3))
	}},
}

var offLen = func() (n int) {
	for _, d := range offDims {
		n += d.n
	}
	return n * 2 * 4
}()

func (st *reconStats) offClasses(p *vPic, mb *vMB, i int, info *deqInfo, F *[64]int, dc *dcClass, e *[64]float64, clipped *[64]bool) {
	if st.off == nil {
		return
	}
	var sum [4]int64 // samples, off by one, for this decision, for the other
	d := float64(info.alt - F[63])
	for j := range e {
		if clipped[j] {
			continue
		}
		sum[0]++
		a := math.Abs(e[j]) < 0.5000001
		if !a {
			sum[1]++
		}
		b := math.Abs(e[j]-d*cosTab[j%8][7]*cosTab[j/8][7]) < 0.5000001
		if a && !b {
			sum[2]++
		} else if b && !a {
			sum[3]++
		}
	}
	base := 0
	for _, dim := range offDims {
		if k := dim.at(p, mb, i, info, F, dc); k >= 0 {
			x := (base + k*2 + int(bit(mb.intra))) * 4
			for n, v := range sum {
				st.off[x+n] += v
			}
		}
		base += dim.n * 2
	}
}

func offPost(m *Merged) string {
	if s := projPost(m); s != "" {
		return s
	}
	off := m.Acc["off"]
	if off == nil {
		return ""
	}
	base, judged := 0, 0
	worst, worstAt := 0.0, ""
	worstV, worstVAt := 0.0, ""
	for _, dim := range offDims {
		for k := 0; k < dim.n*2; k++ {
			v := off[(base+k)*4:]
			what := fmt.Sprintf("%s class %d %s", dim.name, k/2, []string{"non-intra", "intra"}[k%2])
			if v[0] >= 6400 {
				judged++
				r, limit := float64(v[1])/float64(v[0]), 0.09
				if v[0] >= 64000 {
					limit = 0.06
				}
				if r > worst {
					worst, worstAt = r, what
				}
				if r > limit {
					return fmt.Sprintf("%.1f%% of %d samples in blocks of %s round otherwise than those of the exact transform", 100*r, v[0], what)
				}
			} else if v[0] > 0 && os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(what, v[0])
			}
			if n := v[2] + v[3]; n >= 2000 {
				r := float64(v[3]) / float64(n)
				if r > worstV {
					worstV, worstVAt = r, what
				}
				if r > 0.25 {
					return fmt.Sprintf("%.0f%% of %d samples in blocks of %s speak for the other decision of mismatch control", 100*r, n, what)
				}
			}
		}
		base += dim.n * 2
	}
	m.Counters["block_classes_judged"] = int64(judged)
	m.Samples = append([]string{fmt.Sprintf("most samples off by one: %.4f (%s); most against mismatch control: %.4f (%s)", worst, worstAt, worstV, worstVAt)}, m.Samples...)
	return ""
}

type plane struct {
	pix    []uint8
	stride int
}

func planeOf(img *image.YCbCr, cc int) plane {
	switch cc {
	case 0:
		return plane{img.Y, img.YStride}
	case 1:
		return plane{img.Cb, img.CStride}
	}
	return plane{img.Cr, img.CStride}
}

// fetch is half-sample interpolation (7.6.4) in a plane or one of its fields.
// x, y in samples of the (field) plane; mx, my in half samples.
func fetch(pl plane, field, parity int, x, y, mx, my int) int {
	st := pl.stride
	base := 0
	if field == 1 {
		base = parity * st
		st *= 2
	}
	ix, iy := x+(mx>>1), y+(my>>1)
	at := func(dx, dy int) int { return int(pl.pix[base+(iy+dy)*st+ix+dx]) }
	switch {
	case mx&1 == 0 && my&1 == 0:
		return at(0, 0)
	case mx&1 == 1 && my&1 == 0:
		return (at(0, 0) + at(1, 0) + 1) >> 1
	case mx&1 == 0 && my&1 == 1:
		return (at(0, 0) + at(0, 1) + 1) >> 1
	}
	return (at(0, 0) + at(1, 0) + at(0, 1) + at(1, 1) + 2) >> 2
}

// mbPred is the prediction of one macroblock: luminance 16x16 then chrominance.
type mbPred struct {
	y      [256]int
	cb, cr [64]int
}

// predictMB forms the prediction of macroblock (mx,my) (7.6).
func predictMB(mb *vMB, col, row int, field bool, fwd, bwd *image.YCbCr) (pr mbPred) {
	n := 0
	add := func(s int, img *image.YCbCr) {
		n++
		for cc := 0; cc < 3; cc++ {
			pl := planeOf(img, cc)
			size := 16
			if cc > 0 {
				size = 8
			}
			for y := 0; y < size; y++ {
				for x := 0; x < size; x++ {
					var v int
					if !field {
						mv := mb.mv[0][s]
						if cc > 0 {
							mv[0] /= 2
							mv[1] /= 2
						}
						v = fetch(pl, 0, 0, col*size+x, row*size+y, mv[0], mv[1])
					} else {
						r := y & 1 // destination field
						mv := mb.mv[r][s]
						if cc > 0 {
							mv[0] /= 2
							mv[1] /= 2
						}
						v = fetch(pl, 1, mb.fsel[r][s], col*size+x, row*size/2+y>>1, mv[0], mv[1])
					}
					switch cc {
					case 0:
						pr.y[y*16+x] += v
					case 1:
						pr.cb[y*8+x] += v
					case 2:
						pr.cr[y*8+x] += v
					}
				}
			}
		}
	}
	if fwd != nil {
		add(0, fwd)
	}
	if bwd != nil {
		add(1, bwd)
	}
	if n == 2 {
		for i := range pr.y {
			pr.y[i] = (pr.y[i] + 1) >> 1
		}
		for i := range pr.cb {
			pr.cb[i] = (pr.cb[i] + 1) >> 1
			pr.cr[i] = (pr.cr[i] + 1) >> 1
		}
	}
	return
}

// reconStats is what a picture comparison observed.
type reconStats struct {
	mbs, intra, skipped, coded, exactBlocks, residBlocks int
	fwd, bwd, bi, nomc, field, halfH, halfV, halfHV      int
	off1                                                 int // samples one off the rounded exact value
	maxErr                                               float64
	clipped                                              int
	bigResid                                             int // blocks judged loosely: out of the transform's range
	codes                                                [2][64]map[int]bool
	proj                                                 []int64 // sums for projPost, if wanted
	off                                                  []int64 // sums for offPost
}

// idctLimit: the permitted approximations of the inverse transform (annex A)
// are only bound to the exact one while its output stays near the residual
// range; far outside they may overflow. Blocks beyond are not judged.
const idctLimit = 500

// checkPicture compares a decoded picture with the reference reconstruction.
func checkPicture(p *vPic, qm *vQMState, fwd, bwd, got *image.YCbCr, st *reconStats) error {
	mbw, mbh := p.seq.mbW(), p.seq.mbH()
	if got.Rect.Dx() < mbw*16 || got.Rect.Dy() < mbh*16 {
		return fmt.Errorf("picture is %v, want at least %dx%d", got.Rect, mbw*16, mbh*16)
	}
	seen := make([]bool, mbw*mbh)
	for _, sl := range p.slices {
		var last *vMB
		dcPred := &sliceState{p: p}
		dcPred.resetDC()
		for _, mb := range sl.mbs {
			if !mb.intra {
				dcPred.resetDC()
			}
			if seen[sl.row*mbw+mb.x] {
				return fmt.Errorf("model: macroblock coded twice")
			}
			seen[sl.row*mbw+mb.x] = true
			st.mbs++
			var pr mbPred
			switch {
			case mb.intra:
				st.intra++
			case mb.skipped && p.typ == 2:
				st.skipped++
				pr = predictMB(&vMB{}, mb.x, sl.row, false, fwd, nil)
			case mb.skipped:
				// same direction, same vectors; frame based
				st.skipped++
				m := vMB{fwd: last.fwd, bwd: last.bwd}
				m.mv[0] = last.skipMV()
				pr = predictMB(&m, mb.x, sl.row, false, pick(m.fwd, fwd), pick(m.bwd, bwd))
			case !mb.fwd && !mb.bwd: // P, no motion compensation
				st.nomc++
				pr = predictMB(&vMB{}, mb.x, sl.row, false, fwd, nil)
			default:
				field := !p.fpfd && mb.motion == 1
				if field {
					st.field++
				}
				switch {
				case mb.fwd && mb.bwd:
					st.bi++
				case mb.fwd:
					st.fwd++
				default:
					st.bwd++
				}
				for s := 0; s < 2; s++ {
					if (s == 0 && mb.fwd) || (s == 1 && mb.bwd) {
						h, v := mb.mv[0][s][0]&1, mb.mv[0][s][1]&1
						switch {
						case h == 1 && v == 1:
							st.halfHV++
						case h == 1:
							st.halfH++
						case v == 1:
							st.halfV++
						}
					}
				}
				pr = predictMB(mb, mb.x, sl.row, field, pick(mb.fwd, fwd), pick(mb.bwd, bwd))
			}
			if !mb.skipped {
				last = mb
			}
			for i := 0; i < 6; i++ {
				coded := mb.intra || (mb.pattern && mb.cbp&(1<<uint(5-i)) != 0)
				var f, diff [64]float64
				var F [64]int
				var info deqInfo
				var clip [64]bool
				var dc *dcClass
				if mb.intra {
					cc := max(i-3, 0)
					d := mb.dc[i] - dcPred.dc[cc]
					dcPred.dc[cc] = mb.dc[i]
					dc = &dcClass{prec: p.dcPrec}
					if d < 0 {
						d, dc.neg = -d, 1
					}
					dc.size = bits.Len(uint(d))
					dc.edge = dcEdge(d)
					dc.chroma = min(cc, 1)
				}
				if coded {
					w := 0
					if !mb.intra {
						w = 1
					}
					F, info = dequant(p, mb, i, mb.usedQscale, &qm.m[w])
					f = idctExact(&F)
					st.residBlocks++
				} else {
					st.exactBlocks++
				}
				big := false
				for _, v := range f {
					if v > idctLimit || v < -idctLimit {
						big = true
					}
				}
				if big {
					st.bigResid++
					continue
				}
				cc := 0
				if i >= 4 {
					cc = i - 3
				}
				pl := planeOf(got, cc)
				for v := 0; v < 8; v++ {
					for u := 0; u < 8; u++ {
						var x, y, pred, base int
						if cc == 0 {
							x = (i&1)*8 + u
							if mb.fieldDCT {
								y = v*2 + (i >> 1)
							} else {
								y = (i>>1)*8 + v
							}
							pred = pr.y[y*16+x]
							base = (sl.row*16+y)*pl.stride + mb.x*16 + x
						} else {
							x, y = u, v
							if cc == 1 {
								pred = pr.cb[y*8+x]
							} else {
								pred = pr.cr[y*8+x]
							}
							base = (sl.row*8+y)*pl.stride + mb.x*8 + x
						}
						g := int(pl.pix[base])
						if !coded {
							if g != pred {
								return fmt.Errorf("%s: block %d of macroblock (%d,%d) %s: sample (%d,%d) is %d, want exactly %d",
									p, i, mb.x, sl.row, mb, x, y, g, pred)
							}
							continue
						}
						want := float64(pred) + f[v*8+u]
						diff[v*8+u] = float64(g) - want
						clip[v*8+u] = want < 1 || want > 254
						if want < 0 {
							want = 0
							st.clipped++
						} else if want > 255 {
							want = 255
							st.clipped++
						}
						e := math.Abs(float64(g) - want)
						if e > st.maxErr {
							st.maxErr = e
						}
						if e > 0.5000001 {
							st.off1++
						}
						if e > 1.5000001 {
							return fmt.Errorf("%s: block %d of macroblock (%d,%d) %s: sample (%d,%d) is %d, want %.3f",
								p, i, mb.x, sl.row, mb, x, y, g, want)
						}
					}
				}
				if coded && st.proj != nil {
					projection(st.proj, mb.intra, &F, info.alt, info.sat, dc, &diff, &clip)
				}
				if coded {
					st.offClasses(p, mb, i, &info, &F, dc, &diff, &clip)
				}
			}
		}
	}
	for i, ok := range seen {
		if !ok {
			return fmt.Errorf("model: macroblock %d of %s not covered", i, p)
		}
	}
	return nil
}

// skipMV: a skipped macroblock of a B picture takes the vector predictors.
func (mb *vMB) skipMV() [2][2]int {
	v := mb.mv[0]
	if mb.motion == 1 {
		v[0][1] *= 2
		v[1][1] *= 2
	}
	return v
}

func pick(ok bool, img *image.YCbCr) *image.YCbCr {
	if ok {
		return img
	}
	return nil
}

func (p *vPic) String() string {
	return fmt.Sprintf("picture [%s%d]", []string{"?", "I", "P", "B"}[p.typ], p.tref)
}

func (mb *vMB) String() string {
	s := ""
	if mb.skipped {
		return "skipped"
	}
	if mb.intra {
		s += "intra "
	}
	if mb.fwd {
		s += fmt.Sprintf("fwd%v ", mb.mv[0][0])
	}
	if mb.bwd {
		s += fmt.Sprintf("bwd%v ", mb.mv[0][1])
	}
	if mb.fieldDCT {
		s += "fielddct "
	}
	if mb.pattern {
		s += fmt.Sprintf("cbp=%d ", mb.cbp)
	}
	return fmt.Sprintf("%squant=%d", s, mb.usedQscale)
}
