package main

import (
	"fmt"
	"image"
	"io"

	"github.com/32bitkid/mpeg/video"
)

// The result of running the real decoder over a stream.
type vResult struct {
	frames []*image.YCbCr
	eosAt  []int // number of frames seen at every end of sequence
	err    error // the error that ended it
}

// runDecoder asks for frames until an error other than end-of-sequence, or
// until more results came than the stream can hold.
func runDecoder(c *Case, vs *video.VideoSequence, limit int) *vResult {
	res := &vResult{}
	for {
		img, err := vs.Next()
		if err != nil {
			if img != nil {
				c.Fail("Next returned a frame together with error %v", err)
			}
			if err == video.EOS {
				res.eosAt = append(res.eosAt, len(res.frames))
				if len(res.eosAt) > limit+16 {
					c.Fail("endless end-of-sequence reports")
				}
				continue
			}
			res.err = err
			return res
		}
		if img == nil {
			c.Fail("Next returned neither frame nor error")
		}
		res.frames = append(res.frames, img)
		if len(res.frames) > limit {
			c.Fail("decoder returned more frames (%d) than the stream has pictures (%d)", len(res.frames), limit)
		}
	}
}

func newDecoder(c *Case, data []byte) *video.VideoSequence {
	return video.NewVideoSequence(newSource(data, chunkAll, c.R))
}

func decodeStream(c *Case, data []byte, style int, limit int) *vResult {
	src := newSource(data, style, c.R).ends(c.R)
	return runDecoder(c, video.NewVideoSequence(src), limit)
}

func sameFrame(a, b *image.YCbCr) string {
	if a.Rect != b.Rect || a.SubsampleRatio != b.SubsampleRatio {
		return fmt.Sprintf("geometry %v/%v against %v/%v", a.Rect, a.SubsampleRatio, b.Rect, b.SubsampleRatio)
	}
	for cc := 0; cc < 3; cc++ {
		pa, pb := planeOf(a, cc), planeOf(b, cc)
		w, h := a.Rect.Dx(), a.Rect.Dy()
		if cc > 0 {
			w, h = w/2, h/2
		}
		for y := 0; y < h; y++ {
			ra, rb := pa.pix[y*pa.stride:][:w], pb.pix[y*pb.stride:][:w]
			if string(ra) != string(rb) {
				for x := range ra {
					if ra[x] != rb[x] {
						return fmt.Sprintf("plane %d sample (%d,%d): %d against %d", cc, x, y, ra[x], rb[x])
					}
				}
			}
		}
	}
	return ""
}

func hashFrame(a *image.YCbCr) uint64 {
	h := uint64(14695981039346656037)
	for cc := 0; cc < 3; cc++ {
		p := planeOf(a, cc)
		w, hh := a.Rect.Dx(), a.Rect.Dy()
		if cc > 0 {
			w, hh = w/2, hh/2
		}
		for y := 0; y < hh; y++ {
			for _, v := range p.pix[y*p.stride:][:w] {
				h = (h ^ uint64(v)) * 1099511628211
			}
		}
	}
	return mix64(h)
}

// checkStream runs the whole oracle: every coded picture once, in display
// order, and every picture as the standard defines it from the decoded
// references.
func (s *vStream) check(c *Case, res *vResult, st *reconStats) {
	c.Check(len(res.frames) == len(s.order), "decoder returned %d frames, the stream has %d pictures (ended with %v)",
		len(res.frames), len(s.order), res.err)
	if err := s.verify(res.frames, st); err != nil {
		c.Fail("%v", err)
	}
}

// verify compares frames (in display order) with the model. Frames may be a
// prefix; pictures that are not there, or whose references are not, are not judged.
func (s *vStream) verify(frames []*image.YCbCr, st *reconStats) error {
	byCode := make([]*image.YCbCr, len(s.pics))
	for d, i := range s.order {
		if d < len(frames) {
			byCode[i] = frames[d]
		}
	}
	var qm *vQMState
	for _, e := range s.elems {
		if e.seq != nil {
			qm = newQMState(e.seq)
		}
		if e.pic == nil {
			continue
		}
		p := e.pic
		if p.qm != nil {
			qm.load(p.qm)
		}
		i := s.indexOf(p)
		got := byCode[i]
		if got == nil {
			continue
		}
		var f, b *image.YCbCr
		if p.fwdRef >= 0 {
			if f = byCode[p.fwdRef]; f == nil {
				continue
			}
		}
		if p.bwdRef >= 0 {
			if b = byCode[p.bwdRef]; b == nil {
				continue
			}
		}
		if err := checkPicture(p, qm, f, b, got, st); err != nil {
			return fmt.Errorf("frame %d (coded %d): %v", p.display, i, err)
		}
	}
	return nil
}

func (s *vStream) indexOf(p *vPic) int {
	return s.order[p.display]
}

func (st *reconStats) report(c *Case) {
	for _, x := range []struct {
		k string
		n int
	}{{"macroblocks", st.mbs}, {"intra_macroblocks", st.intra}, {"skipped_macroblocks", st.skipped},
		{"blocks_with_residual", st.residBlocks}, {"blocks_exact", st.exactBlocks},
		{"forward_macroblocks", st.fwd}, {"backward_macroblocks", st.bwd}, {"bidirectional_macroblocks", st.bi},
		{"uncompensated_macroblocks", st.nomc}, {"field_predicted_macroblocks", st.field},
		{"half_h_vectors", st.halfH}, {"half_v_vectors", st.halfV}, {"half_hv_vectors", st.halfHV},
		{"samples_clipped", st.clipped}, {"samples_one_off_rounded", st.off1},
		{"blocks_outside_transform_range", st.bigResid}} {
		if x.n > 0 {
			c.Count(x.k, x.n)
		}
	}
}

func isEnd(err error) bool { return err == io.EOF || err == io.ErrUnexpectedEOF }
