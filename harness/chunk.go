package main

import (
	"errors"
	"fmt"
	"io"
)

// Source is an io.Reader over a byte string that delivers it in chunks of a
// chosen style, and that can fail at a chosen byte.
//
// Only if with is set does it return data together with an error: the bitreader
// dependency, which is not part of this repository, drops such data where a
// caller hands it a source of that kind.
type Source struct {
	data  []byte
	pos   int
	r     *R
	style int
	errAt int   // fail before delivering this byte (-1: never)
	err   error // the failure
	once  bool  // deliver the failure once and go on
	eofs  int
	reads int
	zeros int
	// scratch: what is left of the buffer is overwritten too, as io.Reader allows
	scratch bool
	// with: the error comes together with the last bytes in front of it
	with  bool
	withs int
}

const (
	chunkAll = iota
	chunkOne
	chunkSmall
	chunkRandom
	chunkEmpty // random chunks with an empty read now and then
	chunkStyles
)

var errSource = errors.New("injected source failure")

func newSource(data []byte, style int, r *R) *Source {
	return &Source{data: data, style: style, r: r, errAt: -1, scratch: style == chunkRandom || style == chunkEmpty}
}

func (s *Source) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	if s.errAt >= 0 && s.errAt < end {
		end = s.errAt
	}
	if s.pos >= end {
		if s.errAt >= 0 && s.pos == s.errAt {
			if s.once {
				s.errAt = -1
			}
			return 0, s.err
		}
		s.eofs++
		return 0, io.EOF
	}
	n := end - s.pos
	k := n
	switch s.style {
	case chunkOne:
		k = 1
	case chunkSmall:
		k = s.r.In(1, 4)
	case chunkRandom:
		k = s.r.In(1, 400)
	case chunkEmpty:
		if s.r.P(1, 4) && s.zeros < 3 {
			s.zeros++
			return 0, nil
		}
		s.zeros = 0
		k = s.r.In(1, 30)
	}
	if k < n {
		n = k
	}
	if len(p) < n {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	if s.scratch {
		for i := n; i < len(p) && i < n+200; i++ {
			p[i] = []byte{0, 0, 1, 0xBA, 0x47, 1, 0xE0}[(i+s.pos)%7]
		}
	}
	s.pos += n
	if s.with && s.pos == end {
		s.withs++
		if s.errAt >= 0 && s.pos == s.errAt {
			if s.once {
				s.errAt = -1
			}
			return n, s.err
		}
		s.eofs++
		return n, io.EOF
	}
	return n, nil
}

// ends lets some sources report their end together with the last bytes.
func (s *Source) ends(r *R) *Source {
	s.with = r.P(1, 4)
	return s
}

func chunkName(i int) string {
	return []string{"all", "one", "small", "random", "empty"}[i]
}

// An event of a drained reader: bytes, or a signal such as ts.EOP.
type drained struct {
	data  []byte
	marks []int // offsets at which the mark error was reported
	err   error // how it ended
	reads int
}

// drain reads until an error other than mark. bufStyle selects buffer sizes.
func drain(c *Case, what string, rd io.Reader, mark error, limit int) drained {
	var d drained
	style := c.R.N(5)
	fixed := c.R.In(1, 400)
	idle := 0
	big := make([]byte, 70000)
	if c.Live != nil {
		style = 5
	}
	for {
		n := 1
		switch style {
		case 0:
			n = c.R.In(1, 8)
		case 1:
			n = c.R.In(1, 400)
		case 2:
			n = fixed
		case 3:
			n = 65536
		case 4:
			n = []int{1, 183, 184, 185, 188, 368, 4096}[c.R.N(7)]
		}
		p := big[:n]
		if c.R.P(1, 40) && c.Live == nil {
			p = big[:0]
		}
		for i := range p {
			p[i] = 0xA5
		}
		n, err := rd.Read(p)
		d.reads++
		if n < 0 || n > len(p) {
			c.Fail("%s: Read returned n=%d for a buffer of %d", what, n, len(p))
		}
		d.data = append(d.data, p[:n]...)
		if c.Live != nil {
			c.Live(0, len(d.data)+len(d.marks))
		}
		if len(d.data) > limit {
			c.Fail("%s: yields more bytes (%d) than the stream can hold (%d)", what, len(d.data), limit)
		}
		if err != nil {
			if mark != nil && err == mark {
				d.marks = append(d.marks, len(d.data))
				if c.Live != nil {
					c.Live(0, len(d.data)+len(d.marks))
				}
				if len(d.marks) > limit+1000 {
					c.Fail("%s: endless unit ends", what)
				}
				idle = 0
				continue
			}
			d.err = err
			for i := 0; i < 5 && c.AfterEnd != nil; i++ {
				n, err := rd.Read(big[:[]int{1, 200, 65536, 0, 7}[i]])
				if i != 3 || n != 0 || err != nil { // nothing can be said about an empty read
					c.AfterEnd(n, err)
				}
			}
			return d
		}
		if n == 0 && len(p) > 0 {
			if idle++; idle > 10000 {
				c.Fail("%s: neither data nor error after %d reads", what, idle)
			}
		} else if n > 0 {
			idle = 0
		}
	}
}

func firstDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d is %02x, want %02x (lengths %d, want %d)", i, a[i], b[i], len(a), len(b))
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("length %d, want %d (common prefix equal)", len(a), len(b))
	}
	return "equal"
}
