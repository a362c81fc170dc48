package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/32bitkid/bitreader"
)

// X11: reading has no effects besides the results. Sources that can do more than
// Read are handed to every layer that takes one; what comes out is compared with
// what a plain io.Reader gives, and the source is looked at afterwards.

func init() {
	min := map[string]int64{"sources_compared": 20000, "cut_streams": 1000, "damaged_streams": 1000, "sources_closed_at_the_end_by_us": 3000, "results": 100000}
	for i := range richKinds {
		min["source: "+richKinds[i].name] = 500
	}
	for _, l := range layers {
		if (&layerIn{name: l.name}).takesSource() {
			min["layer: "+l.name] = 500
		}
	}
	register(&Prop{
		ID: "X11", Rule: "a stream with at least one result, read from sources that can do more than read",
		Quick: 42000, Thorough: 900000, Run: runX11, Min: min, Quiet: true,
	})
}

// What goes to standard output and standard error in a worker of a quiet property.
var quietFiles []*os.File

// beQuiet sends this process's standard output and standard error to files of
// its own. The supervisor's channel and the report of a crash stay where they were.
func beQuiet() {
	dup := func(fd int) *os.File {
		n, err := syscall.Dup(fd)
		if err != nil {
			fatal("%v", err)
		}
		syscall.CloseOnExec(n)
		return os.NewFile(uintptr(n), "kept")
	}
	protoOut = dup(1)
	debug.SetCrashOutput(dup(2), debug.CrashOptions{})
	for fd := 1; fd <= 2; fd++ {
		f, err := os.CreateTemp("", "vmon")
		if err != nil {
			fatal("%v", err)
		}
		os.Remove(f.Name())
		if err := syscall.Dup3(int(f.Fd()), fd, 0); err != nil {
			fatal("%v", err)
		}
		quietFiles = append(quietFiles, f)
	}
}

func quietSize() (n int64) {
	for _, f := range quietFiles {
		if st, err := f.Stat(); err == nil {
			n += st.Size()
		}
	}
	return
}

func quietTail(from int64) string {
	s := ""
	for _, f := range quietFiles {
		b := make([]byte, 300)
		n, _ := f.ReadAt(b, from)
		s += string(b[:n])
	}
	return s
}

// richSource can do everything that readers can do, all of it in step.
type richSource struct {
	io.Reader      // what it delivers
	src            *Source
	closed, others int
	last           int
}

func (s *richSource) Read(p []byte) (int, error) {
	if s.closed > 0 {
		return 0, os.ErrClosed
	}
	return s.src.Read(p)
}

func (s *richSource) Close() error { s.closed++; return nil }

func (s *richSource) Len() int { // what can be had at once
	return min(len(s.src.data)-s.src.pos, s.last)
}

func (s *richSource) Buffered() int { return s.Len() }

func (s *richSource) ReadByte() (byte, error) {
	s.others++
	var b [1]byte
	for {
		n, err := s.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (s *richSource) UnreadByte() error {
	s.others++
	if s.src.pos == 0 {
		return errors.New("nothing to unread")
	}
	s.src.pos--
	return nil
}

func (s *richSource) Peek(n int) ([]byte, error) {
	s.others++
	d := s.src.data[s.src.pos:]
	if n > len(d) {
		return append([]byte{}, d...), io.EOF
	}
	return append([]byte{}, d[:n]...), nil
}

func (s *richSource) Discard(n int) (int, error) {
	s.others++
	k := min(n, len(s.src.data)-s.src.pos)
	s.src.pos += k
	if k < n {
		return k, io.EOF
	}
	return k, nil
}

func (s *richSource) WriteTo(w io.Writer) (int64, error) {
	s.others++
	n, err := w.Write(append([]byte{}, s.src.data[s.src.pos:]...))
	s.src.pos += n
	return int64(n), err
}

// richSeeker can also be moved, as a file can.
type richSeeker struct{ *richSource }

func (s richSeeker) Seek(off int64, whence int) (int64, error) {
	s.others++
	switch whence {
	case io.SeekCurrent:
		off += int64(s.src.pos)
	case io.SeekEnd:
		off += int64(len(s.src.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.src.pos = int(off)
	return off, nil
}

func (s richSeeker) ReadAt(p []byte, off int64) (int, error) {
	s.others++
	if off >= int64(len(s.src.data)) {
		return 0, io.EOF
	}
	n := copy(p, s.src.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (s richSeeker) Size() int64 { return int64(len(s.src.data)) }

// richPipe has the methods of a file, but is none that can be moved.
type richPipe struct{ *richSource }

func (s richPipe) Seek(off int64, whence int) (int64, error) { return 0, syscall.ESPIPE }
func (s richPipe) ReadAt(p []byte, off int64) (int, error)   { return 0, syscall.ESPIPE }
func (s richPipe) Stat() (os.FileInfo, error)                { return nil, errors.New("no status") }

// feed writes data into a pipe, in pieces.
func feed(c *Case, w io.WriteCloser, data []byte) (wait func()) {
	done := make(chan bool)
	r := &R{c.R.U64()}
	go func() {
		defer close(done)
		for len(data) > 0 {
			k := r.In(1, min(len(data), 500))
			if _, err := w.Write(data[:k]); err != nil {
				break
			}
			data = data[k:]
		}
		w.Close()
	}()
	return func() { <-done }
}

// A kind of source: over the bytes behind pre, which are read from it before it
// is handed over. after looks at it once more, when all is over.
var richKinds = []struct {
	name string
	make func(c *Case, pre, data []byte) (src io.Reader, after func() error)
}{
	{"bytes.Reader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		return bytes.NewReader(cat2(pre, data)), nil
	}},
	{"bytes.Buffer", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		b := bytes.NewBuffer(cat2(pre, data))
		return b, nil
	}},
	{"strings.Reader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		return strings.NewReader(string(pre) + string(data)), nil
	}},
	{"bufio.Reader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		return bufio.NewReaderSize(newSource(cat2(pre, data), c.R.N(chunkStyles), c.R), c.R.In(16, 300)), nil
	}},
	{"io.SectionReader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		junk := c.R.Bytes(c.R.N(300))
		n := len(pre) + len(data)
		return io.NewSectionReader(bytes.NewReader(cat2(junk, pre, data, junk)), int64(len(junk)), int64(n)), nil
	}},
	{"io.LimitedReader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		return &io.LimitedReader{R: bytes.NewReader(cat2(pre, data, c.R.Bytes(300))), N: int64(len(pre) + len(data))}, nil
	}},
	{"io.MultiReader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		k := c.R.N(len(data) + 1)
		return io.MultiReader(bytes.NewReader(cat2(pre, data[:k])), strings.NewReader(""), bytes.NewBuffer(append([]byte{}, data[k:]...))), nil
	}},
	{"io.TeeReader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		var b bytes.Buffer
		all := cat2(pre, data)
		return io.TeeReader(bytes.NewReader(all), &b), func() error {
			if !bytes.HasPrefix(all, b.Bytes()) {
				return errors.New("what went through it is not the stream")
			}
			return nil
		}
	}},
	{"file", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		f, err := os.CreateTemp("", "vmon")
		if err != nil {
			c.Fail("harness: %v", err)
		}
		os.Remove(f.Name())
		f.Write(cat2(pre, data))
		f.Seek(0, io.SeekStart)
		return f, func() error {
			b, err := io.ReadAll(io.NewSectionReader(f, 0, 1<<40))
			if err != nil {
				return err
			}
			if !bytes.Equal(b, cat2(pre, data)) {
				return errors.New("its contents have changed")
			}
			return f.Close()
		}
	}},
	{"pipe of the system", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		r, w, err := os.Pipe()
		if err != nil {
			c.Fail("harness: %v", err)
		}
		wait := feed(c, w, cat2(pre, data))
		return r, func() error {
			err := r.Close()
			wait()
			return err
		}
	}},
	{"io.Pipe", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		r, w := io.Pipe()
		var werr error
		done := make(chan bool)
		wait := feed(c, w, cat2(pre, data))
		go func() {
			wait()
			_, werr = w.Write(nil) // nothing but ErrClosedPipe once an end is closed
			close(done)
		}()
		return r, func() error {
			_, err := r.Read(make([]byte, 1))
			r.Close()
			<-done
			_ = werr
			if err == io.ErrClosedPipe {
				return err
			}
			return nil
		}
	}},
	{"net.Conn", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		r, w := net.Pipe()
		wait := feed(c, w, cat2(pre, data))
		return r, func() error {
			_, err := r.Read(make([]byte, 1))
			cerr := r.Close()
			wait()
			if err == io.ErrClosedPipe {
				return err
			}
			return cerr
		}
	}},
	{"with all methods, movable", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		s := &richSource{src: newSource(cat2(pre, data), c.R.N(chunkStyles), c.R), last: c.R.In(0, 40)}
		return richSeeker{s}, s.after
	}},
	{"with all methods, fixed", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		s := &richSource{src: newSource(cat2(pre, data), c.R.N(chunkStyles), c.R), last: c.R.In(0, 40)}
		return richPipe{s}, s.after
	}},
	{"bit reader", func(c *Case, pre, data []byte) (io.Reader, func() error) {
		return bitreader.NewReader(newSource(cat2(pre, data), chunkAll, c.R)), nil
	}},
}

func (s *richSource) after() error {
	if s.closed > 0 {
		return fmt.Errorf("it was closed %d times", s.closed)
	}
	return nil
}

func cat2(l ...[]byte) []byte { return bytes.Join(l, nil) }

// logged counts what goes to the log of the process.
type logged struct{ n int }

func (l *logged) Write(p []byte) (int, error) { l.n += len(p); return len(p), nil }

func openFiles() int {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return 0
	}
	defer d.Close()
	names, _ := d.Readdirnames(-1)
	return len(names)
}

func runX11(c *Case) {
	in := layers[c.Idx%len(layers)].gen(c)
	in.name = layers[c.Idx%len(layers)].name
	if !in.takesSource() {
		return
	}
	c.Count("layer: "+in.name, 1)
	r := c.R
	data := in.data
	if r.P(1, 3) {
		data = data[:r.N(len(data)+1)]
		c.Count("cut_streams", 1)
	}
	if r.P(1, 4) {
		data = mutate(r, data)
		c.Count("damaged_streams", 1)
	}
	limit := len(data)
	kept := hashBytes(data)
	out := quietSize()
	lg := &logged{}
	log.SetOutput(lg)
	defer log.SetOutput(os.Stderr)
	env, dir := hashStr(strings.Join(os.Environ(), "\n")), cwd()
	base := in.run(c, newSource(data, chunkAll, r), limit)
	c.Sig(append([]byte(in.name), data...), base.count() > 0)
	c.Count("results", base.count())
	for t := 0; t < 4; t++ {
		k := &richKinds[(c.Idx/len(layers)*4+t)%len(richKinds)]
		pre := r.Bytes(r.N(200) * r.N(2))
		src, after := k.make(c, pre, data)
		if _, err := io.ReadFull(src, make([]byte, len(pre))); err != nil {
			c.Fail("harness: %s: %v", k.name, err)
		}
		files := openFiles()
		c.Note("%s from a %s, %d bytes of which were read before", in.name, k.name, len(pre))
		o := in.run(c, src, limit)
		if d := diffObs(o, base); d != "" {
			c.Fail("%s: read from a %s (%d bytes behind its beginning) against a plain source: %s", in.name, k.name, len(pre), d)
		}
		if n := openFiles(); n > files {
			c.Fail("%s: %d files are open, %d were before", in.name, n, files)
		}
		if after != nil {
			if err := after(); err != nil {
				c.Fail("%s: the %s it was read from, afterwards: %v", in.name, k.name, err)
			}
			c.Count("sources_closed_at_the_end_by_us", 1)
		}
		if cap, ok := src.(*bytes.Reader); ok {
			b := make([]byte, cap.Size())
			cap.ReadAt(b, 0)
			if !bytes.Equal(b, cat2(pre, data)) {
				c.Fail("%s: the bytes of its source have changed", in.name)
			}
		}
		c.Count("source: "+k.name, 1)
		c.Count("sources_compared", 1)
	}
	if hashBytes(data) != kept {
		c.Fail("%s: the bytes of its source have changed", in.name)
	}
	if n := quietSize(); n != out {
		c.Fail("%s: %d bytes were written to standard output or standard error (%.100q)", in.name, n-out, quietTail(0))
	}
	if lg.n > 0 {
		c.Fail("%s: %d bytes were written to the log of the process", in.name, lg.n)
	}
	if hashStr(strings.Join(os.Environ(), "\n")) != env || cwd() != dir {
		c.Fail("%s: the environment or the working directory has changed", in.name)
	}
	c.Sample("%s: %d bytes, %d results, then %q", in.name, len(data), base.count(), base.end)
}

func cwd() string { d, _ := os.Getwd(); return d }
