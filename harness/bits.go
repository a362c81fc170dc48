package main

// BW writes a bit string, most significant bit first.
type BW struct {
	b   []byte
	cur byte
	n   uint // bits used in cur
}

func (w *BW) Put(n uint, v uint64) {
	if putHook != nil {
		v = putHook.field(n, v)
	}
	w.put(n, v)
}

func (w *BW) put(n uint, v uint64) {
	for n > 0 {
		n--
		w.cur = w.cur<<1 | byte(v>>n&1)
		w.n++
		if w.n == 8 {
			w.b = append(w.b, w.cur)
			w.cur, w.n = 0, 0
		}
	}
}

func (w *BW) Flag(f bool) {
	if f {
		w.Put(1, 1)
	} else {
		w.Put(1, 0)
	}
}

// Str writes a string of '0' and '1' (blanks ignored).
func (w *BW) Str(s string) {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '0':
			w.put(1, 0)
		case '1':
			w.put(1, 1)
		}
	}
}

func (w *BW) Align() {
	for w.n != 0 {
		w.put(1, 0)
	}
}

func (w *BW) Aligned() bool { return w.n == 0 }

func (w *BW) Raw(p []byte) {
	if w.n == 0 {
		w.b = append(w.b, p...)
		return
	}
	for _, c := range p {
		w.put(8, uint64(c))
	}
}

func (w *BW) Len() int { return len(w.b) }

// Bytes aligns and returns what was written.
func (w *BW) Bytes() []byte {
	w.Align()
	return w.b
}
