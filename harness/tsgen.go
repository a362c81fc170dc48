package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/32bitkid/mpeg/ts"
)

// The independent description of a transport packet, from ISO/IEC 13818-1
// 2.4.3.2 - 2.4.3.5.

type tsExt struct {
	ltw, pw, ss bool
	ltwValid    bool
	ltwOff      uint64
	pwRate      uint64
	spliceType  uint64
	dts         uint64
	reserved    []byte
}

type tsAF struct {
	length                   int
	flags                    [8]bool // disc, random, prio, pcr, opcr, splice, private, ext
	pcrB, pcrE, opcrB, opcrE uint64
	splice                   uint64
	priv                     []byte
	ext                      *tsExt
	stuff                    []byte
}

type tsPkt struct {
	tei, pusi, prio bool
	pid             uint32
	tsc             uint32
	afc             uint32
	cc              uint32
	af              *tsAF
	payload         []byte
	raw             []byte
}

func (e *tsExt) encode(w *BW, r *R) {
	n := 1 + len(e.reserved)
	if e.ltw {
		n += 2
	}
	if e.pw {
		n += 3
	}
	if e.ss {
		n += 5
	}
	w.Put(8, uint64(n))
	w.Flag(e.ltw)
	w.Flag(e.pw)
	w.Flag(e.ss)
	w.Put(5, r.Bits(5))
	if e.ltw {
		w.Flag(e.ltwValid)
		w.Put(15, e.ltwOff)
	}
	if e.pw {
		w.Put(2, r.Bits(2))
		w.Put(22, e.pwRate)
	}
	if e.ss {
		w.Put(4, e.spliceType)
		w.Put(3, e.dts>>30)
		w.Put(1, 1)
		w.Put(15, e.dts>>15)
		w.Put(1, 1)
		w.Put(15, e.dts)
		w.Put(1, 1)
	}
	w.Raw(e.reserved)
}

// body encodes everything after the length byte, without stuffing.
func (a *tsAF) body(r *R) []byte {
	w := &BW{}
	for _, f := range a.flags {
		w.Flag(f)
	}
	pcr := func(b, e uint64) { w.Put(33, b); w.Put(6, r.Bits(6)); w.Put(9, e) }
	if a.flags[3] {
		pcr(a.pcrB, a.pcrE)
	}
	if a.flags[4] {
		pcr(a.opcrB, a.opcrE)
	}
	if a.flags[5] {
		w.Put(8, a.splice)
	}
	if a.flags[6] {
		w.Put(8, uint64(len(a.priv)))
		w.Raw(a.priv)
	}
	if a.flags[7] {
		a.ext.encode(w, r)
	}
	return w.Bytes()
}

// genAF makes an adaptation field of at most max bytes after the length byte;
// exact forces that length.
func genAF(r *R, max int, exact bool) (*tsAF, []byte) {
	for {
		a := &tsAF{}
		if !exact && r.P(1, 10) {
			return a, []byte{0}
		}
		for i := range a.flags {
			a.flags[i] = r.P(2, 5)
		}
		if r.P(1, 12) {
			for i := range a.flags {
				a.flags[i] = true
			}
		}
		if a.flags[3] {
			a.pcrB, a.pcrE = r.Bits(33), uint64(r.N(300))
		}
		if a.flags[4] {
			a.opcrB, a.opcrE = r.Bits(33), uint64(r.N(300))
		}
		if a.flags[5] {
			a.splice = r.Bits(8)
		}
		if a.flags[6] {
			n := r.N(20)
			if r.P(1, 6) {
				n = r.N(max + 1)
			}
			a.priv = r.Bytes(n)
		}
		if a.flags[7] {
			e := &tsExt{ltw: r.Bool(), pw: r.Bool(), ss: r.Bool()}
			if r.P(1, 5) {
				e.ltw, e.pw, e.ss = true, true, true
			}
			if e.ltw {
				e.ltwValid, e.ltwOff = r.Bool(), r.Bits(15)
			}
			if e.pw {
				e.pwRate = r.Bits(22)
			}
			if e.ss {
				e.spliceType, e.dts = r.Bits(4), r.Bits(33)
			}
			if r.P(1, 3) {
				n := 12
				if r.P(1, 6) {
					n = max
				}
				e.reserved = r.Bytes(r.N(n))
			}
			a.ext = e
		}
		body := a.body(r)
		if len(body) > max {
			continue
		}
		pad := max - len(body)
		if !exact {
			switch r.N(3) {
			case 0:
				pad = 0
			case 1:
				if pad > 4 {
					pad = r.N(4)
				}
			default:
				pad = r.N(pad + 1)
			}
		}
		st := bytes.Repeat([]byte{0xff}, pad)
		if r.P(1, 3) {
			st = r.Bytes(pad)
		}
		a.length = len(body) + pad
		out := append([]byte{byte(a.length)}, body...)
		return a, append(out, st...)
	}
}

type tsOpt struct {
	pids       []uint32
	noReserved bool // no packets with adaptation-field control 00
	plain      bool // payload only, no other layouts
}

var afcNames = [4]ts.AdaptationFieldControl{1: ts.PayloadOnly, 2: ts.FieldOnly, 3: ts.FieldThenPayload}

func genPayload(r *R, n int) []byte {
	switch r.N(4) {
	case 0:
		b := make([]byte, n)
		for i := range b {
			if r.P(1, 3) {
				b[i] = 0x47
			} else {
				b[i] = byte(r.N(3))
			}
		}
		return b
	case 1:
		return bytes.Repeat([]byte{byte(r.N(256))}, n)
	}
	return r.Bytes(n)
}

func genTS(r *R, o tsOpt) *tsPkt {
	p := &tsPkt{tei: r.P(1, 5), pusi: r.P(1, 3), prio: r.P(1, 4), tsc: uint32(r.Bits(2)), cc: uint32(r.Bits(4))}
	if len(o.pids) > 0 {
		p.pid = o.pids[r.N(len(o.pids))]
	} else {
		p.pid = uint32(r.Bits(13))
	}
	switch k := r.N(12); {
	case o.plain || k < 4:
		p.afc = 1
	case k < 8:
		p.afc = 3
	case k < 11:
		p.afc = 2
	default:
		p.afc = 0
		if o.noReserved {
			p.afc = 1
		}
	}
	p.build(r)
	return p
}

// build fills the body of a packet whose header values are chosen.
func (p *tsPkt) build(r *R) {
	var afb []byte
	p.payload = nil
	p.af = nil
	switch p.afc {
	case 1:
		p.payload = genPayload(r, 184)
	case 2:
		p.af, afb = genAF(r, 183, true)
	case 3:
		max := 182
		if r.P(1, 8) {
			max = 183
			p.af, afb = genAF(r, max, true)
		} else {
			p.af, afb = genAF(r, max, false)
		}
		p.payload = genPayload(r, 184-len(afb))
	}
	p.encode(r, afb)
}

// encodeHeader writes the four header bytes.
func (p *tsPkt) encode(r *R, afb []byte) {
	w := &BW{}
	w.Put(8, 0x47)
	w.Flag(p.tei)
	w.Flag(p.pusi)
	w.Flag(p.prio)
	w.Put(13, uint64(p.pid))
	w.Put(2, uint64(p.tsc))
	w.Put(2, uint64(p.afc))
	w.Put(4, uint64(p.cc))
	w.Raw(afb)
	w.Raw(p.payload)
	if p.afc == 0 {
		w.Raw(r.Bytes(184))
	}
	p.raw = w.Bytes()
	if len(p.raw) != 188 {
		panic("tsgen: packet size")
	}
}

// tsWith makes a packet carrying exactly this payload (<= 184 bytes), stuffed
// by an adaptation field.
func tsWith(r *R, pid uint32, pusi bool, cc uint32, payload []byte) *tsPkt {
	p := &tsPkt{pid: pid, pusi: pusi, cc: cc & 15, payload: payload}
	n := 184 - len(payload)
	if n == 0 {
		p.afc = 1
		p.encode(r, nil)
		return p
	}
	p.afc = 3
	if n == 1 {
		p.af = &tsAF{}
		p.encode(r, []byte{0})
		return p
	}
	var afb []byte
	p.af, afb = genAFExact(r, n-1)
	p.encode(r, afb)
	return p
}

func genAFExact(r *R, n int) (*tsAF, []byte) {
	for i := 0; i < 20; i++ {
		a, b := genAFTry(r, n)
		if a != nil {
			return a, b
		}
	}
	a := &tsAF{length: n}
	return a, append([]byte{byte(n), 0}, bytes.Repeat([]byte{0xff}, n-1)...)
}

func genAFTry(r *R, n int) (*tsAF, []byte) {
	if n < 1 {
		return nil, nil
	}
	a := &tsAF{}
	for i := range a.flags[:6] {
		a.flags[i] = r.P(1, 4)
	}
	if a.flags[3] {
		a.pcrB, a.pcrE = r.Bits(33), uint64(r.N(300))
	}
	if a.flags[4] {
		a.opcrB, a.opcrE = r.Bits(33), uint64(r.N(300))
	}
	if a.flags[5] {
		a.splice = r.Bits(8)
	}
	body := a.body(r)
	if len(body) > n {
		return nil, nil
	}
	a.length = n
	out := append([]byte{byte(n)}, body...)
	return a, append(out, bytes.Repeat([]byte{0xff}, n-len(body))...)
}

func joinTS(ps []*tsPkt) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, p.raw...)
	}
	return b
}

func (p *tsPkt) String() string {
	s := fmt.Sprintf("{pid %04x afc %d pusi %v cc %d payload %d", p.pid, p.afc, p.pusi, p.cc, len(p.payload))
	if p.af != nil {
		s += fmt.Sprintf(" af len %d flags %v", p.af.length, p.af.flags)
	}
	return s + "}"
}

// matchTSHeader compares the fixed header fields.
func (p *tsPkt) matchHeader(g *ts.Packet) string {
	switch {
	case g.TransportErrorIndicator != p.tei:
		return fmt.Sprintf("TransportErrorIndicator %v, coded %v", g.TransportErrorIndicator, p.tei)
	case g.PayloadUnitStartIndicator != p.pusi:
		return fmt.Sprintf("PayloadUnitStartIndicator %v, coded %v", g.PayloadUnitStartIndicator, p.pusi)
	case g.TransportPriority != p.prio:
		return fmt.Sprintf("TransportPriority %v, coded %v", g.TransportPriority, p.prio)
	case g.PID != p.pid:
		return fmt.Sprintf("PID %x, coded %x", g.PID, p.pid)
	case g.TransportScramblingControl != p.tsc:
		return fmt.Sprintf("TransportScramblingControl %d, coded %d", g.TransportScramblingControl, p.tsc)
	case uint32(g.AdaptationFieldControl) != p.afc:
		return fmt.Sprintf("AdaptationFieldControl %d, coded %d", g.AdaptationFieldControl, p.afc)
	case g.ContinuityCounter != p.cc:
		return fmt.Sprintf("ContinuityCounter %d, coded %d", g.ContinuityCounter, p.cc)
	}
	if k := afcNames[p.afc]; p.afc != 0 && g.AdaptationFieldControl != k {
		return fmt.Sprintf("AdaptationFieldControl %d is not the constant for it, %d", g.AdaptationFieldControl, k)
	}
	if want := fmt.Sprintf("{ PID: 0x%02x, Counter: %1x }", p.pid, p.cc); g.String() != want {
		return fmt.Sprintf("packet prints %q, want %q", g.String(), want)
	}
	return ""
}

func (p *tsPkt) matchPayload(g *ts.Packet) string {
	if !bytes.Equal(g.Payload, p.payload) {
		return "payload: " + firstDiff(g.Payload, p.payload)
	}
	return ""
}

func (p *tsPkt) matchAF(g *ts.Packet) string {
	a := g.AdaptationField
	if p.af == nil {
		if a != nil {
			return "adaptation field reported, none coded"
		}
		return ""
	}
	if a == nil {
		return "adaptation field not reported"
	}
	f := [8]bool{a.DiscontinuityIndicator, a.RandomAccessIndicator, a.ElementaryStreamPriorityIndicator, a.PCRFlag, a.OPCRFlag,
		a.SplicingPointFlag, a.TransportPrivateDataFlag, a.AdaptationFieldExtensionFlag}
	if f != p.af.flags {
		return fmt.Sprintf("flags %v, coded %v", f, p.af.flags)
	}
	if w := p.af.pcrB*300 + p.af.pcrE; a.PCR != w {
		return fmt.Sprintf("PCR %d, coded %d", a.PCR, w)
	}
	if w := p.af.opcrB*300 + p.af.opcrE; a.OPCR != w {
		return fmt.Sprintf("OPCR %d, coded %d", a.OPCR, w)
	}
	if uint64(a.SpliceCountdown) != p.af.splice {
		return fmt.Sprintf("SpliceCountdown %d, coded %d", a.SpliceCountdown, p.af.splice)
	}
	if (a.TransportPrivateData != nil) != p.af.flags[6] {
		return fmt.Sprintf("private data present %v, coded %v", a.TransportPrivateData != nil, p.af.flags[6])
	}
	if a.TransportPrivateData != nil {
		v := reflect.ValueOf(a.TransportPrivateData).Elem().FieldByName("data")
		if v.IsValid() && v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			if got := v.Bytes(); !bytes.Equal(got, p.af.priv) {
				return "private data: " + firstDiff(got, p.af.priv)
			}
		}
	}
	e := a.AdapatationExtension
	if (e != nil) != p.af.flags[7] {
		return fmt.Sprintf("extension present %v, coded %v", e != nil, p.af.flags[7])
	}
	if e != nil {
		w := p.af.ext
		g := fmt.Sprint(e.LegalTimeWindowFlag, e.PiecewiseRateFlag, e.SeamlessSpliceFlag, e.LTWValidFlag, uint64(e.LTWOffset), uint64(e.PiecewiseRate), uint64(e.SpliceType), e.DTSNextAU)
		x := fmt.Sprint(w.ltw, w.pw, w.ss, w.ltwValid, w.ltwOff, w.pwRate, w.spliceType, w.dts)
		if g != x {
			return fmt.Sprintf("extension %s, coded %s", g, x)
		}
	}
	return ""
}

func (p *tsPkt) match(g *ts.Packet) string {
	if s := p.matchHeader(g); s != "" {
		return s
	}
	if s := p.matchAF(g); s != "" {
		return s
	}
	return p.matchPayload(g)
}

// expr is a Boolean expression over packets, with its own evaluation.
type expr struct {
	op   int // 0 pid, 1 pusi, 2 user, 3 and, 4 or, 5 not
	pid  uint32
	user int
	a, b *expr
}

const userFns = 4

func userFn(k int, tei, prio bool, cc uint32, afc uint32) bool {
	switch k {
	case 0:
		return cc&1 == 1
	case 1:
		return prio
	case 2:
		return afc&1 == 1
	}
	return !tei && cc > 7
}

func genExpr(r *R, depth int, pids []uint32) *expr {
	k := r.N(6)
	if depth == 0 {
		k = r.N(3)
	}
	e := &expr{op: k}
	switch k {
	case 0:
		e.pid = pids[r.N(len(pids))]
		if r.P(1, 24) { // no packet has that one
			e.pid |= 1 << uint(r.In(13, 31))
		}
	case 2:
		e.user = r.N(userFns)
	case 3, 4:
		e.a, e.b = genExpr(r, depth-1, pids), genExpr(r, depth-1, pids)
	case 5:
		e.a = genExpr(r, depth-1, pids)
	}
	return e
}

func (e *expr) eval(p *tsPkt) bool {
	switch e.op {
	case 0:
		return p.pid == e.pid
	case 1:
		return p.pusi
	case 2:
		return userFn(e.user, p.tei, p.prio, p.cc, p.afc)
	case 3:
		return e.a.eval(p) && e.b.eval(p)
	case 4:
		return e.a.eval(p) || e.b.eval(p)
	}
	return !e.a.eval(p)
}

// build makes the library's tester; every node's tester is also appended to
// all, so that parts can be checked after combinations were built from them.
func (e *expr) build(all *[]builtTester) ts.PacketTester {
	var t ts.PacketTester
	switch e.op {
	case 0:
		t = ts.IsPID(e.pid)
	case 1:
		t = ts.IsPayloadUnitStart
	case 2:
		k := e.user
		t = func(p *ts.Packet) bool {
			return userFn(k, p.TransportErrorIndicator, p.TransportPriority, p.ContinuityCounter, uint32(p.AdaptationFieldControl))
		}
	case 3:
		a, b := e.a.build(all), e.b.build(all)
		t = a.And(b)
	case 4:
		a, b := e.a.build(all), e.b.build(all)
		t = a.Or(b)
	default:
		t = e.a.build(all).Not()
	}
	if all != nil {
		*all = append(*all, builtTester{e, t})
	}
	return t
}

type builtTester struct {
	e *expr
	t ts.PacketTester
}

func (e *expr) String() string {
	switch e.op {
	case 0:
		return fmt.Sprintf("pid=%x", e.pid)
	case 1:
		return "start"
	case 2:
		return fmt.Sprintf("user%d", e.user)
	case 3:
		return "(" + e.a.String() + " & " + e.b.String() + ")"
	case 4:
		return "(" + e.a.String() + " | " + e.b.String() + ")"
	}
	return "!" + e.a.String()
}

// muxUnit carries data as one payload unit of pid, with a foreign packet now
// and then.
func muxUnit(r *R, data []byte, pid uint32) (out []*tsPkt) {
	for first := true; first || len(data) > 0; first = false {
		n := min(len(data), 184)
		if r.P(1, 50) {
			n = min(n, r.In(1, 184))
		}
		out = append(out, tsWith(r, pid, first, uint32(len(out)), data[:n]))
		data = data[n:]
		if r.P(1, 100) {
			out = append(out, tsWith(r, pid^1, r.Bool(), 0, r.Bytes(r.N(185))))
		}
	}
	return
}
