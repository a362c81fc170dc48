package main

import (
	"fmt"
	"strings"
)

// Tables of ISO/IEC 13818-2 written down independently of the decoder.

type vlc struct {
	bits uint64
	n    uint
}

func mkVLC(s string) vlc {
	var v vlc
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '0', '1':
			v.bits = v.bits<<1 | uint64(s[i]-'0')
			v.n++
		}
	}
	return v
}

func (w *BW) VLC(v vlc) {
	if putHook != nil {
		v = putHook.vlc(v)
	}
	w.put(v.n, v.bits)
}

// Table B.14 and B.15: "code:run,level"; 'E' escape, 'X' end of block.
const tabB14 = `10:X 11:0,1 011:1,1 0100:0,2 0101:2,1 00101:0,3 00111:3,1 00110:4,1
000110:1,2 000111:5,1 000101:6,1 000100:7,1 0000110:0,4 0000100:2,2 0000111:8,1 0000101:9,1
000001:E 00100110:0,5 00100001:0,6 00100101:1,3 00100100:3,2 00100111:10,1 00100011:11,1
00100010:12,1 00100000:13,1 0000001010:0,7 0000001100:1,4 0000001011:2,3 0000001111:4,2
0000001001:5,2 0000001110:14,1 0000001101:15,1 0000001000:16,1
000000011101:0,8 000000011000:0,9 000000010011:0,10 000000010000:0,11 000000011011:1,5
000000010100:2,4 ` + tabTail12 + `
0000000011010:0,12 0000000011001:0,13 0000000011000:0,14 0000000010111:0,15 ` + tabTail

const tabTail12 = `000000011100:3,3 000000010010:4,3 000000011110:6,2 000000010101:7,2
000000010001:8,2 000000011111:17,1 000000011010:18,1 000000011001:19,1 000000010111:20,1
000000010110:21,1`

const tabTail = `0000000010110:1,6 0000000010101:1,7 0000000010100:2,5 0000000010011:3,4
0000000010010:5,3 0000000010001:9,2 0000000010000:10,2 0000000011111:22,1 0000000011110:23,1
0000000011101:24,1 0000000011100:25,1 0000000011011:26,1
00000000011111:0,16 00000000011110:0,17 00000000011101:0,18 00000000011100:0,19
00000000011011:0,20 00000000011010:0,21 00000000011001:0,22 00000000011000:0,23
00000000010111:0,24 00000000010110:0,25 00000000010101:0,26 00000000010100:0,27
00000000010011:0,28 00000000010010:0,29 00000000010001:0,30 00000000010000:0,31
000000000011000:0,32 000000000010111:0,33 000000000010110:0,34 000000000010101:0,35
000000000010100:0,36 000000000010011:0,37 000000000010010:0,38 000000000010001:0,39
000000000010000:0,40 000000000011111:1,8 000000000011110:1,9 000000000011101:1,10
000000000011100:1,11 000000000011011:1,12 000000000011010:1,13 000000000011001:1,14
0000000000010011:1,15 0000000000010010:1,16 0000000000010001:1,17 0000000000010000:1,18
0000000000010100:6,3 0000000000011010:11,2 0000000000011001:12,2 0000000000011000:13,2
0000000000010111:14,2 0000000000010110:15,2 0000000000010101:16,2 0000000000011111:27,1
0000000000011110:28,1 0000000000011101:29,1 0000000000011100:30,1 0000000000011011:31,1`

const tabB15 = `0110:X 10:0,1 010:1,1 110:0,2 00101:2,1 0111:0,3 00111:3,1 000110:4,1 00110:1,2
000111:5,1 0000110:6,1 0000100:7,1 11100:0,4 0000111:2,2 0000101:8,1 1111000:9,1 000001:E
11101:0,5 000101:0,6 1111001:1,3 00100110:3,2 1111010:10,1 00100001:11,1 00100101:12,1
00100100:13,1 000100:0,7 00100111:1,4 11111100:2,3 11111101:4,2 000000100:5,2 000000101:14,1
000000111:15,1 0000001101:16,1 1111011:0,8 1111100:0,9 00100011:0,10 00100010:0,11 00100000:1,5
0000001100:2,4 ` + tabTail12 + `
11111010:0,12 11111011:0,13 11111110:0,14 11111111:0,15 ` + tabTail

type runLevel struct{ run, level int }

type dctTab struct {
	code map[runLevel]vlc
	eob  vlc
	esc  vlc
	list []runLevel
}

func mkDCT(s string) *dctTab {
	t := &dctTab{code: map[runLevel]vlc{}}
	for _, f := range strings.Fields(s) {
		p := strings.SplitN(f, ":", 2)
		v := mkVLC(p[0])
		switch p[1] {
		case "X":
			t.eob = v
		case "E":
			t.esc = v
		default:
			var rl runLevel
			fmt.Sscanf(p[1], "%d,%d", &rl.run, &rl.level)
			t.code[rl] = v
			t.list = append(t.list, rl)
		}
	}
	if len(t.list) != 111 {
		panic(fmt.Sprintf("DCT table has %d entries", len(t.list)))
	}
	return t
}

var dctTabs = [2]*dctTab{mkDCT(tabB14), mkDCT(tabB15)}

func mkList(s string) []vlc {
	var l []vlc
	for _, f := range strings.Fields(s) {
		l = append(l, mkVLC(f))
	}
	return l
}

// Tables B.12, B.13
var dcSizeLuma = mkList(`100 00 01 101 110 1110 11110 111110 1111110 11111110 111111110 111111111`)
var dcSizeChroma = mkList(`00 01 10 110 1110 11110 111110 1111110 11111110 111111110 1111111110 1111111111`)

// Table B.1, increments 1..33
var mbaiVLC = mkList(`1 011 010 0011 0010 00011 00010 0000111 0000110 00001011 00001010 00001001
00001000 00000111 00000110 0000010111 0000010110 0000010101 0000010100 0000010011 0000010010
00000100011 00000100010 00000100001 00000100000 00000011111 00000011110 00000011101 00000011100
00000011011 00000011010 00000011001 00000011000`)
var mbaiEscape = mkVLC("00000001000")

// Table B.10, magnitudes 1..16 without the sign bit
var motionVLC = mkList(`01 001 0001 000011 0000101 0000100 0000011 000001011 000001010 000001001
0000010001 0000010000 0000001111 0000001110 0000001101 0000001100`)

// Table B.9 in the order of the standard
var cbpVLC = mkCBP(`60:111 4:1101 8:1100 16:1011 32:1010 12:10011 48:10010 20:10001 40:10000 28:01111
44:01110 52:01101 56:01100 1:01011 61:01010 2:01001 62:01000 24:001111 36:001110 3:001101 63:001100
5:0010111 9:0010110 17:0010101 33:0010100 6:0010011 10:0010010 18:0010001 34:0010000 7:00011111
11:00011110 19:00011101 35:00011100 13:00011011 49:00011010 21:00011001 41:00011000 14:00010111
50:00010110 22:00010101 42:00010100 15:00010011 51:00010010 23:00010001 43:00010000 25:00001111
37:00001110 26:00001101 38:00001100 29:00001011 45:00001010 53:00001001 57:00001000 30:00000111
46:00000110 54:00000101 58:00000100 31:000000111 47:000000110 55:000000101 59:000000100
27:000000011 39:000000010`)

func mkCBP(s string) map[int]vlc {
	m := map[int]vlc{}
	for _, f := range strings.Fields(s) {
		p := strings.SplitN(f, ":", 2)
		var k int
		fmt.Sscanf(p[0], "%d", &k)
		m[k] = mkVLC(p[1])
	}
	if len(m) != 63 {
		panic("cbp table")
	}
	return m
}

// Macroblock types, keyed by quant, forward, backward, pattern, intra.
type mbFlags struct{ quant, fwd, bwd, pattern, intra bool }

func flagsOf(s string) mbFlags {
	return mbFlags{strings.Contains(s, "q"), strings.Contains(s, "f"), strings.Contains(s, "b"),
		strings.Contains(s, "c"), strings.Contains(s, "i")}
}

func mkTypes(s string) map[mbFlags]vlc {
	m := map[mbFlags]vlc{}
	for _, f := range strings.Fields(s) {
		p := strings.SplitN(f, ":", 2)
		m[flagsOf(p[1])] = mkVLC(p[0])
	}
	return m
}

// Tables B.2, B.3, B.4 (q quant, f forward, b backward, c coded, i intra)
var mbTypeVLC = [4]map[mbFlags]vlc{
	nil,
	mkTypes("1:i 01:qi"),
	mkTypes("1:fc 01:c 001:f 00011:i 00010:qfc 00001:qc 000001:qi"),
	mkTypes("10:fb 11:fbc 010:b 011:bc 0010:f 0011:fc 00011:i 00010:qfbc 000011:qfc 000010:qbc 000001:qi"),
}

// zigzag[k] is the raster position of the k-th coefficient (figure 7-2).
var zigzag = mkZigzag()

func mkZigzag() (z [64]int) {
	x, y := 0, 0
	for k := 0; k < 64; k++ {
		z[k] = y*8 + x
		if (x+y)&1 == 0 { // going up
			switch {
			case x == 7:
				y++
			case y == 0:
				x++
			default:
				x++
				y--
			}
		} else {
			switch {
			case y == 7:
				x++
			case x == 0:
				y++
			default:
				x--
				y++
			}
		}
	}
	return
}

// altScan[k] is the raster position of the k-th coefficient (figure 7-3).
var altScan = [64]int{
	0, 8, 16, 24, 1, 9, 2, 10,
	17, 25, 32, 40, 48, 56, 57, 49,
	41, 33, 26, 18, 3, 11, 4, 12,
	19, 27, 34, 42, 50, 58, 35, 43,
	51, 59, 20, 28, 5, 13, 6, 14,
	21, 29, 36, 44, 52, 60, 37, 45,
	53, 61, 22, 30, 7, 15, 23, 31,
	38, 46, 54, 62, 39, 47, 55, 63,
}

var scans = [2]*[64]int{&zigzag, &altScan}

// Default intra matrix in raster order (6.3.11).
var defIntra = [64]int{
	8, 16, 19, 22, 26, 27, 29, 34,
	16, 16, 22, 24, 27, 29, 34, 37,
	19, 22, 26, 27, 29, 34, 34, 38,
	22, 22, 26, 27, 29, 34, 37, 40,
	22, 26, 27, 29, 32, 35, 40, 48,
	26, 27, 29, 32, 35, 40, 48, 58,
	26, 27, 29, 34, 38, 46, 56, 69,
	27, 29, 35, 38, 46, 56, 69, 83,
}

var defNonIntra = func() (m [64]int) {
	for i := range m {
		m[i] = 16
	}
	return
}()

// Table 7-6
func quantScale(typ, code int) int {
	if typ == 0 {
		return 2 * code
	}
	switch {
	case code <= 8:
		return code
	case code <= 16:
		return 8 + 2*(code-8)
	case code <= 24:
		return 24 + 4*(code-16)
	default:
		return 56 + 8*(code-24)
	}
}
