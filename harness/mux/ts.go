package mux

import (
	"fmt"

	"pgregory.net/rapid"
)

// TSExt is an adaptation field extension.
type TSExt struct {
	LTW, Piecewise, Seamless bool
	LTWValid                 bool
	LTWOffset                uint16
	PiecewiseRate            uint32
	SpliceType               uint8
	DTSNextAU                uint64
	Reserved                 []byte
	Res5, Res2               uint8
}

func (e *TSExt) encode() []byte {
	var b Bits
	b.Flag(e.LTW)
	b.Flag(e.Piecewise)
	b.Flag(e.Seamless)
	b.Put(uint64(e.Res5), 5)
	if e.LTW {
		b.Flag(e.LTWValid)
		b.Put(uint64(e.LTWOffset), 15)
	}
	if e.Piecewise {
		b.Put(uint64(e.Res2), 2)
		b.Put(uint64(e.PiecewiseRate), 22)
	}
	if e.Seamless {
		b.Put(uint64(e.SpliceType), 4)
		b.Put(e.DTSNextAU>>30, 3)
		b.Put(1, 1)
		b.Put(e.DTSNextAU>>15&0x7fff, 15)
		b.Put(1, 1)
		b.Put(e.DTSNextAU&0x7fff, 15)
		b.Put(1, 1)
	}
	b.Bytes(e.Reserved)
	return append([]byte{byte(len(b.Buf))}, b.Buf...)
}

// TSPCR is a program clock reference: base 33 bits, extension 9 bits.
type TSPCR struct {
	Base uint64
	Ext  uint16
	Res  uint8
}

func (p *TSPCR) put(b *Bits) {
	b.Put(p.Base, 33)
	b.Put(uint64(p.Res), 6)
	b.Put(uint64(p.Ext), 9)
}

func (p *TSPCR) Value() uint64 { return p.Base*300 + uint64(p.Ext) }

// TSAF is an adaptation field. Empty means length 0 (no flags).
type TSAF struct {
	Empty                     bool
	Discont, RandomAcc, ESPri bool
	PCR, OPCR                 *TSPCR
	Splice                    *uint8
	Private                   []byte
	HasPrivate                bool
	Ext                       *TSExt
	Stuffing                  []byte
}

func (a *TSAF) body() []byte {
	if a.Empty {
		return nil
	}
	var b Bits
	b.Flag(a.Discont)
	b.Flag(a.RandomAcc)
	b.Flag(a.ESPri)
	b.Flag(a.PCR != nil)
	b.Flag(a.OPCR != nil)
	b.Flag(a.Splice != nil)
	b.Flag(a.HasPrivate)
	b.Flag(a.Ext != nil)
	if a.PCR != nil {
		a.PCR.put(&b)
	}
	if a.OPCR != nil {
		a.OPCR.put(&b)
	}
	if a.Splice != nil {
		b.Put(uint64(*a.Splice), 8)
	}
	if a.HasPrivate {
		b.Put(uint64(len(a.Private)), 8)
		b.Bytes(a.Private)
	}
	if a.Ext != nil {
		b.Bytes(a.Ext.encode())
	}
	b.Bytes(a.Stuffing)
	return b.Buf
}

// TSPacket is one transport packet.
type TSPacket struct {
	TEI, PUSI, Prio bool
	PID             uint32
	TSC, AFC, CC    uint32
	AF              *TSAF
	Payload         []byte // AFC 1, 3
	Rest            []byte // what fills a packet without payload
}

// Encode writes the 188 bytes.
func (p *TSPacket) Encode() []byte {
	var b Bits
	b.Put(0x47, 8)
	b.Flag(p.TEI)
	b.Flag(p.PUSI)
	b.Flag(p.Prio)
	b.Put(uint64(p.PID), 13)
	b.Put(uint64(p.TSC), 2)
	b.Put(uint64(p.AFC), 2)
	b.Put(uint64(p.CC), 4)
	if p.AF != nil {
		body := p.AF.body()
		b.Put(uint64(len(body)), 8)
		b.Bytes(body)
	}
	b.Bytes(p.Payload)
	b.Bytes(p.Rest)
	if len(b.Buf) != 188 {
		panic(fmt.Sprintf("verif: generated packet has %d bytes", len(b.Buf)))
	}
	return b.Buf
}

// Bytes draws n bytes; cheap when n is large.
func Bytes(t *rapid.T, n int, label string) []byte {
	if n <= 0 {
		return []byte{}
	}
	if n <= 12 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	seed := rapid.Uint64().Draw(t, label)
	return Noise(seed, n)
}

// Noise expands a seed into n bytes; seed 0 gives zero bytes.
func Noise(seed uint64, n int) []byte {
	out := make([]byte, n)
	if seed == 0 {
		return out
	}
	if seed < 256 {
		for i := range out {
			out[i] = byte(seed)
		}
		return out
	}
	x := seed
	for i := range out {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out[i] = byte(x >> 24)
		if x>>40&15 == 0 {
			out[i] = 0x47 // sync bytes inside payloads are legal and common
		}
	}
	return out
}

func b33(t *rapid.T, l string) uint64 {
	return rapid.OneOf(rapid.Uint64Range(0, 1<<33-1), rapid.SampledFrom([]uint64{0, 1, 0x7fff, 0x8000, 1<<30 - 1, 1 << 30, 1<<32 - 1, 1 << 32, 1<<33 - 1})).Draw(t, l)
}

func genPCR(t *rapid.T, l string) *TSPCR {
	return &TSPCR{b33(t, l+"base"), uint16(rapid.IntRange(0, 511).Draw(t, l+"ext")), uint8(rapid.IntRange(0, 63).Draw(t, l+"res"))}
}

func chance(t *rapid.T, pct int, l string) bool {
	// Draws 0 for "no", so that shrinking removes things.
	return rapid.IntRange(0, 99).Draw(t, l) >= 100-pct
}

// Chance is true in about pct of 100 draws and shrinks to false.
func Chance(t *rapid.T, pct int, l string) bool { return chance(t, pct, l) }

// GenAF draws an adaptation field whose length is at most max; the stuffing
// makes it exactly want bytes long if want >= 0 (and the fields fit).
func GenAF(t *rapid.T, max int, exact bool) *TSAF {
	a := &TSAF{}
	if max == 0 || (!exact && chance(t, 8, "afempty")) {
		a.Empty = true
		return a
	}
	left := max - 1
	a.Discont = rapid.Bool().Draw(t, "discont")
	a.RandomAcc = rapid.Bool().Draw(t, "random")
	a.ESPri = rapid.Bool().Draw(t, "espri")
	if left >= 6 && chance(t, 40, "pcr") {
		a.PCR = genPCR(t, "pcr")
		left -= 6
	}
	if left >= 6 && chance(t, 40, "opcr") {
		a.OPCR = genPCR(t, "opcr")
		left -= 6
	}
	if left >= 1 && chance(t, 40, "splice") {
		v := rapid.Byte().Draw(t, "countdown")
		a.Splice = &v
		left--
	}
	if left >= 1 && chance(t, 40, "private") {
		n := rapid.IntRange(0, min(left-1, 255)).Draw(t, "privlen")
		if chance(t, 60, "privshort") {
			n = min(n, 5)
			if chance(t, 40, "privone") {
				n = min(n, 1)
			}
		}
		a.HasPrivate = true
		a.Private = Bytes(t, n, "priv")
		left -= 1 + n
	}
	if left >= 13 && chance(t, 40, "ext") {
		e := &TSExt{Res5: uint8(rapid.IntRange(0, 31).Draw(t, "res5")), Res2: uint8(rapid.IntRange(0, 3).Draw(t, "res2"))}
		if chance(t, 50, "ltw") {
			e.LTW = true
			e.LTWValid = rapid.Bool().Draw(t, "ltwv")
			e.LTWOffset = uint16(rapid.IntRange(0, 0x7fff).Draw(t, "ltwo"))
		}
		if chance(t, 50, "pw") {
			e.Piecewise = true
			e.PiecewiseRate = uint32(rapid.IntRange(0, 1<<22-1).Draw(t, "pwr"))
		}
		if chance(t, 50, "seam") {
			e.Seamless = true
			e.SpliceType = uint8(rapid.IntRange(0, 15).Draw(t, "st"))
			e.DTSNextAU = b33(t, "dts")
		}
		if chance(t, 30, "extres") {
			e.Reserved = Bytes(t, rapid.IntRange(0, min(left-13, 40)).Draw(t, "reslen"), "res")
		}
		a.Ext = e
		left -= len(e.encode())
	}
	stuff := left
	if !exact {
		stuff = rapid.IntRange(0, left).Draw(t, "stuff")
	}
	if chance(t, 20, "oddstuff") {
		a.Stuffing = Bytes(t, stuff, "stuffing")
	} else {
		a.Stuffing = Noise(255, stuff)
	}
	return a
}

// TSOpts steers packet generation.
type TSOpts struct {
	PIDs     []uint32 // nil: any
	NoOddAFC bool     // only AFC 1, 2 (full), 3
	PUSIPct  int
}

// GenPacket draws a well-formed packet.
func GenPacket(t *rapid.T, o TSOpts) TSPacket {
	p := TSPacket{
		TEI:  chance(t, 10, "tei"),
		Prio: chance(t, 10, "prio"),
		CC:   uint32(rapid.IntRange(0, 15).Draw(t, "cc")),
	}
	if o.PUSIPct == 0 {
		p.PUSI = rapid.Bool().Draw(t, "pusi")
	} else {
		p.PUSI = chance(t, o.PUSIPct, "pusi")
	}
	if o.PIDs != nil {
		p.PID = rapid.SampledFrom(o.PIDs).Draw(t, "pid")
	} else {
		p.PID = rapid.Uint32Range(0, 0x1fff).Draw(t, "pid")
	}
	if chance(t, 20, "scrambled") {
		p.TSC = uint32(rapid.IntRange(0, 3).Draw(t, "tsc"))
	}
	p.AFC = rapid.SampledFrom([]uint32{1, 1, 1, 3, 3, 3, 2, 0}).Draw(t, "afc")
	if o.NoOddAFC && p.AFC == 0 {
		p.AFC = 1
	}
	fill(t, &p, o)
	return p
}

func fill(t *rapid.T, p *TSPacket, o TSOpts) {
	switch p.AFC {
	case 1:
		p.Payload = Bytes(t, 184, "payload")
	case 3:
		max := rapid.SampledFrom([]int{182, 183, 20, 100, 60, 1, 0}).Draw(t, "afmax")
		p.AF = GenAF(t, max, chance(t, 30, "exact"))
		p.Payload = Bytes(t, 183-len(p.AF.body()), "payload")
	case 2:
		if o.NoOddAFC || !chance(t, 25, "shortaf") {
			p.AF = GenAF(t, 183, true)
		} else {
			p.AF = GenAF(t, 183, false)
		}
		p.Rest = Bytes(t, 183-len(p.AF.body()), "rest")
	case 0:
		p.Rest = Bytes(t, 184, "rest")
	}
}

// BytesOf encodes a sequence of packets.
func BytesOf(ps []TSPacket) []byte {
	var out []byte
	for i := range ps {
		out = append(out, ps[i].Encode()...)
	}
	return out
}

// GenSizes draws a list of read or chunk sizes (nil: everything at once).
func GenSizes(t *rapid.T, label string, zero bool) []int {
	switch rapid.IntRange(0, 5).Draw(t, label+"kind") {
	case 0:
		if chance(t, 10, label+"large") {
			return []int{rapid.SampledFrom([]int{32768, 65535, 65536, 65537, 100000, 200000}).Draw(t, label+"size")}
		}
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{rapid.SampledFrom([]int{2, 3, 7, 8, 9, 64, 183, 184, 185, 187, 188, 189, 368, 1000, 4096}).Draw(t, label+"size")}
	default:
		lo := 1
		if zero {
			lo = 0
		}
		g := rapid.OneOf(rapid.IntRange(lo, 12), rapid.SampledFrom([]int{183, 184, 185, 188, 376}), rapid.IntRange(lo, 700))
		s := rapid.SliceOfN(g, 1, 8).Draw(t, label+"sizes")
		for _, v := range s {
			if v > 0 {
				return s
			}
		}
		return append(s, 1)
	}
}

// field makes an adaptation field that takes n bytes after its length and
// flags, of optional fields chosen by k and stuffing.
func field(k, n int, start bool) *TSAF {
	h := uint32(k+1) * 2654435761 >> 7
	a := &TSAF{RandomAcc: start != (h%5 == 0), Discont: h%11 == 0, ESPri: h%3 == 1}
	if h>>4%3 == 0 && n >= 6 {
		a.PCR = &TSPCR{Base: uint64(h) * 3, Ext: uint16(h % 300), Res: 63}
		n -= 6
	}
	if h>>8%4 == 0 && n >= 1 {
		v := uint8(h >> 12)
		a.Splice = &v
		n--
	}
	if h>>10%4 == 0 && n >= 4 {
		a.HasPrivate, a.Private = true, []byte{1, 2, 3}
		n -= 4
	}
	a.Stuffing = Noise(255, n)
	return a
}

// Transport carries units (one PES packet each) on one PID: the unit start is
// flagged, stuff adds adaptation-field bytes to packets (cycled; 0: none),
// others puts foreign packets before each packet (cycled).
func Transport(units [][]byte, pid uint32, stuff, others []int) []byte {
	var out []byte
	k, cc := 0, uint32(0)
	for ui, u := range units {
		start := true
		for start || len(u) > 0 {
			if len(others) > 0 {
				for j := 0; j < others[k%len(others)]; j++ {
					f := TSPacket{PID: []uint32{0x1fff, 0x22, 0x100}[(k+j)%3], PUSI: (k+j)%2 == 0, AFC: 1, Payload: Noise(uint64(300+k), 184)}
					if (k+j)%5 == 3 {
						// one without payload
						f = TSPacket{PID: pid, CC: (cc + 15) & 15, AFC: 2, AF: field(k+j, 182, false)}
					}
					out = append(out, f.Encode()...)
				}
			}
			s := 0
			if len(stuff) > 0 {
				s = stuff[k%len(stuff)]
			}
			p := TSPacket{PID: pid, PUSI: start, Prio: k%9 == 4, AFC: 1, CC: cc & 15}
			room := 184
			if s > 0 {
				room = 184 - min(s, 183)
			}
			n := min(room, len(u))
			p.Payload = u[:n]
			u = u[n:]
			if n < 184 {
				p.AFC = 3
				p.AF = &TSAF{Empty: true}
				if n < 183 {
					p.AF = field(k, 184-n-2, start)
				}
			}
			out = append(out, p.Encode()...)
			start = false
			k++
			cc++
		}
		_ = ui
	}
	return out
}
