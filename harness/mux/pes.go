package mux

import (
	"pgregory.net/rapid"
)

// PESHeader is the optional header of a PES packet.
type PESHeader struct {
	Scrambling                         uint32
	Priority, Aligned, Copyright, Orig bool
	PTSFlags                           uint32 // 0, 2 or 3
	PTS, DTS                           uint64
	ESCR                               *TSPCR
	ESRate                             *uint32
	Trick                              *uint8
	CopyInfo                           *uint8
	CRC                                *uint16
	Ext                                *PESExt
	Stuffing                           int
}

// PESExt is the extension of a PES header.
type PESExt struct {
	Res        uint8 // 3 reserved bits
	Private    []byte
	PackHeader []byte
	HasPack    bool
	Sequence   *uint16
	STD        *PESSTD
	Ext2       []byte
	HasExt2    bool
}

// PESSTD is a P-STD buffer size.
type PESSTD struct {
	Scale uint32
	Size  uint32
}

// PESPacket is one PES packet.
type PESPacket struct {
	StreamID  uint32
	H         *PESHeader
	Payload   []byte // for padding: the padding
	Unbounded bool   // packet length 0
}

// PESHasHeader says whether the standard gives the stream id a header.
func PESHasHeader(id uint32) bool {
	switch id {
	case 0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xff, 0xf2, 0xf8:
		return false
	}
	return true
}

func putTime(b *Bits, prefix uint64, v uint64, mark func(uint)) {
	b.Put(prefix, 4)
	b.Put(v>>30, 3)
	mark(b.Len())
	b.Put(1, 1)
	b.Put(v>>15&0x7fff, 15)
	mark(b.Len())
	b.Put(1, 1)
	b.Put(v&0x7fff, 15)
	mark(b.Len())
	b.Put(1, 1)
}

// encode returns the header and the bit offsets (in it) of its checked markers.
func (h *PESHeader) encode() (out []byte, marks []uint) {
	mark := func(p uint) { marks = append(marks, p) }
	var b Bits
	mark(0)
	b.Put(2, 2)
	b.Put(uint64(h.Scrambling), 2)
	b.Flag(h.Priority)
	b.Flag(h.Aligned)
	b.Flag(h.Copyright)
	b.Flag(h.Orig)
	b.Put(uint64(h.PTSFlags), 2)
	b.Flag(h.ESCR != nil)
	b.Flag(h.ESRate != nil)
	b.Flag(h.Trick != nil)
	b.Flag(h.CopyInfo != nil)
	b.Flag(h.CRC != nil)
	b.Flag(h.Ext != nil)
	lenAt := len(b.Buf)
	b.Put(0, 8)
	if h.PTSFlags&2 != 0 {
		mark(b.Len() + 2)
		putTime(&b, uint64(h.PTSFlags), h.PTS, mark)
	}
	if h.PTSFlags == 3 {
		mark(b.Len() + 3)
		putTime(&b, 1, h.DTS, mark)
	}
	if h.ESCR != nil {
		b.Put(3, 2)
		b.Put(h.ESCR.Base>>30, 3)
		b.Put(1, 1)
		b.Put(h.ESCR.Base>>15&0x7fff, 15)
		b.Put(1, 1)
		b.Put(h.ESCR.Base&0x7fff, 15)
		b.Put(1, 1)
		b.Put(uint64(h.ESCR.Ext), 9)
		b.Put(1, 1)
	}
	if h.ESRate != nil {
		b.Put(1, 1)
		b.Put(uint64(*h.ESRate), 22)
		b.Put(1, 1)
	}
	if h.Trick != nil {
		b.Put(uint64(*h.Trick), 8)
	}
	if h.CopyInfo != nil {
		b.Put(1, 1)
		b.Put(uint64(*h.CopyInfo), 7)
	}
	if h.CRC != nil {
		b.Put(uint64(*h.CRC), 16)
	}
	if e := h.Ext; e != nil {
		b.Flag(e.Private != nil)
		b.Flag(e.HasPack)
		b.Flag(e.Sequence != nil)
		b.Flag(e.STD != nil)
		b.Put(uint64(e.Res), 3)
		b.Flag(e.HasExt2)
		if e.Private != nil {
			b.Bytes(e.Private[:16])
		}
		if e.HasPack {
			b.Put(uint64(len(e.PackHeader)), 8)
			b.Bytes(e.PackHeader)
		}
		if e.Sequence != nil {
			v := uint64(*e.Sequence)
			b.Put(1, 1)
			b.Put(v>>7&0x7f, 7)
			b.Put(1, 1)
			b.Put(v&0x7f, 7)
		}
		if e.STD != nil {
			mark(b.Len() + 1)
			b.Put(1, 2)
			b.Put(uint64(e.STD.Scale), 1)
			b.Put(uint64(e.STD.Size), 13)
		}
		if e.HasExt2 {
			mark(b.Len())
			b.Put(1, 1)
			b.Put(uint64(len(e.Ext2)), 7)
			b.Bytes(e.Ext2)
		}
	}
	for i := 0; i < h.Stuffing; i++ {
		mark(b.Len() + uint(i%8))
		b.Put(0xff, 8)
	}
	b.Buf[lenAt] = byte(len(b.Buf) - lenAt - 1)
	return b.Buf, marks
}

// HeaderLen is the header_data_length of the packet.
func (h *PESHeader) DataLen() int {
	b, _ := h.encode()
	return len(b) - 3
}

// Encode writes the packet; marks are the bit offsets of bits that have one
// legal value (prefix, markers, stuffing).
func (p *PESPacket) Encode() (out []byte, marks []uint) {
	out = []byte{0, 0, 1, byte(p.StreamID), 0, 0}
	for i := uint(0); i < 24; i++ {
		marks = append(marks, i)
	}
	if PESHasHeader(p.StreamID) {
		h, m := p.H.encode()
		for _, v := range m {
			marks = append(marks, 48+v)
		}
		out = append(out, h...)
	}
	out = append(out, p.Payload...)
	if !p.Unbounded {
		n := len(out) - 6
		if n > 0xffff {
			panic("verif: generated PES packet too long")
		}
		out[4], out[5] = byte(n>>8), byte(n)
	}
	return out, marks
}

// Bytes is Encode without the marks.
func (p *PESPacket) Bytes() []byte {
	b, _ := p.Encode()
	return b
}

// PESIDs.
var (
	PESWithHeader    = []uint32{0xe0, 0xe1, 0xef, 0xc0, 0xdf, 0xbd, 0xfa, 0xfb, 0xf3, 0xf4, 0xf9, 0xfd}
	PESWithoutHeader = []uint32{0xbc, 0xbf, 0xf0, 0xf1, 0xf2, 0xf8, 0xff}
)

// GenPESID draws a stream id of any class.
func GenPESID(t *rapid.T) uint32 {
	switch rapid.IntRange(0, 9).Draw(t, "idclass") {
	case 7:
		return 0xbe
	case 8, 9:
		return rapid.SampledFrom(PESWithoutHeader).Draw(t, "plainid")
	case 6:
		return rapid.Uint32Range(0xbc, 0xff).Draw(t, "anyid")
	}
	return rapid.SampledFrom(PESWithHeader).Draw(t, "id")
}

// GenPESHeader draws a header.
func GenPESHeader(t *rapid.T) *PESHeader {
	h := &PESHeader{}
	if chance(t, 20, "flags") {
		h.Scrambling = uint32(rapid.IntRange(0, 3).Draw(t, "scr"))
		h.Priority = rapid.Bool().Draw(t, "prio")
		h.Copyright = rapid.Bool().Draw(t, "copyright")
		h.Orig = rapid.Bool().Draw(t, "orig")
	}
	h.Aligned = rapid.Bool().Draw(t, "aligned")
	h.PTSFlags = rapid.SampledFrom([]uint32{0, 2, 3}).Draw(t, "ptsflags")
	if h.PTSFlags != 0 {
		h.PTS = b33(t, "pts")
	}
	if h.PTSFlags == 3 {
		h.DTS = b33(t, "dts")
	}
	if chance(t, 25, "escr") {
		h.ESCR = genPCR(t, "escr")
	}
	if chance(t, 25, "esrate") {
		v := rapid.Uint32Range(0, 1<<22-1).Draw(t, "rate")
		h.ESRate = &v
	}
	if chance(t, 25, "trick") {
		v := rapid.Byte().Draw(t, "trickv")
		h.Trick = &v
	}
	if chance(t, 25, "copyinfo") {
		v := rapid.Byte().Draw(t, "copyv") & 0x7f
		h.CopyInfo = &v
	}
	if chance(t, 25, "crc") {
		v := rapid.Uint16().Draw(t, "crcv")
		h.CRC = &v
	}
	if chance(t, 40, "ext") {
		e := &PESExt{Res: uint8(rapid.IntRange(0, 7).Draw(t, "extres"))}
		if chance(t, 40, "priv") {
			e.Private = Bytes(t, 16, "privdata")
		}
		if chance(t, 30, "pack") {
			e.HasPack = true
			e.PackHeader = Bytes(t, rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 40), rapid.IntRange(0, 80)).Draw(t, "packlen"), "packhdr")
		}
		if chance(t, 40, "seq") {
			v := rapid.Uint16().Draw(t, "seqv")
			e.Sequence = &v
		}
		if chance(t, 40, "std") {
			e.STD = &PESSTD{rapid.Uint32Range(0, 1).Draw(t, "scale"), rapid.Uint32Range(0, 0x1fff).Draw(t, "size")}
		}
		if chance(t, 30, "ext2") {
			e.HasExt2 = true
			e.Ext2 = Bytes(t, rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 60), rapid.IntRange(61, 127)).Draw(t, "ext2len"), "ext2data")
		}
		if e.HasPack && len(e.Ext2) == 0 && chance(t, 10, "longpack") {
			e.PackHeader = Bytes(t, rapid.IntRange(81, 209).Draw(t, "longpacklen"), "longpackhdr")
		}
		h.Ext = e
	}
	if chance(t, 40, "stuffing") {
		h.Stuffing = rapid.IntRange(0, 255-h.DataLen()).Draw(t, "stuffn")
		if h.Stuffing > 0 && chance(t, 60, "few") {
			h.Stuffing = 1 + h.Stuffing%32
			h.Stuffing = min(h.Stuffing, 255-(&PESHeader{PTSFlags: h.PTSFlags, ESCR: h.ESCR, ESRate: h.ESRate, Trick: h.Trick, CopyInfo: h.CopyInfo, CRC: h.CRC, Ext: h.Ext}).DataLen())
		}
	}
	return h
}

// Lengthen sometimes gives a packet of unbounded length a payload that is longer
// than a packet of given length can have.
func (p *PESPacket) Lengthen(t *rapid.T) {
	if p.Unbounded && chance(t, 3, "lengthen") {
		p.Payload = Bytes(t, rapid.OneOf(rapid.IntRange(65000, 70000), rapid.IntRange(65536, 65536), rapid.IntRange(100000, 300000)).Draw(t, "unbsize"), "unbpayload")
	}
}

// GenPES draws a bounded packet with a payload of up to max bytes.
func GenPES(t *rapid.T, max int) PESPacket {
	p := PESPacket{StreamID: GenPESID(t)}
	room := 0xffff
	if PESHasHeader(p.StreamID) {
		p.H = GenPESHeader(t)
		room -= 3 + p.H.DataLen()
	}
	n := 0
	switch rapid.IntRange(0, 9).Draw(t, "sizeclass") {
	case 0:
	case 1, 2, 3:
		n = rapid.IntRange(1, 12).Draw(t, "small")
	case 9:
		if max > 60000 {
			n = rapid.IntRange(60000, max).Draw(t, "huge")
			break
		}
		fallthrough
	default:
		n = rapid.IntRange(1, min(max, 3000)).Draw(t, "size")
	}
	if max >= 400 && chance(t, 1, "long") {
		// lengths near what 15 and 16 bits hold
		n = rapid.OneOf(rapid.IntRange(32740, 32800), rapid.IntRange(room-3, room), rapid.IntRange(60000, room), rapid.IntRange(8000, 40000)).Draw(t, "longsize")
	}
	n = min(n, room)
	if p.StreamID == 0xbe {
		p.Payload = Noise(255, n)
	} else {
		p.Payload = Bytes(t, n, "payload")
	}
	return p
}
