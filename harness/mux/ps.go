package mux

import "pgregory.net/rapid"

// PSStream is an entry of a system header.
type PSStream struct {
	ID    uint32
	Scale bool
	Size  uint32
}

// PSSystem is a system header.
type PSSystem struct {
	RateBound, AudioBound, VideoBound uint32
	Fixed, CSPS, AudioLock, VideoLock bool
	Restriction                       bool
	Reserved                          uint32 // 7 bits
	Streams                           []PSStream
}

// PSPackHeader is a pack header.
type PSPackHeader struct {
	SCR      uint64
	SCRExt   uint32
	MuxRate  uint32
	Reserved uint32 // 5 bits
	Stuffing int    // 0..7
	System   *PSSystem
}

// PSPack is a pack.
type PSPack struct {
	H       PSPackHeader
	Packets []PESPacket
}

// Encode writes the header; marks are the bit offsets of the start code and
// marker bits.
func (p *PSPackHeader) Encode() (out []byte, marks []uint) {
	var b Bits
	one := func() {
		marks = append(marks, b.Len())
		b.Put(1, 1)
	}
	for i := uint(0); i < 32; i++ {
		marks = append(marks, i)
	}
	b.Put(0x1ba, 32)
	marks = append(marks, 32, 33)
	b.Put(1, 2)
	b.Put(p.SCR>>30, 3)
	one()
	b.Put(p.SCR>>15&0x7fff, 15)
	one()
	b.Put(p.SCR&0x7fff, 15)
	one()
	b.Put(uint64(p.SCRExt), 9)
	one()
	b.Put(uint64(p.MuxRate), 22)
	one()
	one()
	b.Put(uint64(p.Reserved), 5)
	b.Put(uint64(p.Stuffing), 3)
	for i := 0; i < p.Stuffing; i++ {
		b.Put(0xff, 8)
	}
	if s := p.System; s != nil {
		b.Put(0x1bb, 32)
		b.Put(uint64(6+3*len(s.Streams)), 16)
		one()
		b.Put(uint64(s.RateBound), 22)
		one()
		b.Put(uint64(s.AudioBound), 6)
		b.Flag(s.Fixed)
		b.Flag(s.CSPS)
		b.Flag(s.AudioLock)
		b.Flag(s.VideoLock)
		one()
		b.Put(uint64(s.VideoBound), 5)
		b.Flag(s.Restriction)
		b.Put(uint64(s.Reserved), 7)
		for _, st := range s.Streams {
			b.Put(uint64(st.ID), 8)
			one()
			one()
			b.Flag(st.Scale)
			b.Put(uint64(st.Size), 13)
		}
	}
	return b.Buf, marks
}

// Bytes writes the pack.
func (p *PSPack) Bytes() []byte {
	out, _ := p.H.Encode()
	for i := range p.Packets {
		out = append(out, p.Packets[i].Bytes()...)
	}
	return out
}

// ProgramEnd is the program end code.
var ProgramEnd = []byte{0, 0, 1, 0xb9}

// GenPackHeader draws a pack header.
func GenPackHeader(t *rapid.T, maxStreams int) PSPackHeader {
	p := PSPackHeader{
		SCR:      b33(t, "scr"),
		SCRExt:   uint32(rapid.IntRange(0, 511).Draw(t, "scrext")),
		MuxRate:  rapid.Uint32Range(0, 1<<22-1).Draw(t, "muxrate"),
		Reserved: uint32(rapid.IntRange(0, 31).Draw(t, "packres")),
		Stuffing: rapid.IntRange(0, 7).Draw(t, "packstuff"),
	}
	if chance(t, 40, "system") {
		s := &PSSystem{
			RateBound:   rapid.Uint32Range(0, 1<<22-1).Draw(t, "ratebound"),
			AudioBound:  rapid.Uint32Range(0, 63).Draw(t, "audiobound"),
			VideoBound:  rapid.Uint32Range(0, 31).Draw(t, "videobound"),
			Fixed:       rapid.Bool().Draw(t, "fixed"),
			CSPS:        rapid.Bool().Draw(t, "csps"),
			AudioLock:   rapid.Bool().Draw(t, "alock"),
			VideoLock:   rapid.Bool().Draw(t, "vlock"),
			Restriction: rapid.Bool().Draw(t, "restr"),
			Reserved:    uint32(rapid.IntRange(0, 127).Draw(t, "sysres")),
		}
		n := rapid.IntRange(0, maxStreams).Draw(t, "nstreams")
		for i := 0; i < n; i++ {
			s.Streams = append(s.Streams, PSStream{rapid.Uint32Range(0x80, 0xff).Draw(t, "sid"), rapid.Bool().Draw(t, "sscale"), rapid.Uint32Range(0, 0x1fff).Draw(t, "ssize")})
		}
		p.System = s
	}
	return p
}

// GenPacks draws a program.
func GenPacks(t *rapid.T, maxPacks, maxPackets, maxPayload int) []PSPack {
	n := rapid.IntRange(1, maxPacks).Draw(t, "npacks")
	if maxPacks >= 5 && chance(t, 2, "manypacks") {
		n, maxPackets, maxPayload = rapid.IntRange(30, 150).Draw(t, "many"), 1, 30
	} else if maxPacks >= 5 && chance(t, 2, "manypackets") {
		n, maxPackets, maxPayload = rapid.IntRange(1, 2).Draw(t, "npacks2"), 150, 30
	}
	var out []PSPack
	for i := 0; i < n; i++ {
		p := PSPack{H: GenPackHeader(t, 4)}
		k := rapid.IntRange(0, maxPackets).Draw(t, "npackets")
		for j := 0; j < k; j++ {
			p.Packets = append(p.Packets, GenPES(t, maxPayload))
		}
		out = append(out, p)
	}
	return out
}

// ProgramBytes writes packs without the end code; bounds are the offsets of
// pack and packet starts (and the end).
func ProgramBytes(packs []PSPack) (out []byte, bounds map[int]bool) {
	bounds = map[int]bool{}
	for i := range packs {
		bounds[len(out)] = true
		h, _ := packs[i].H.Encode()
		out = append(out, h...)
		for j := range packs[i].Packets {
			bounds[len(out)] = true
			out = append(out, packs[i].Packets[j].Bytes()...)
		}
	}
	bounds[len(out)] = true
	return out, bounds
}
