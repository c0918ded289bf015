// Package mux writes transport, packetized elementary and program streams
// from explicit syntax elements (written from ISO/IEC 13818-1, independently
// of the code under test) and generates such elements.
package mux

// Bits is a big-endian bit writer.
type Bits struct {
	Buf  []byte
	nbit uint
}

func (b *Bits) Put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		if b.nbit%8 == 0 {
			b.Buf = append(b.Buf, 0)
		}
		if v>>uint(i)&1 == 1 {
			b.Buf[len(b.Buf)-1] |= 0x80 >> (b.nbit % 8)
		}
		b.nbit++
	}
}

func (b *Bits) Flag(f bool) {
	if f {
		b.Put(1, 1)
	} else {
		b.Put(0, 1)
	}
}

func (b *Bits) Bytes(p []byte) {
	if b.nbit%8 == 0 {
		b.Buf = append(b.Buf, p...)
		b.nbit += uint(len(p)) * 8
		return
	}
	for _, c := range p {
		b.Put(uint64(c), 8)
	}
}

// Align pads with zero bits to a byte boundary.
func (b *Bits) Align() {
	for b.nbit%8 != 0 {
		b.Put(0, 1)
	}
}

func (b *Bits) Len() uint { return b.nbit }
