package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mux"
)

// wantPayload is the payload a reader of the packet sees.
func wantPayload(m *mux.PESPacket) []byte {
	if m.StreamID == 0xbe {
		return nil
	}
	return m.Payload
}

// matchPES compares a parsed packet with the one that was written. known is
// called for time stamps of which only the lower 32 bits are reported.
func matchPES(p *pes.Packet, m *mux.PESPacket, known func(what string) bool) error {
	if p == nil {
		return fmt.Errorf("packet is nil")
	}
	var bad []string
	eq := func(name string, got, want any) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s: got %v, want %v", name, got, want))
		}
	}
	stamp := func(name string, got uint64, want uint64) {
		if got == want {
			return
		}
		if want >= 1<<32 && got == want&(1<<32-1) && known(fmt.Sprintf("%s %d is reported as %d", name, want, got)) {
			return
		}
		eq(name, got, want)
	}
	eq("stream id", p.StreamID, m.StreamID)
	n := 0
	if !m.Unbounded {
		n = len(m.Bytes()) - 6
	}
	eq("packet length", p.PacketLength, uint32(n))
	eq("has header", p.Header != nil, mux.PESHasHeader(m.StreamID))
	if h, w := p.Header, m.H; h != nil && w != nil {
		eq("scrambling", h.ScramblingControl, w.Scrambling)
		eq("priority", h.Priority, w.Priority)
		eq("alignment", h.DataAlignmentIndicator, w.Aligned)
		eq("copyright", h.Copyright, w.Copyright)
		eq("original", h.OrignalOrCopy, w.Orig)
		eq("PTS/DTS flags", h.PtsDtsFlags, w.PTSFlags)
		eq("ESCR flag", h.EscrFlag, w.ESCR != nil)
		eq("ES rate flag", h.EsRateFlag, w.ESRate != nil)
		eq("trick mode flag", h.DsmTrickModeFlag, w.Trick != nil)
		eq("copy info flag", h.AdditionalCopyInfoFlag, w.CopyInfo != nil)
		eq("CRC flag", h.CrcFlag, w.CRC != nil)
		eq("extension flag", h.ExtensionFlag, w.Ext != nil)
		eq("header data length", h.HeaderDataLength, uint32(w.DataLen()))
		stamp("PTS", uint64(h.PresentationTimeStamp), w.PTS)
		stamp("DTS", uint64(h.DecodingTimeStamp), w.DTS)
		eq("has extension", h.Extension != nil, w.Ext != nil)
		if e, x := h.Extension, w.Ext; e != nil && x != nil {
			eq("private data flag", e.PrivateDataFlag, x.Private != nil)
			eq("pack header flag", e.PackHeaderFieldFlag, x.HasPack)
			eq("sequence counter flag", e.ProgramPacketSequenceCounterFlag, x.Sequence != nil)
			eq("P-STD flag", e.P_STD_BufferFlag, x.STD != nil)
			eq("extension flag 2", e.ExtensionFlag2, x.HasExt2)
			if x.Private != nil && !bytes.Equal(e.PrivateData, x.Private[:16]) || x.Private == nil && len(e.PrivateData) != 0 {
				bad = append(bad, fmt.Sprintf("private data: got %x, want %x", e.PrivateData, x.Private))
			}
			eq("has P-STD buffer", e.P_STD_Buffer != nil, x.STD != nil)
			if e.P_STD_Buffer != nil && x.STD != nil {
				eq("P-STD scale", e.P_STD_Buffer.Scale, x.STD.Scale)
				eq("P-STD size", e.P_STD_Buffer.Size, x.STD.Size)
			}
		}
	}
	if want := wantPayload(m); !bytes.Equal(p.Payload, want) {
		bad = append(bad, sameBytes("payload", p.Payload, want).Error())
	}
	if bad != nil {
		return fmt.Errorf("%v", bad)
	}
	return nil
}

func ignoreStamp(string) bool { return true }

func classPES(x *core.Ctx, m *mux.PESPacket) (options int) {
	if m.H == nil {
		if m.StreamID == 0xbe {
			x.Class("padding")
		} else {
			x.Class("no header")
		}
		return 0
	}
	h := m.H
	f := func(name string, has bool) {
		if has {
			x.Class("%s", name)
			options++
		}
	}
	f("pts", h.PTSFlags == 2)
	f("pts+dts", h.PTSFlags == 3)
	f("escr", h.ESCR != nil)
	f("esrate", h.ESRate != nil)
	f("trick", h.Trick != nil)
	f("copyinfo", h.CopyInfo != nil)
	f("crc", h.CRC != nil)
	f("stuffing", h.Stuffing > 0)
	if e := h.Ext; e != nil {
		f("ext", true)
		f("ext private", e.Private != nil)
		f("ext pack", e.HasPack)
		f("ext sequence", e.Sequence != nil)
		f("ext std", e.STD != nil)
		f("ext2", e.HasExt2)
	}
	return
}

// ---------------------------------------------------------------- P01

type p01Case struct {
	P       mux.PESPacket
	Flip    int // which fixed bit to invert; 0: none
	Trailer []byte
	Chunks  []int
}

func TestP01(t *testing.T) {
	core.Run(t, core.Prop[p01Case]{
		ID:   "P01",
		Rule: "a random well-formed PES packet (all stream id classes, all optional fields) followed by other bytes, or of unbounded length, or with one fixed bit inverted; non-trivial: a header with at least two optional fields, or no header, or an inverted bit",
		Gen: func(t *rapid.T) p01Case {
			c := p01Case{P: mux.GenPES(t, 0xffff), Chunks: mux.GenSizes(t, "chunk", false)}
			if c.P.H != nil && mux.Chance(t, 15, "unbounded") {
				c.P.Unbounded = true
				c.P.Lengthen(t)
			} else {
				c.Trailer = mux.Bytes(t, rapid.IntRange(0, 12).Draw(t, "tl"), "trailer")
			}
			if mux.Chance(t, 25, "flip") {
				_, marks := c.P.Encode()
				c.Flip = rapid.OneOf(rapid.IntRange(1, len(marks)), rapid.IntRange(min(25, len(marks)), min(len(marks), 45))).Draw(t, "which")
			}
			return c
		},
		Check: func(c p01Case, x *core.Ctx) error {
			raw, marks := c.P.Encode()
			data := append(raw[:len(raw):len(raw)], c.Trailer...)
			if c.Flip > 0 {
				m := marks[c.Flip-1]
				data[m/8] ^= 0x80 >> (m % 8)
				br := bitreader.NewReader(core.NewChunks(data, c.Chunks))
				if p, err := pes.NewPacket(br); err == nil {
					return fmt.Errorf("packet with wrong bit %d accepted: %+v", m, p)
				} else if err == io.EOF {
					return fmt.Errorf("packet with wrong bit %d reported as end of stream", m)
				} else {
					// the package has an error of its own for each of the three
					want := pes.ErrMarkerNotFound
					if m < 24 {
						want = pes.ErrStartCodePrefixNotFound
					} else if end := uint(6+3+c.P.H.DataLen()) * 8; m >= end-uint(c.P.H.Stuffing)*8 {
						want = pes.ErrInvalidStuffingByte
					}
					if !errors.Is(err, want) {
						return fmt.Errorf("packet with wrong bit %d: error %q, want %q", m, err, want)
					}
				}
				x.Class("wrong bit")
				x.NonTrivial(data)
				return nil
			}
			br := bitreader.NewReader(core.NewChunks(data, c.Chunks))
			p, err := pes.NewPacket(br)
			if err != nil {
				return fmt.Errorf("well-formed packet refused: %v", err)
			}
			if err := matchPES(p, &c.P, func(what string) bool { return x.Known("stamp33", what) }); err != nil {
				return err
			}
			rest, err := io.ReadAll(br)
			if err != nil {
				return fmt.Errorf("reading on after the packet: %v", err)
			}
			if err := sameBytes("what follows the packet", rest, c.Trailer); err != nil {
				return err
			}
			if c.P.Unbounded {
				x.Class("unbounded")
			}
			if classPES(x, &c.P) >= 2 || c.P.H == nil {
				x.NonTrivial(data)
			}
			return nil
		},
		Once: func(x *core.Ctx) error {
			// The finding that stands: shown on a fixed input each run.
			for _, v := range []uint64{1 << 32, 1<<33 - 1, 1<<32 + 90000} {
				m := mux.PESPacket{StreamID: 0xe0, H: &mux.PESHeader{PTSFlags: 3, PTS: v, DTS: v ^ 1}, Payload: []byte{1, 2}}
				p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(m.Bytes())))
				if err != nil {
					return err
				}
				if err := matchPES(p, &m, func(what string) bool { return x.Known("stamp33", what) }); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- P02

type p02Case struct {
	Ps     []mux.PESPacket
	Fresh  bool
	Cut    int // offset at which the stream ends; -1: its end
	Chunks []int
}

func TestP02(t *testing.T) {
	core.Run(t, core.Prop[p02Case]{
		ID:   "P02",
		Rule: "1..8 packets over all stream id classes, read into one packet value or fresh ones, cut at a random offset or not; non-trivial: at least two classes of packet, or a cut inside a packet",
		Gen: func(t *rapid.T) p02Case {
			c := p02Case{Fresh: rapid.Bool().Draw(t, "fresh"), Cut: -1, Chunks: mux.GenSizes(t, "chunk", false)}
			n := rapid.IntRange(1, 8).Draw(t, "n")
			total := 0
			for i := 0; i < n; i++ {
				c.Ps = append(c.Ps, mux.GenPES(t, 2000))
				total += len(c.Ps[i].Bytes())
			}
			if mux.Chance(t, 40, "cutit") {
				last := len(c.Ps[n-1].Bytes())
				c.Cut = rapid.OneOf(rapid.IntRange(0, total), rapid.IntRange(max(0, total-last), min(total, total-last+40)), rapid.IntRange(max(0, total-8), total)).Draw(t, "cut")
			} else if c.Ps[n-1].H != nil && mux.Chance(t, 20, "unbounded") {
				c.Ps[n-1].Unbounded = true
				c.Ps[n-1].Lengthen(t)
			}
			return c
		},
		Check: func(c p02Case, x *core.Ctx) error {
			var data []byte
			var ends []int
			classes := map[int]bool{}
			for i := range c.Ps {
				data = append(data, c.Ps[i].Bytes()...)
				ends = append(ends, len(data))
				switch {
				case c.Ps[i].H != nil:
					classes[0] = true
				case c.Ps[i].StreamID == 0xbe:
					classes[1] = true
				default:
					classes[2] = true
				}
			}
			if c.Cut >= 0 {
				data = data[:c.Cut]
			}
			br := bitreader.NewReader(core.NewChunks(data, c.Chunks))
			p := new(pes.Packet)
			whole, clean := 0, len(data) == 0
			for _, e := range ends {
				if e <= len(data) {
					whole++
				}
				if e == len(data) {
					clean = true
				}
			}
			var kept []*pes.Packet
			for i := 0; i < whole; i++ {
				var err error
				if c.Fresh {
					p, err = pes.NewPacket(br)
					kept = append(kept, p)
				} else {
					err = p.Next(br)
				}
				if err != nil {
					return fmt.Errorf("packet %d: %v", i, err)
				}
				if err := matchPES(p, &c.Ps[i], ignoreStamp); err != nil {
					return fmt.Errorf("packet %d: %v", i, err)
				}
			}
			var err error
			if c.Fresh {
				p, err = pes.NewPacket(br)
			} else {
				err = p.Next(br)
			}
			for i, k := range kept {
				if err := matchPES(k, &c.Ps[i], ignoreStamp); err != nil {
					return fmt.Errorf("packet %d after the later packets were read: %v", i, err)
				}
			}
			switch {
			case err == nil:
				return fmt.Errorf("a packet was returned at the end of the stream (%d bytes, packets end at %v): %+v", len(data), ends, p)
			case clean && err != io.EOF:
				return fmt.Errorf("at the end on a packet boundary: error %v, want EOF", err)
			case !clean && err == io.EOF:
				return fmt.Errorf("stream of %d bytes cut inside a packet (packets end at %v): plain EOF", len(data), ends)
			}
			if !clean {
				x.Class("cut inside")
			}
			if len(classes) > 1 {
				x.Class("mixed classes")
			}
			if len(classes) > 1 || !clean {
				x.NonTrivial(append(data, byte(len(c.Chunks))))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- P03

type p03Case struct {
	Ps     []mux.PESPacket
	TS     bool  // carried in a transport stream
	Layout []int // TS: adaptation stuffing per packet (cycled)
	Other  []int // TS: foreign packets before each packet (cycled)
	Cut    int   // offset at which the bare stream ends; -1: its end
	Lost   int   // TS: the unit (from 1) that lacks its end; 0: none
	Left   int   // TS: what is left of it (bytes, modulo its length)
	Sizes  []int
	Chunks []int
}

func TestP03(t *testing.T) {
	core.Run(t, core.Prop[p03Case]{
		ID:   "P03",
		Rule: "1..8 packets read through the payload reader, bare (optionally cut) or carried in a transport stream with unit starts, unbounded packets, stuffing and foreign packets; random buffer sizes and chunking; non-trivial: at least two non-empty payloads, or a cut inside a packet",
		Gen: func(t *rapid.T) p03Case {
			c := p03Case{Cut: -1, TS: mux.Chance(t, 45, "ts"), Sizes: mux.GenSizes(t, "read", true), Chunks: mux.GenSizes(t, "chunk", false)}
			n := rapid.IntRange(1, 8).Draw(t, "n")
			payload := 1500
			if mux.Chance(t, 4, "many") {
				// many units in one read
				n, payload = rapid.SampledFrom([]int{9, 17, 40, 110, 150}).Draw(t, "many"), 60
				c.Sizes = []int{rapid.SampledFrom([]int{4096, 20000, 100000}).Draw(t, "bigread")}
			}
			total := 0
			for i := 0; i < n; i++ {
				p := mux.GenPES(t, payload)
				if c.TS && p.H != nil && mux.Chance(t, 50, "unbounded") {
					p.Unbounded = true
					p.Lengthen(t)
				}
				c.Ps = append(c.Ps, p)
				total += len(p.Bytes())
			}
			if c.TS {
				c.Layout = rapid.SliceOfN(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 182), rapid.IntRange(0, 3)), 1, 4).Draw(t, "layout")
				c.Other = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 3).Draw(t, "other")
				if mux.Chance(t, 25, "lost") {
					c.Lost = rapid.IntRange(1, n).Draw(t, "lostunit")
					c.Left = rapid.OneOf(rapid.IntRange(0, 2000), rapid.IntRange(0, 30)).Draw(t, "left")
				}
			} else if mux.Chance(t, 30, "cutit") {
				c.Cut = rapid.OneOf(rapid.IntRange(0, total), rapid.IntRange(max(0, total-40), total)).Draw(t, "cut")
			} else if c.Ps[n-1].H != nil && mux.Chance(t, 20, "lastunbounded") {
				c.Ps[n-1].Unbounded = true
				c.Ps[n-1].Lengthen(t)
			}
			return c
		},
		Check: func(c p03Case, x *core.Ctx) error {
			var want, data []byte
			var ends []int
			var units [][]byte
			parts := 0
			for i := range c.Ps {
				raw := c.Ps[i].Bytes()
				units = append(units, raw)
				data = append(data, raw...)
				ends = append(ends, len(data))
			}
			whole := 0
			end := len(data)
			if c.Cut >= 0 {
				end = c.Cut
			}
			clean := end == 0
			for i, e := range ends {
				if e <= end {
					whole++
					pl := wantPayload(&c.Ps[i])
					want = append(want, pl...)
					if len(pl) > 0 {
						parts++
					}
				}
				if e == end {
					clean = true
				}
			}
			if c.Lost > 0 {
				// the unit ends inside of its packet
				u := units[c.Lost-1]
				left := 1 + c.Left%(len(u)-1)
				if c.Ps[c.Lost-1].Unbounded {
					left = min(left, 8) // else it is just a shorter one
				}
				units[c.Lost-1] = u[:left]
				clean, want = false, nil
				for i := range c.Ps[:c.Lost-1] {
					want = append(want, wantPayload(&c.Ps[i])...)
				}
				x.Class("unit without its end")
			}
			data = data[:end]
			var src io.Reader
			var tsBytes []byte
			if c.TS {
				tsBytes = mux.Transport(units, 0x21, c.Layout, c.Other)
				src = ts.NewPayloadUnitReader(core.NewChunks(tsBytes, c.Chunks), ts.IsPID(0x21))
				x.Class("in transport stream")
			} else {
				src = core.NewChunks(data, c.Chunks)
			}
			out, err := core.Drain(pes.NewPayloadReader(src), c.Sizes, len(data)+1000, nil, nil)
			if err != nil {
				return err
			}
			if !clean {
				// A partial packet may deliver a part of its payload.
				x.Class("cut inside")
				if out.Err == io.EOF {
					return fmt.Errorf("stream of %d bytes cut inside a packet (packets end at %v): plain EOF", len(data), ends)
				}
				if out.Err == ts.EOP {
					return fmt.Errorf("unit %d ends inside a packet: reported as the end of the unit", c.Lost)
				}
				if len(out.Data) < len(want) {
					return sameBytes("payload before the cut", out.Data, want)
				}
				if err := sameBytes("payload before the cut", out.Data[:len(want)], want); err != nil {
					return err
				}
				x.NonTrivial(data)
				return nil
			}
			if err := sameBytes("payload", out.Data, want); err != nil {
				return err
			}
			if out.Err != io.EOF {
				return fmt.Errorf("final error %v, want EOF", out.Err)
			}
			if parts >= 2 {
				x.NonTrivial([]byte(fmt.Sprint(data, c.Sizes, c.Chunks, c.Layout, c.Other)))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- P04

type p04Case struct {
	Data   []byte
	Via    string
	Err    string
	Sizes  []int
	Chunks []int
}

func genPESBytes(t *rapid.T) []byte {
	if mux.Chance(t, 15, "noise") {
		data := mux.Bytes(t, rapid.IntRange(0, 600).Draw(t, "len"), "bytes")
		if mux.Chance(t, 60, "prefix") {
			data = append([]byte{0, 0, 1, byte(0xbc + rapid.IntRange(0, 0x43).Draw(t, "id"))}, data...)
		}
		return data
	}
	var data []byte
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		p := mux.GenPES(t, 300)
		raw := p.Bytes()
		// aim at the lengths and flags
		switch rapid.IntRange(0, 6).Draw(t, "aim") {
		case 1:
			raw[4] = rapid.SampledFrom([]byte{0, 0, 0, 1, 0xff}).Draw(t, "lenhi")
			raw[5] = rapid.Byte().Draw(t, "lenlo")
		case 2:
			if p.H != nil {
				raw[8] = rapid.Byte().Draw(t, "hlen")
			}
		case 3:
			if p.H != nil {
				raw[7] = rapid.Byte().Draw(t, "hflags")
			}
		case 4:
			if p.H != nil && len(raw) > 10 {
				o := rapid.IntRange(9, min(len(raw)-1, 60)).Draw(t, "hoff")
				raw[o] = rapid.Byte().Draw(t, "hval")
			}
		}
		data = append(data, raw...)
	}
	return mutate(t, data)
}

var (
	p04Vias = []string{"fresh", "reused", "payload"}
	p04Errs = []string{"", "", "", "source", "unexpected"}
)

func TestP04(t *testing.T) {
	core.Run(t, core.Prop[p04Case]{
		ID: "P04",
		FromBytes: func(data []byte) (c p04Case) {
			c.Via, c.Err, c.Chunks, c.Data = fuzzHead(data, p04Vias, p04Errs)
			c.Sizes = c.Chunks
			return
		},
		Bytes: func(c p04Case) []byte { return fuzzBytes(c.Data, c.Via, c.Err, p04Vias, p04Errs) },
		Rule:  "random, mutated, spliced and truncated PES streams (lengths and flags aimed at) through the packet parser or the payload reader, with failing sources; non-trivial: ends otherwise than with plain end of file",
		Gen: func(t *rapid.T) p04Case {
			return p04Case{
				Data:   genPESBytes(t),
				Via:    rapid.SampledFrom(p04Vias).Draw(t, "via"),
				Err:    rapid.SampledFrom(p04Errs).Draw(t, "err"),
				Sizes:  mux.GenSizes(t, "read", false),
				Chunks: mux.GenSizes(t, "chunk", false),
			}
		},
		Check: func(c p04Case, x *core.Ctx) error {
			src := core.NewChunks(c.Data, c.Chunks)
			src.Err = srcErr(c.Err)
			before := core.AllocBytes()
			var final error
			if c.Via == "payload" {
				out, err := core.Drain(pes.NewPayloadReader(src), c.Sizes, len(c.Data)+1000, nil, nil)
				if err != nil {
					return err
				}
				final = out.Err
			} else {
				br := &core.CountingBits{BitReader: bitreader.NewReader(src), Budget: 60*len(c.Data) + 20000}
				p := new(pes.Packet)
				total := 0
				for n := 0; final == nil; n++ {
					if c.Via == "fresh" {
						p, final = pes.NewPacket(br)
					} else {
						final = p.Next(br)
					}
					if final == nil {
						total += len(p.Payload)
						if total > len(c.Data) {
							return fmt.Errorf("payloads of %d bytes from %d bytes", total, len(c.Data))
						}
						if n > len(c.Data)/6+2 {
							return fmt.Errorf("%d packets from %d bytes", n, len(c.Data))
						}
					}
				}
			}
			if used := core.AllocBytes() - before; used > 8<<20+256*uint64(len(c.Data)) {
				return fmt.Errorf("allocated %d bytes for %d bytes of input", used, len(c.Data))
			}
			x.Class("%s", c.Via)
			x.Class("end: %v", final)
			if final != io.EOF {
				x.NonTrivial([]byte(c.Via + c.Err + string(c.Data)))
			}
			return nil
		},
	})
}
