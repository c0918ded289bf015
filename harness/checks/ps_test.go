package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mux"
)

func matchPack(h *ps.PackHeader, m *mux.PSPackHeader, known func(what string) bool) error {
	if h == nil {
		return errors.New("pack header is nil")
	}
	var bad []string
	eq := func(name string, got, want any) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s: got %v, want %v", name, got, want))
		}
	}
	scr := uint64(h.SystemClockReferenceBase)
	if !(m.SCR >= 1<<32 && scr == m.SCR&(1<<32-1) && known(fmt.Sprintf("clock reference %d is reported as %d", m.SCR, scr))) {
		eq("clock reference base", scr, m.SCR)
	}
	eq("clock reference extension", h.SystemClockReferenceExtension, m.SCRExt)
	eq("mux rate", h.ProgramMuxRate, m.MuxRate)
	eq("has system header", h.SystemHeader != nil, m.System != nil)
	if s, w := h.SystemHeader, m.System; s != nil && w != nil {
		eq("header length", s.HeaderLength, uint32(6+3*len(w.Streams)))
		eq("rate bound", s.RateBound, w.RateBound)
		eq("audio bound", s.AudioBound, w.AudioBound)
		eq("fixed", s.Fixed, w.Fixed)
		eq("CSPS", s.CSPS, w.CSPS)
		eq("audio lock", s.SystemAudioLock, w.AudioLock)
		eq("video lock", s.SystemVideoLock, w.VideoLock)
		eq("video bound", s.VideoBound, w.VideoBound)
		eq("rate restriction", s.PacketRateRestriction, w.Restriction)
		eq("number of streams", len(s.Streams), len(w.Streams))
		for i := 0; i < len(s.Streams) && i < len(w.Streams); i++ {
			eq(fmt.Sprintf("stream %d id", i), s.Streams[i].StreamID, w.Streams[i].ID)
			eq(fmt.Sprintf("stream %d scale", i), s.Streams[i].P_STD_BufferBoundScale, w.Streams[i].Scale)
			eq(fmt.Sprintf("stream %d size", i), s.Streams[i].P_STD_BufferSizeBound, w.Streams[i].Size)
		}
	}
	if bad != nil {
		return fmt.Errorf("%v", bad)
	}
	return nil
}

// ---------------------------------------------------------------- S01

type s01Case struct {
	P       mux.PSPackHeader
	Flip    int
	Trailer []byte
	Chunks  []int
}

func TestS01(t *testing.T) {
	trailers := [][]byte{{0, 0, 1, 0xe0}, {0, 0, 1, 0xba}, {0, 0, 1, 0xb9}, {0, 0, 1, 0xbd, 9, 9}, {0, 0, 0, 0}, {0x7f, 1, 2, 3, 4, 5}}
	core.Run(t, core.Prop[s01Case]{
		ID:   "S01",
		Rule: "a random pack header with 0..7 stuffing bytes and optional system header with up to 80 streams, or one with a start code or marker bit inverted; non-trivial: stuffing or a system header or an inverted bit",
		Gen: func(t *rapid.T) s01Case {
			c := s01Case{P: mux.GenPackHeader(t, rapid.SampledFrom([]int{3, 3, 10, 80}).Draw(t, "maxstreams")), Trailer: rapid.SampledFrom(trailers).Draw(t, "trailer"), Chunks: mux.GenSizes(t, "chunk", false)}
			if mux.Chance(t, 35, "flip") {
				_, marks := c.P.Encode()
				c.Flip = rapid.OneOf(rapid.IntRange(1, len(marks)), rapid.IntRange(33, len(marks))).Draw(t, "which")
			}
			return c
		},
		Check: func(c s01Case, x *core.Ctx) error {
			raw, marks := c.P.Encode()
			data := append(raw[:len(raw):len(raw)], c.Trailer...)
			if c.Flip > 0 {
				m := marks[c.Flip-1]
				data[m/8] ^= 0x80 >> (m % 8)
				br := bitreader.NewReader(core.NewChunks(data, c.Chunks))
				h, err := ps.NewPackHeader(br)
				if err == nil {
					return fmt.Errorf("pack header with wrong bit %d accepted: %+v", m, h)
				}
				if err == io.EOF {
					return fmt.Errorf("pack header with wrong bit %d reported as end of stream", m)
				}
				want := ps.ErrMarkerNotFound
				if m < 32 {
					want = ps.ErrUnexpectedStartCode
				}
				if !errors.Is(err, want) && !(m < 32 && errors.Is(err, ps.ErrPackStartCodeNotFound)) {
					return fmt.Errorf("pack header with wrong bit %d: error %q, want %q", m, err, want)
				}
				if m < 32 {
					x.Class("wrong start code")
				} else {
					x.Class("wrong marker")
				}
				x.NonTrivial(data)
				return nil
			}
			br := bitreader.NewReader(core.NewChunks(data, c.Chunks))
			h, err := ps.NewPackHeader(br)
			if err != nil {
				return fmt.Errorf("well-formed pack header refused: %v", err)
			}
			if err := matchPack(h, &c.P, func(what string) bool { return x.Known("scr33", what) }); err != nil {
				return err
			}
			rest, err := io.ReadAll(br)
			if err != nil {
				return fmt.Errorf("reading on after the header: %v", err)
			}
			if err := sameBytes("what follows the header", rest, c.Trailer); err != nil {
				return err
			}
			if c.P.System != nil {
				x.Class("system header")
			}
			x.Class("stuffing %d", c.P.Stuffing)
			if c.P.System != nil || c.P.Stuffing > 0 {
				x.NonTrivial(data)
			}
			return nil
		},
		Once: func(x *core.Ctx) error {
			for _, v := range []uint64{1 << 32, 1<<33 - 1} {
				m := mux.PSPackHeader{SCR: v}
				raw, _ := m.Encode()
				h, err := ps.NewPackHeader(bitreader.NewReader(bytes.NewReader(append(raw, 0, 0, 1, 0xb9))))
				if err != nil {
					return err
				}
				if err := matchPack(h, &m, func(what string) bool { return x.Known("scr33", what) }); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- S02

type psCase struct {
	Packs  []mux.PSPack
	Tail   string // "end", "cut", "other", "none"
	Cut    int
	Other  []byte
	Mode   string // how the consumer takes packets
	Delays []int
	Sizes  []int
	Chunks []int
}

func genPS(t *rapid.T, maxPacks, maxPackets, maxPayload int) psCase {
	c := psCase{Packs: mux.GenPacks(t, maxPacks, maxPackets, maxPayload), Chunks: mux.GenSizes(t, "chunk", false)}
	c.Tail = rapid.SampledFrom([]string{"end", "end", "end", "cut", "cut", "other", "none"}).Draw(t, "tail")
	data, _ := mux.ProgramBytes(c.Packs)
	switch c.Tail {
	case "end":
		// what follows the end code does not belong to the program
		switch rapid.IntRange(0, 7).Draw(t, "after") {
		case 0:
			c.Other = mux.Bytes(t, rapid.IntRange(1, 40).Draw(t, "an"), "afterbytes")
		case 1:
			c.Other, _ = mux.ProgramBytes(mux.GenPacks(t, 2, 2, 40))
		case 2:
			pkt := mux.GenPES(t, 40)
			c.Other = pkt.Bytes()
		}
	case "cut":
		c.Cut = rapid.OneOf(rapid.IntRange(1, len(data)), rapid.IntRange(max(1, len(data)-30), len(data)), rapid.IntRange(len(data), len(data)+3)).Draw(t, "cut")
	case "other":
		c.Other = append([]byte{rapid.SampledFrom([]byte{0x47, 0x7f, 0, 0, 7}).Draw(t, "o0")}, mux.Bytes(t, rapid.IntRange(3, 12).Draw(t, "on"), "other")...)
		if c.Other[0] == 0 && c.Other[1] == 0 && c.Other[2] == 1 {
			c.Other[2] = 2
		}
	}
	return c
}

// data is the stream; whole says how many packs and packets of the last one
// are complete in it.
func (c *psCase) data() (data []byte, bounds map[int]bool) {
	data, bounds = mux.ProgramBytes(c.Packs)
	switch c.Tail {
	case "end":
		data = append(append(data, mux.ProgramEnd...), c.Other...)
	case "other":
		data = append(data, c.Other...)
	case "cut":
		data = append(data, mux.ProgramEnd...)[:c.Cut]
	}
	return
}

type gotPack struct {
	h       *ps.PackHeader
	packets []*pes.Packet
	snaps   []pes.Packet
	closed  bool
}

func snapPES(p *pes.Packet) pes.Packet {
	q := *p
	q.Payload = append([]byte(nil), p.Payload...)
	if p.Header != nil {
		h := *p.Header
		q.Header = &h
	}
	return q
}

func TestS02(t *testing.T) {
	core.Run(t, core.Prop[psCase]{
		ID:   "S02",
		Rule: "1..5 packs with 0..4 packets, properly ended, cut, unended or followed by something else; consumers that take packets in place, in goroutines of their own, or slowly (synctest bubble); non-trivial: at least two packs and two packets, or an improper end",
		Gen: func(t *rapid.T) psCase {
			c := genPS(t, 5, 4, 400)
			c.Mode = rapid.SampledFrom([]string{"inline", "inline", "goroutine", "done-late"}).Draw(t, "mode")
			c.Delays = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "delays")
			if mux.Chance(t, 15, "slow") {
				// seconds, minutes, hours
				c.Delays[0] = rapid.SampledFrom([]int{100, 1000, 11000, 61000, 3700000, 100000000}).Draw(t, "slowdelay")
			}
			return c
		},
		Check: func(c psCase, x *core.Ctx) error {
			data, bounds := c.data()
			var got []*gotPack
			var ok, more bool
			var derr error
			err := core.Bubble(x, func() error {
				d := ps.NewDecoder(bitreader.NewReader(core.NewChunks(data, c.Chunks)))
				var wg sync.WaitGroup
				k := 0
				delay := func() {
					if n := c.Delays[k%len(c.Delays)]; n > 0 {
						time.Sleep(time.Duration(n) * time.Millisecond)
					}
					k++
				}
				take := func(g *gotPack, ch pes.PacketChannel, wait bool) {
					for p := range ch {
						if wait {
							delay()
						}
						g.packets = append(g.packets, p)
						g.snaps = append(g.snaps, snapPES(p))
					}
					g.closed = true
				}
				done := d.Go()
				finished := make(chan struct{})
				collect := func() {
					ok, more = <-done
					if _, again := <-done; again {
						ok = false
						derr = errors.New("verif: done signalled twice")
					}
					close(finished)
				}
				if c.Mode != "done-late" {
					go collect()
				}
				for p := range d.Packs() {
					g := &gotPack{h: p.PackHeader}
					got = append(got, g)
					if c.Mode == "goroutine" {
						wg.Add(1)
						go func() { defer wg.Done(); take(g, p.Packets(), false) }()
						delay()
					} else {
						delay()
						take(g, p.Packets(), true)
					}
				}
				if c.Mode == "done-late" {
					delay()
					go collect()
				}
				wg.Wait()
				<-finished
				synctest.Wait()
				if derr != nil {
					return derr
				}
				derr = d.Err()
				return nil
			})
			if err != nil {
				return err
			}
			if !more {
				return errors.New("done was closed without a value")
			}
			// What is complete in the stream.
			off := 0
			gi := 0
			for i := range c.Packs {
				h, _ := c.Packs[i].H.Encode()
				off += len(h)
				if off+4 > len(data) {
					// A header needs the next start code to be complete.
					if len(got) > gi+1 {
						return fmt.Errorf("more packs delivered than there are in the stream")
					}
					gi = len(got)
					break
				}
				if gi >= len(got) {
					return fmt.Errorf("pack %d was not delivered (decoder error: %v)", i, derr)
				}
				g := got[gi]
				gi++
				if err := matchPack(g.h, &c.Packs[i].H, ignoreStamp); err != nil {
					return fmt.Errorf("pack %d: %v", i, err)
				}
				if !g.closed {
					return fmt.Errorf("pack %d: its packet channel was not closed", i)
				}
				n := 0
				for j := range c.Packs[i].Packets {
					off += len(c.Packs[i].Packets[j].Bytes())
					if off > len(data) {
						break
					}
					if j >= len(g.packets) {
						return fmt.Errorf("pack %d: packet %d was not delivered (decoder error: %v)", i, j, derr)
					}
					if err := matchPES(&g.snaps[j], &c.Packs[i].Packets[j], ignoreStamp); err != nil {
						return fmt.Errorf("pack %d packet %d: %v", i, j, err)
					}
					if err := matchPES(g.packets[j], &c.Packs[i].Packets[j], ignoreStamp); err != nil {
						return fmt.Errorf("pack %d packet %d changed after delivery: %v", i, j, err)
					}
					n++
				}
				if len(g.packets) != n {
					return fmt.Errorf("pack %d: %d packets delivered, want %d", i, len(g.packets), n)
				}
				if off >= len(data) {
					break
				}
			}
			if off < len(data) && len(got) != gi {
				return fmt.Errorf("%d packs delivered, want %d", len(got), gi)
			}
			if c.Tail == "end" {
				if !ok || derr != nil {
					return fmt.Errorf("properly ended program: success=%v error=%v", ok, derr)
				}
			} else {
				full := c.Tail == "cut" && len(data) >= 4 && bytes.Equal(data[len(data)-4:], mux.ProgramEnd) && !bounds[len(data)]
				if full {
					return nil
				}
				x.Class("improper end")
				x.NonTrivial(data)
				if ok || derr == nil {
					return fmt.Errorf("improperly ended program (%s): success=%v error=%v", c.Tail, ok, derr)
				}
				if c.Tail == "other" && !errors.Is(derr, ps.ErrProgramEndCodeNotFound) {
					return fmt.Errorf("program followed by % x: error %q, want %q", c.Other, derr, ps.ErrProgramEndCodeNotFound)
				}
				return nil
			}
			np := 0
			for i := range c.Packs {
				np += len(c.Packs[i].Packets)
				if len(c.Packs[i].Packets) == 0 {
					x.Class("empty pack")
				}
			}
			if len(c.Packs) > 1 && np > 1 {
				x.NonTrivial([]byte(fmt.Sprint(data, c.Mode, c.Delays)))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- S03

func TestS03(t *testing.T) {
	core.Run(t, core.Prop[psCase]{
		ID:   "S03",
		Rule: "1..6 packs with 0..4 packets through the pack reader with random buffer sizes and chunking, properly ended, cut, unended or followed by something else; non-trivial: at least two non-empty payloads, or an improper end",
		Gen: func(t *rapid.T) psCase {
			c := genPS(t, 6, 4, 3000)
			c.Sizes = mux.GenSizes(t, "read", true)
			return c
		},
		Check: func(c psCase, x *core.Ctx) error {
			data, bounds := c.data()
			var want []byte
			parts, off := 0, 0
			for i := range c.Packs {
				h, _ := c.Packs[i].H.Encode()
				off += len(h)
				for j := range c.Packs[i].Packets {
					p := &c.Packs[i].Packets[j]
					off += len(p.Bytes())
					if off <= len(data) {
						pl := wantPayload(p)
						want = append(want, pl...)
						if len(pl) > 0 {
							parts++
						}
					}
				}
				if len(c.Packs[i].Packets) == 0 {
					x.Class("empty pack")
				}
			}
			r := ps.NewPackReader(core.NewChunks(data, c.Chunks))
			out, err := core.Drain(r, c.Sizes, len(data)+1000, nil, nil)
			if err != nil {
				return err
			}
			if c.Tail == "end" {
				if err := sameBytes("payload", out.Data, want); err != nil {
					return err
				}
				if out.Err != io.EOF {
					return fmt.Errorf("final error %v, want EOF", out.Err)
				}
				for k := 0; k < 3; k++ {
					if n, err := r.Read(make([]byte, 5)); n != 0 || err != io.EOF {
						return fmt.Errorf("read after EOF: n=%d err=%v", n, err)
					}
				}
				if parts >= 2 {
					x.NonTrivial([]byte(fmt.Sprint(data, c.Sizes, c.Chunks)))
				}
				return nil
			}
			if len(out.Data) < len(want) {
				return sameBytes("payload before the end", out.Data, want)
			}
			if err := sameBytes("payload before the end", out.Data[:len(want)], want); err != nil {
				return err
			}
			x.Class("improper end: %s", c.Tail)
			x.NonTrivial(data)
			if c.Tail == "cut" {
				full, _ := mux.ProgramBytes(c.Packs)
				if !bounds[len(data)] && len(data) < len(full) && out.Err == io.EOF {
					return fmt.Errorf("stream cut inside a pack header or packet ends with plain EOF")
				}
			}
			if c.Tail == "other" && out.Err == io.EOF {
				return fmt.Errorf("corrupt stream ends with plain EOF")
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- S04

type s04Case struct {
	Data   []byte
	Via    string
	Err    string
	Sizes  []int
	Chunks []int
}

func genPSBytes(t *rapid.T) []byte {
	if mux.Chance(t, 10, "noise") {
		data := mux.Bytes(t, rapid.IntRange(0, 400).Draw(t, "len"), "bytes")
		if mux.Chance(t, 70, "prefix") {
			data = append([]byte{0, 0, 1, 0xba}, data...)
		}
		return data
	}
	packs := mux.GenPacks(t, 3, 3, 200)
	data, _ := mux.ProgramBytes(packs)
	if mux.Chance(t, 70, "ended") {
		data = append(data, mux.ProgramEnd...)
	}
	n := rapid.IntRange(0, 2).Draw(t, "aim")
	for i := 0; i < n; i++ {
		// aim at start codes
		var at []int
		for o := 0; o+8 < len(data); o++ {
			if data[o] == 0 && data[o+1] == 0 && data[o+2] == 1 {
				at = append(at, o+3)
			}
		}
		if len(at) == 0 {
			break
		}
		o := at[rapid.IntRange(0, len(at)-1).Draw(t, "at")]
		switch rapid.IntRange(0, 2).Draw(t, "what") {
		case 0:
			data[o] = rapid.SampledFrom([]byte{0xba, 0xb9, 0xbb, 0xbc, 0xbe, 0xe0, 0, 0xb3}).Draw(t, "code")
		case 1:
			data[o+1] = rapid.Byte().Draw(t, "hi")
			data[o+2] = rapid.Byte().Draw(t, "lo")
		case 2:
			data[o+1+rapid.IntRange(0, 4).Draw(t, "k")] = 0xff
		}
	}
	return mutate(t, data)
}

var (
	s04Vias = []string{"header", "reader", "reader", "decoder", "decoder"}
	s04Errs = []string{"", "", "", "source", "unexpected"}
)

func TestS04(t *testing.T) {
	core.Run(t, core.Prop[s04Case]{
		ID: "S04",
		FromBytes: func(data []byte) (c s04Case) {
			c.Via, c.Err, c.Chunks, c.Data = fuzzHead(data, s04Vias, s04Errs)
			c.Sizes = c.Chunks
			return
		},
		Bytes: func(c s04Case) []byte { return fuzzBytes(c.Data, c.Via, c.Err, s04Vias, s04Errs) },
		Rule:  "random, mutated, spliced and truncated program streams (start codes and lengths aimed at) through the pack header parser, the pack reader or the decoder, with failing sources; non-trivial: ends with an error other than plain end of file, or a mutated stream of more than 40 bytes",
		Gen: func(t *rapid.T) s04Case {
			return s04Case{
				Data:   genPSBytes(t),
				Via:    rapid.SampledFrom(s04Vias).Draw(t, "via"),
				Err:    rapid.SampledFrom(s04Errs).Draw(t, "err"),
				Sizes:  mux.GenSizes(t, "read", false),
				Chunks: mux.GenSizes(t, "chunk", false),
			}
		},
		Check: func(c s04Case, x *core.Ctx) error {
			src := core.NewChunks(c.Data, c.Chunks)
			src.Err = srcErr(c.Err)
			before := core.AllocBytes()
			var final error
			budget := 60*len(c.Data) + 20000
			switch c.Via {
			case "header":
				br := &core.CountingBits{BitReader: bitreader.NewReader(src), Budget: budget}
				for n := 0; final == nil; n++ {
					_, final = ps.NewPackHeader(br)
					if n > len(c.Data) {
						return fmt.Errorf("%d pack headers from %d bytes", n, len(c.Data))
					}
				}
			case "reader":
				out, err := core.Drain(ps.NewPackReader(src), c.Sizes, len(c.Data)+1000, nil, nil)
				if err != nil {
					return err
				}
				final = out.Err
			case "decoder":
				n := 0
				err := core.Bubble(x, func() error {
					// The budget's panic would be in another goroutine: count only.
					br := &core.CountingBits{BitReader: bitreader.NewReader(src)}
					d := ps.NewDecoder(br)
					done := d.Go()
					res := make(chan bool, 1)
					go func() { v, open := <-done; res <- v && open }()
					for p := range d.Packs() {
						n++
						for range p.Packets() {
							n++
						}
					}
					if v := <-res; v != (d.Err() == nil) {
						return fmt.Errorf("done=%v but Err()=%v", v, d.Err())
					}
					final = d.Err()
					if br.Ops > budget {
						return fmt.Errorf("%d bit reader operations for %d bytes", br.Ops, len(c.Data))
					}
					return nil
				})
				if err != nil {
					return err
				}
				if n > len(c.Data) {
					return fmt.Errorf("%d packs and packets from %d bytes", n, len(c.Data))
				}
			}
			if used := core.AllocBytes() - before; used > 8<<20+256*uint64(len(c.Data)) {
				return fmt.Errorf("allocated %d bytes for %d bytes of input", used, len(c.Data))
			}
			x.Class("%s", c.Via)
			x.Class("end: %v", final)
			if final != nil && final != io.EOF || len(c.Data) > 40 {
				x.NonTrivial([]byte(c.Via + c.Err + string(c.Data)))
			}
			return nil
		},
	})
}
