package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mpv"
	"verifharness/mux"
)

// E04: several video streams in one transport or program stream.

type multiCase struct {
	Program bool
	Via     string // transport streams: channels of one demuxer, or one reader for each
	E       []e2eCase
	Second  []*mpv.Stream // another sequence behind (nil: none)
	Order   []int         // whose packet comes next
	Other   []int         // foreign packets (cycled)
	Packs   []mux.PSPackHeader
	PerPack []int
	End     bool
	Sizes   []int
}

func genMulti(t *rapid.T) multiCase {
	c := multiCase{Program: rapid.Bool().Draw(t, "program"), Sizes: mux.GenSizes(t, "chunks", false)}
	n := rapid.IntRange(2, 3).Draw(t, "streams")
	pids := []uint32{0x21, 0x121, 0x1021, 0x20, 0x1ffe, 0x10}
	for i := 0; i < n; i++ {
		e := genE2E(t, c.Program)
		e.S = *mpv.GenStream(t, mpv.Opts{Types: "IPB", MaxPics: 4, MaxMB: 2, GroupMax: 3, Matrices: 10, Extras: 10, Repeat: 20})
		e.Others, e.Packs, e.PerPack = nil, nil, nil
		k := uniform(t, len(pids), "pid")
		e.PID = pids[k]
		pids = append(pids[:k:k], pids[k+1:]...)
		c.E = append(c.E, e)
		var second *mpv.Stream
		if mux.Chance(t, 30, "second") {
			second = mpv.GenStream(t, mpv.Opts{Types: "IPB", MaxPics: 2, MaxMB: 2, GroupMax: 3, Matrices: 10})
		}
		c.Second = append(c.Second, second)
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 12).Draw(t, "order")
	if mux.Chance(t, 60, "others") {
		c.Other = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2}), 1, 5).Draw(t, "foreign")
	}
	if c.Program {
		for k := rapid.IntRange(1, 3).Draw(t, "npacks"); k > 0; k-- {
			c.Packs = append(c.Packs, mux.GenPackHeader(t, 3))
		}
		c.PerPack = append(rapid.SliceOfN(rapid.IntRange(0, 4), 0, 5).Draw(t, "perpack"), 2)
		c.End = rapid.Bool().Draw(t, "end")
	} else {
		c.Via = rapid.SampledFrom([]string{"channels", "channels", "packets", "readers"}).Draw(t, "via")
	}
	return c
}

// merge gives the order in which items of several lists follow each other.
func (c *multiCase) merge(lens []int) (out []int) {
	left := append([]int{}, lens...)
	for k := 0; ; k++ {
		i := c.Order[k%len(c.Order)]
		for n := 0; n < len(left) && left[i] == 0; n++ {
			i = (i + 1) % len(left)
		}
		if left[i] == 0 {
			return
		}
		left[i]--
		out = append(out, i)
	}
}

func (c *multiCase) check(x *core.Ctx) error {
	n := len(c.E)
	want := make([][][]*mpv.Frame, n) // of each stream, of each of its sequences
	packets := make([][]mux.PESPacket, n)
	for i := range c.E {
		es, bare := c.E[i].video()
		seqs := []*mpv.Stream{&c.E[i].S}
		parts := [][]byte{bare}
		if s := c.Second[i]; s != nil {
			s.Expand()
			b := s.Encode().Buf
			es = append(es, b...)
			seqs, parts = append(seqs, s), append(parts, b)
		}
		for k, s := range seqs {
			f, err := decodeAll(bytes.NewReader(parts[k]), len(s.Items))
			if err != video.EOS || len(f) != len(s.Items) {
				return fmt.Errorf("bare stream %d: %d of %d pictures, %v", i, len(f), len(s.Items), err)
			}
			want[i] = append(want[i], f)
		}
		packets[i] = c.E[i].packets(es)
	}
	// decode decodes a stream and compares it.
	decode := func(i int, r io.Reader) error {
		vs := video.NewVideoSequence(r)
		if err := vs.AlignTo(video.SequenceHeaderStartCode); err != nil {
			return fmt.Errorf("stream %d of %d: aligning to the sequence header: %v", i, n, err)
		}
		for k, w := range want[i] {
			got, err := decodeOn(vs, len(w))
			if e := sameFrames(fmt.Sprintf("stream %d of %d, sequence %d", i, n, k), got, w); e != nil {
				return fmt.Errorf("%w (the end was %v)", e, err)
			}
			if err != video.EOS {
				return fmt.Errorf("stream %d of %d, sequence %d: ends with %v", i, n, k, err)
			}
			x.Count("pictures", len(got))
		}
		if img, err := vs.Next(); img != nil || err == nil {
			return fmt.Errorf("stream %d of %d: a picture behind the last sequence", i, n)
		}
		return nil
	}
	// all decoders at work, each fed through a pipe
	var errs [3]error
	pipes := make([]*io.PipeWriter, n)
	finished := make(chan int)
	start := func() {
		for i := range pipes {
			r, w := io.Pipe()
			pipes[i] = w
			go func() {
				errs[i] = core.Protect(func() error { return decode(i, r) })
				r.Close()
				finished <- i
			}()
		}
	}
	finish := func() error {
		for range pipes {
			<-finished
		}
		for i := range pipes {
			if errs[i] != nil {
				return errs[i]
			}
		}
		return nil
	}

	if c.Program {
		lens := make([]int, n)
		for i := range packets {
			lens[i] = len(packets[i])
			for k := range packets[i] {
				packets[i][k].StreamID = uint32(0xE0 + i*5)
			}
		}
		var all []mux.PESPacket
		at := make([]int, n)
		for k, i := range c.merge(lens) {
			for j := 0; len(c.Other) > 0 && j < c.Other[k%len(c.Other)]; j++ {
				o := mux.PESPacket{StreamID: []uint32{0xC0, 0xBD, 0xBF, 0xBE, 0xE9}[(k+j)%5], Payload: mux.Noise(uint64(k*3+j), 1+(k*37+j)%300)}
				if o.StreamID != 0xBF && o.StreamID != 0xBE {
					o.H = &mux.PESHeader{}
				}
				all = append(all, o)
			}
			all = append(all, packets[i][at[i]])
			at[i]++
		}
		total := len(all)
		var packs []mux.PSPack
		for i := 0; len(all) > 0 || i == 0; i++ {
			m := min(c.PerPack[i%len(c.PerPack)], len(all))
			packs = append(packs, mux.PSPack{H: c.Packs[i%len(c.Packs)], Packets: all[:m]})
			all = all[m:]
		}
		stream, _ := mux.ProgramBytes(packs)
		if c.End {
			stream = append(stream, mux.ProgramEnd...)
		}
		x.Count("PES packets", total)
		x.Class("program stream")
		x.NonTrivial(stream)
		return core.Bubble(x, func() error {
			finished = make(chan int)
			start()
			dec := ps.NewDecoder(bitreader.NewReader(core.NewChunks(stream, c.Sizes)))
			done := dec.Go()
			for pack := range dec.Packs() {
				for p := range pack.Packets() {
					for i := range pipes {
						if p.StreamID == uint32(0xE0+i*5) {
							pipes[i].Write(p.Payload)
						}
					}
				}
			}
			ok := <-done
			for _, w := range pipes {
				w.Close()
			}
			if err := finish(); err != nil {
				return err
			}
			if ok != c.End {
				return fmt.Errorf("completion is %v, %v", ok, dec.Err())
			}
			return nil
		})
	}

	var parts [3][]byte
	lens := make([]int, n)
	for i := range packets {
		var units [][]byte
		for _, p := range packets[i] {
			units = append(units, p.Bytes())
		}
		parts[i] = mux.Transport(units, c.E[i].PID, c.E[i].Stuff, nil)
		lens[i] = len(parts[i]) / 188
	}
	var stream []byte
	for k, i := range c.merge(lens) {
		for j := 0; len(c.Other) > 0 && j < c.Other[k%len(c.Other)]; j++ {
			f := mux.TSPacket{PID: []uint32{0x1fff, 0x22, 0x100}[(k+j)%3], PUSI: (k+j)%2 == 0, AFC: 1, Payload: mux.Noise(uint64(300+k), 184)}
			stream = append(stream, f.Encode()...)
		}
		stream = append(stream, parts[i][:188]...)
		parts[i] = parts[i][188:]
	}
	x.Count("transport packets", len(stream)/188)
	x.Class("transport stream, %s", c.Via)
	x.NonTrivial(stream)
	if c.Via == "readers" {
		for i := range c.E {
			src := core.NewChunks(stream, c.Sizes)
			if err := decode(i, pes.NewPayloadReader(ts.NewPayloadUnitReader(src, ts.IsPID(c.E[i].PID)))); err != nil {
				return err
			}
		}
		return nil
	}
	return core.Bubble(x, func() error {
		finished = make(chan int)
		start()
		d := ts.NewDemuxer(core.NewChunks(stream, c.Sizes))
		fed := make(chan error)
		for i := range c.E {
			ch := d.Where(ts.IsPID(c.E[i].PID))
			var units <-chan []byte
			if c.Via == "channels" {
				units = ch.PayloadUnit()
			} else {
				// the units put together from packets by the user
				out := make(chan []byte)
				go func() {
					defer close(out)
					var unit []byte
					for p := range ch {
						if p.PayloadUnitStartIndicator && unit != nil {
							out <- unit
							unit = nil
						}
						unit = append(unit, p.Payload...)
					}
					out <- unit
				}()
				units = out
			}
			go func() {
				fed <- core.Protect(func() (err error) {
					defer pipes[i].Close()
					for unit := range units {
						p, perr := pes.NewPacket(bitreader.NewReader(bytes.NewReader(unit)))
						if perr != nil {
							err = fmt.Errorf("stream %d of %d: a unit of %d bytes is no packet: %v", i, n, len(unit), perr)
							continue
						}
						pipes[i].Write(p.Payload)
					}
					return
				})
			}()
		}
		<-d.Go()
		var err error
		for range c.E {
			if e := <-fed; e != nil {
				err = e
			}
		}
		if e := finish(); err == nil {
			err = e
		}
		if e := d.Err(); err == nil && e != nil && !errors.Is(e, io.EOF) {
			err = fmt.Errorf("the demuxer ended with %v", e)
		}
		return err
	})
}

func TestE04(t *testing.T) {
	core.Run(t, core.Prop[multiCase]{
		ID:    "E04",
		Rule:  "two or three streams were multiplexed, and all pictures of each equal those of the bare stream",
		Gen:   genMulti,
		Check: func(c multiCase, x *core.Ctx) error { return c.check(x) },
	})
}
