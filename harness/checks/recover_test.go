package checks

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mpv"
	"verifharness/mux"
)

// V15: taking up a video stream in the middle, at first or again after an error.

// damage changes one part of the stream.
type damage struct {
	Kind string // flip, zero, random, cut, insert
	At   int    // thousandths of the group chosen
	Len  int
	Seed uint64
}

// apply damages data from offset at on; it returns the new data and where the
// damage ends in it.
func (d damage) apply(data []byte, at int) ([]byte, int) {
	n := min(d.Len, len(data)-at)
	out := append([]byte(nil), data[:at]...)
	switch d.Kind {
	case "flip":
		out = append(out, data[at]^byte(1<<(d.Seed%8)))
		n = 1
	case "zero":
		out = append(out, make([]byte, n)...)
	case "random":
		out = append(out, mux.Noise(d.Seed|256, n)...)
	case "insert":
		out = append(out, mux.Noise(d.Seed|256, n)...)
		n = 0
	case "shifted":
		// what would be a header if it began with a byte
		k := 1 + d.Seed%7
		code := uint64(0x1B3)
		if d.Seed>>8&1 == 1 {
			code = 0x1B8
		}
		out = append(out, mux.Noise(d.Seed|256, min(n, 12))...)
		v := code<<k | d.Seed>>16&(1<<k-1)
		out = append(out, byte(d.Seed>>40)<<k, byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		n = 0
	case "cut":
	}
	end := len(out)
	return append(out, data[at+n:]...), end
}

type joinCase struct {
	S      []mpv.Stream
	Copies []int  // of each, one after the other, in one sequence
	Ends   []bool // an end code after each copy
	Mode   string // "error", "join", "group"
	Where  int    // the copy damaged, or joined in
	D      damage
	Sizes  []int
}

// encode gives the data, where its copies start, and per copy the headers of
// its sequence (up to the group header).
func (c *joinCase) encode() (data []byte, starts []int, heads [][]byte) {
	for i := range c.S {
		for k := 0; k < max(1, c.Copies[i]); k++ {
			s := mpv.Stream{StuffSeed: c.S[i].StuffSeed + uint64(k), Stuff: c.S[i].Stuff}
			for _, it := range c.S[i].Items {
				p := *it.Pic
				p.Seed += uint64(k) * 7919
				it.Pic = &p
				s.Items = append(s.Items, it)
			}
			s.NoEnd = k+1 < c.Copies[i] && !c.Ends[i]
			s.Expand()
			b := s.Encode().Buf
			starts = append(starts, len(data))
			data = append(data, b...)
			heads = append(heads, b[:bytes.Index(b, []byte{0, 0, 1, 0xB8})])
		}
	}
	return
}

func seqAt(data []byte, from int) int {
	if k := bytes.Index(data[from:], []byte{0, 0, 1, 0xB3}); k >= 0 {
		return from + k
	}
	return -1
}

// groups decodes to the end, over sequence ends.
func groups(vs *video.VideoSequence, limit int) (frames []*mpv.Frame, err error) {
	for {
		var f []*mpv.Frame
		f, err = decodeOn(vs, limit)
		frames = append(frames, f...)
		if err != video.EOS || len(frames) > limit {
			return frames, err
		}
		frames = append(frames, nil) // a sequence end
	}
}

func sameGroups(what string, got, want []*mpv.Frame) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		if (got[i] == nil) != (want[i] == nil) {
			return fmt.Errorf("%s: item %d: end of sequence %v, expected %v", what, i, got[i] == nil, want[i] == nil)
		}
		if got[i] != nil {
			if err := got[i].Same(want[i]); err != nil {
				return fmt.Errorf("%s: picture %d: %w", what, i, err)
			}
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d pictures and ends, expected %d", what, len(got), len(want))
	}
	return nil
}

func (c *joinCase) check(x *core.Ctx) error {
	data, starts, heads := c.encode()
	w := c.Where % len(starts)
	end := len(data)
	if w+1 < len(starts) {
		end = starts[w+1]
	}
	at := starts[w] + (end-starts[w])*c.D.At/1000
	limit := len(data)

	if c.Mode == "join" {
		p := seqAt(data, at)
		vs := video.NewVideoSequence(core.NewChunks(data[at:], c.Sizes))
		err := vs.AlignTo(video.SequenceHeaderStartCode)
		if p < 0 {
			if err == nil {
				return fmt.Errorf("joined at %d: aligned to a sequence header where none follows", at)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("joined at %d: aligning to the sequence header at %d: %v", at, p, err)
		}
		got, err := groups(vs, limit)
		want, wantErr := groups(video.NewVideoSequence(bytes.NewReader(data[p:])), limit)
		if err := sameGroups(fmt.Sprintf("joined at %d, aligned to the sequence header at %d", at, p), got, want); err != nil {
			return err
		}
		if err != wantErr {
			return fmt.Errorf("joined at %d: ends with %v, expected %v", at, err, wantErr)
		}
		x.Class("joined")
		if p > at && len(got) > 1 {
			x.NonTrivial(append(data, fmt.Sprint(at)...))
		}
		return nil
	}

	if c.Mode == "group" {
		// the headers of the sequence stay whole
		at = min(max(at, starts[w]+len(heads[w])+8), end-1)
	}
	c.D.Len = min(c.D.Len, end-at)
	bad, badEnd := c.D.apply(data, at)
	shift := len(bad) - len(data)
	vs := video.NewVideoSequence(core.NewChunks(bad, c.Sizes))
	bits := &core.CountingBits{BitReader: vs.BitReader}
	vs.BitReader = bits
	code, mark := video.SequenceHeaderStartCode, []byte{0, 0, 1, 0xB3}
	if c.Mode == "group" {
		code, mark = video.GroupStartCode, []byte{0, 0, 1, 0xB8}
	}
	for shown := 0; ; {
		img, err := vs.Next()
		if err == nil && img != nil {
			if shown++; shown > limit {
				return fmt.Errorf("more than %d pictures", limit)
			}
			continue
		}
		if err == nil {
			return fmt.Errorf("neither picture nor error")
		}
		if err == video.EOS {
			continue // of a sequence, or one that the damage makes
		}
		if err == io.EOF {
			x.Class("no error before the end")
			return nil
		}
		if bits.Bits/8+16 < uint64(at) { // it looks ahead, but not far
			return fmt.Errorf("%v at byte %d of undamaged data, the damage is at %d", err, bits.Bits/8, at)
		}
		if w+2 < len(starts) && bits.Bits/8 > uint64(starts[w+2]+shift+len(heads[w+2])) {
			return fmt.Errorf("%v at byte %d, the damage in group %d ends at %d and group %d starts at %d", err, bits.Bits/8, w, badEnd, w+2, starts[w+2]+shift)
		}
		// again from the next header on
		if err2 := vs.AlignTo(code); err2 != nil {
			if err2 == io.EOF && (w+2 >= len(starts)) {
				x.Class("no header after the error")
				return nil
			}
			return fmt.Errorf("after %v at byte %d, aligning to the next header: %v", err, bits.Bits/8, err2)
		}
		p := int(bits.Bits / 8)
		if p >= len(bad) || !bytes.HasPrefix(bad[p:], mark) {
			return fmt.Errorf("after %v: aligned to byte %d where there is no such header", err, p)
		}
		if w+2 < len(starts) && p > starts[w+2]+shift+len(heads[w+2]) {
			return fmt.Errorf("after %v: the group after the damaged one was passed over: aligned to byte %d", err, p)
		}
		if p < badEnd {
			continue // still in the damage
		}
		from := bad[p:]
		if c.Mode == "group" {
			// which sequence is it in?
			k := w
			for k+1 < len(starts) && starts[k+1]+shift < p {
				k++
			}
			if k != w && !bytes.Equal(heads[k], heads[w]) {
				x.Class("group of another sequence")
				return nil
			}
			from = append(append([]byte(nil), heads[w]...), from...)
		}
		got, gotErr := groups(vs, limit)
		want, wantErr := groups(video.NewVideoSequence(bytes.NewReader(from)), limit)
		what := fmt.Sprintf("after %v, taken up at byte %d", err, p)
		if err := sameGroups(what, got, want); err != nil {
			return err
		}
		if gotErr != wantErr {
			return fmt.Errorf("%s: ends with %v, a fresh decoder with %v", what, gotErr, wantErr)
		}
		x.Class("taken up after: %s", c.D.Kind)
		x.Class("taken up at: %s", c.Mode)
		x.Count("pictures after the error", len(got))
		if len(got) > 1 {
			x.NonTrivial(bad)
		}
		return nil
	}
}

// genClosed draws streams of one closed group each (or more).
func genClosed(t *rapid.T, matrices int) mpv.Stream {
	s := mpv.GenStream(t, mpv.Opts{Types: "IPB", Plain: mux.Chance(t, 50, "plain"), MaxPics: 5, MaxMB: 4, GroupMax: 5, Matrices: matrices, Extras: 10})
	if s.Items[0].GOP == nil {
		s.Items[0].GOP = mpv.GenGOP(t, true, mpv.Opts{})
	}
	for i := 1; i < len(s.Items); i++ {
		if g := s.Items[i].GOP; g != nil && !g.Closed {
			// what its first pictures refer to may be missing
			g.Closed = true
			for k := i + 1; k < len(s.Items) && s.Items[k].Pic.Type == 'B'; k++ {
				s.Items[k].Pic.Mix.Fwd, s.Items[k].Pic.Mix.Both = 0, 0
			}
		}
	}
	return *s
}

func TestV15(t *testing.T) {
	core.Run(t, core.Prop[joinCase]{
		ID:   "V15",
		Rule: "the decoder took the stream up at a header behind where it joined, or behind an error, and gave at least two pictures or ends from there",
		Gen: func(t *rapid.T) joinCase {
			c := joinCase{Mode: rapid.SampledFrom([]string{"error", "join", "error", "group"}).Draw(t, "mode"), Sizes: mux.GenSizes(t, "chunks", false)}
			mats := 20
			if c.Mode == "group" {
				mats = 0
			}
			n := rapid.IntRange(1, 3).Draw(t, "sequences")
			for i := 0; i < n; i++ {
				c.S = append(c.S, genClosed(t, mats))
				c.Copies = append(c.Copies, rapid.IntRange(1, 4).Draw(t, "copies"))
				c.Ends = append(c.Ends, mux.Chance(t, 30, "ends"))
			}
			c.Where = rapid.IntRange(0, 5).Draw(t, "where")
			c.D = damage{
				Kind: rapid.SampledFrom([]string{"flip", "zero", "random", "cut", "insert", "shifted"}).Draw(t, "damage"),
				At:   rapid.IntRange(0, 999).Draw(t, "at"),
				Len:  rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 60), rapid.IntRange(1, 1000)).Draw(t, "len"),
				Seed: rapid.Uint64().Draw(t, "dseed"),
			}
			return c
		},
		Check: func(c joinCase, x *core.Ctx) error { return c.check(x) },
	})
}

// E03: joining a transport stream in the middle.

type tuneCase struct {
	E    e2eCase
	J    joinCase // the video: its groups
	Drop int      // thousandths of the packets
	Junk int      // bytes of the packet before that are still there
}

func (c *tuneCase) check(x *core.Ctx) error {
	es, _, _ := c.J.encode()
	e := &c.E
	var units [][]byte
	var offs []int // in the video, of the units
	off := 0
	for _, p := range e.packets(es) {
		units = append(units, p.Bytes())
		offs = append(offs, off)
		off += len(p.Payload)
	}
	stream := mux.Transport(units, e.PID, e.Stuff, e.Others)
	n := len(stream) / 188
	k := c.Drop * n / 1000
	// the units that start later
	starts := 0
	for i := 0; i < k; i++ {
		b := stream[188*i:]
		if uint32(b[1]&0x1f)<<8|uint32(b[2]) == e.PID && b[1]&0x40 != 0 {
			starts++
		}
	}
	rest := append(junk(uint64(c.Drop)+300, min(c.Junk, k*188)), stream[188*k:]...)
	var from []byte
	if starts < len(units) {
		from = es[offs[starts]:]
	}
	want, wantErr := []*mpv.Frame(nil), error(io.EOF)
	at := seqAt(from, 0)
	if at >= 0 {
		want, wantErr = groups(video.NewVideoSequence(bytes.NewReader(from[at:])), len(es))
	}
	vs := video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadUnitReader(core.NewChunks(rest, e.Sizes), ts.IsPID(e.PID))))
	err := vs.AlignTo(video.SequenceHeaderStartCode)
	what := fmt.Sprintf("joined %d of %d packets behind the start, at unit %d of %d", k, n, starts, len(units))
	if at < 0 {
		if err == nil {
			return fmt.Errorf("%s: aligned to a sequence header where none follows", what)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: aligning to the sequence header: %v", what, err)
	}
	got, err := groups(vs, len(es))
	if err := sameGroups(what, got, want); err != nil {
		return err
	}
	if err != wantErr {
		return fmt.Errorf("%s: ends with %v, expected %v", what, err, wantErr)
	}
	x.Count("pictures and ends after joining", len(got))
	if k > 0 && len(got) > 1 {
		x.Class("joined in the middle")
		x.NonTrivial(append(rest, fmt.Sprint(k)...))
	}
	return nil
}

func TestE03(t *testing.T) {
	core.Run(t, core.Prop[tuneCase]{
		ID:   "E03",
		Rule: "at least one transport packet was missing at the start and at least two pictures or ends were decoded from there",
		Gen: func(t *rapid.T) tuneCase {
			c := tuneCase{E: genE2E(t, false), Drop: rapid.IntRange(0, 700).Draw(t, "drop")}
			c.E.S = mpv.Stream{}
			n := rapid.IntRange(1, 3).Draw(t, "sequences")
			for i := 0; i < n; i++ {
				c.J.S = append(c.J.S, genClosed(t, 15))
				c.J.Copies = append(c.J.Copies, rapid.IntRange(1, 4).Draw(t, "copies"))
				c.J.Ends = append(c.J.Ends, mux.Chance(t, 30, "ends"))
			}
			if mux.Chance(t, 40, "junk") {
				c.Junk = rapid.IntRange(1, 187).Draw(t, "junkbytes")
			}
			return c
		},
		Check: func(c tuneCase, x *core.Ctx) error { return c.check(x) },
	})
}

// T11: reading on after an error in a transport stream.

type resumeElem struct {
	Junk int  // bytes without 0x47 before the packet
	Bad  bool // its adaptation field is too long
	Seed uint64
	P    mux.TSPacket
}

type resumeCase struct {
	Via    string
	Elems  []resumeElem
	Where  *expr
	Skip   *expr // payload: skip until
	Take   *expr // payload: take while
	Sizes  []int
	Chunks []int
}

func (c *resumeCase) check(x *core.Ctx) error {
	var data []byte
	// what is to come: errors and packets
	type event struct {
		err error // ErrNoSyncByte, or any (errNotYet)
		p   *mux.TSPacket
	}
	var events []event
	lost := 0
	for i := range c.Elems {
		e := &c.Elems[i]
		n := e.Junk
		if i > 0 && c.Elems[i-1].Bad {
			n = 0 // it is not said where in the packet the error leaves the reader
		}
		data = append(data, junk(e.Seed, n)...)
		for k := 0; k < n/188; k++ {
			events = append(events, event{err: ts.ErrNoSyncByte})
			lost++
		}
		raw := e.P.Encode()
		if e.Bad {
			raw[3] |= 0x20
			raw[4] = 184 + byte(e.Seed%72)
			for k := 1; k < len(raw); k++ {
				if raw[k] == 0x47 {
					raw[k] = 0x46
				}
			}
			events = append(events, event{err: errNotYet})
			lost++
		} else {
			events = append(events, event{p: &e.P})
		}
		data = append(data, raw...)
	}
	src := core.NewChunks(data, c.Chunks)
	fits := func(got, want error) bool {
		if want == ts.ErrNoSyncByte {
			return got == want
		}
		return got != nil && got != io.EOF && got != io.ErrUnexpectedEOF && got != ts.EOP
	}
	switch c.Via {
	case "packets", "reused":
		br := bitreader.NewReader(src)
		p := new(ts.Packet)
		for i, e := range events {
			var err error
			if c.Via == "reused" {
				err = p.Next(br)
			} else {
				p, err = ts.NewPacket(br)
			}
			if e.p == nil {
				if !fits(err, e.err) {
					return fmt.Errorf("%s: outcome %d of %d: error %v, expected one of junk or a refused packet", c.Via, i, len(events), err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("%s: outcome %d of %d: %v, expected a packet", c.Via, i, len(events), err)
			}
			if err := matchTS(p, e.p); err != nil {
				return fmt.Errorf("%s: outcome %d of %d: %w", c.Via, i, len(events), err)
			}
		}
		if _, err := ts.NewPacket(br); err != io.EOF {
			return fmt.Errorf("%s: at the end: %v", c.Via, err)
		}
	case "payload":
		var want []byte
		type mark struct {
			off int
			err error
		}
		var marks []mark
		inRange, first, firstErrs := c.Skip == nil, true, 0
		for _, e := range events {
			if e.p == nil {
				marks = append(marks, mark{len(want), e.err})
				continue
			}
			if !inRange && c.Skip.eval(e.p) {
				inRange, firstErrs = true, len(marks)
			}
			if !inRange {
				continue
			}
			if c.Take != nil && !c.Take.eval(e.p) {
				if first {
					return nil // may be read both ways, as in T06
				}
				break
			}
			first = false
			if c.Where.eval(e.p) {
				want = append(want, e.p.Payload...)
			}
		}
		r := ts.NewPayloadReader(src, c.Where.build())
		if c.Skip != nil {
			r.SkipUntil(c.Skip.build())
			x.Count("errors read on after before the range begins", firstErrs)
		}
		if c.Take != nil {
			r.TakeWhile(c.Take.build())
		}
		k := 0
		var bad error
		out, err := core.Drain(r, c.Sizes, len(data)+1000,
			func(err error) bool {
				if err == io.EOF {
					return false
				}
				if k >= len(marks) || !fits(err, marks[k].err) {
					bad = fmt.Errorf("payload: error %d is %v, not expected there", k, err)
					return false
				}
				return true
			}, func(off int) {
				if off != marks[k].off && bad == nil {
					bad = fmt.Errorf("payload: error %d reported after %d bytes, expected after %d", k, off, marks[k].off)
				}
				k++
			})
		if bad != nil {
			return bad
		}
		if err != nil {
			return err
		}
		if out.Err != io.EOF || k != len(marks) {
			return fmt.Errorf("payload: %d of %d errors, then %v", k, len(marks), out.Err)
		}
		if err := sameBytes("payload", out.Data, want); err != nil {
			return err
		}
	case "units":
		// an error ends the unit under way; the next starts with a start
		type part struct {
			data []byte
			err  error
		}
		var want []part
		open := -1
		for _, e := range events {
			switch {
			case e.p == nil:
				if open >= 0 {
					want[open].err = e.err
				} else {
					want = append(want, part{nil, e.err})
				}
				open = -1
			case c.Where.eval(e.p) && e.p.PUSI:
				want = append(want, part{nil, ts.EOP})
				open = len(want) - 1
				fallthrough
			case c.Where.eval(e.p) && open >= 0:
				want[open].data = append(want[open].data, e.p.Payload...)
			}
		}
		r := ts.NewPayloadUnitReader(src, c.Where.build())
		k := 0
		var got []byte
		for i := 0; ; i++ {
			size := 512
			if len(c.Sizes) > 0 {
				size = max(1, c.Sizes[i%len(c.Sizes)])
			}
			buf := make([]byte, size)
			n, err := r.Read(buf)
			got = append(got, buf[:n]...)
			if len(got) > len(data) || i > 3*len(data)+1000 {
				return fmt.Errorf("units: no end")
			}
			if err == nil {
				continue
			}
			if err == io.EOF {
				break
			}
			if k >= len(want) {
				return fmt.Errorf("units: %v with %d bytes after the %d units and errors expected", err, len(got), len(want))
			}
			if want[k].err == ts.EOP && err != ts.EOP || want[k].err != ts.EOP && !fits(err, want[k].err) {
				return fmt.Errorf("units: part %d of %d ends with %v, expected %v", k, len(want), err, want[k].err)
			}
			if err := sameBytes(fmt.Sprintf("units: part %d of %d", k, len(want)), got, want[k].data); err != nil {
				return err
			}
			got = nil
			k++
		}
		if k != len(want) || len(got) > 0 {
			return fmt.Errorf("units: %d of %d parts, then %d bytes", k, len(want), len(got))
		}
	}
	x.Class("%s", c.Via)
	x.Count("errors read on after", lost)
	if lost > 0 && events[len(events)-1].p != nil {
		x.NonTrivial(append(data, fmt.Sprint(c.Via, c.Sizes, c.Chunks)...))
	}
	return nil
}

func TestT11(t *testing.T) {
	core.Run(t, core.Prop[resumeCase]{
		ID:   "T11",
		Rule: "at least one loss of sync or refused packet was read on after, up to a packet behind it",
		Gen: func(t *rapid.T) resumeCase {
			c := resumeCase{Via: rapid.SampledFrom([]string{"packets", "reused", "payload", "units"}).Draw(t, "via"),
				Where: &expr{Op: "pid", N: 0x21}, Sizes: mux.GenSizes(t, "read", false), Chunks: mux.GenSizes(t, "chunk", false)}
			if mux.Chance(t, 30, "other") {
				c.Where = genExpr(t, somePIDs, 2)
			}
			if c.Via == "payload" && mux.Chance(t, 50, "range") {
				if mux.Chance(t, 70, "skip") {
					c.Skip = genExpr(t, somePIDs[:2], 1)
				}
				if mux.Chance(t, 40, "take") {
					c.Take = genExpr(t, somePIDs[:2], 1)
				}
			}
			n := rapid.IntRange(1, 9).Draw(t, "n")
			for i := 0; i < n; i++ {
				e := resumeElem{Seed: 300 + rapid.Uint64Range(0, 1<<40).Draw(t, "seed"), P: mux.GenPacket(t, mux.TSOpts{PIDs: somePIDs[:2], PUSIPct: 40})}
				if mux.Chance(t, 40, "hasjunk") {
					e.Junk = rapid.OneOf(rapid.IntRange(1, 187), rapid.SampledFrom([]int{187, 188, 189, 375, 376, 377, 752}), rapid.IntRange(188, 1000)).Draw(t, "junk")
				}
				e.Bad = mux.Chance(t, 20, "bad")
				c.Elems = append(c.Elems, e)
			}
			return c
		},
		Check: func(c resumeCase, x *core.Ctx) error { return c.check(x) },
	})
}
