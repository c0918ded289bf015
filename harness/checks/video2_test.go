package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"io"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mpv"
	"verifharness/mux"
)

func sameFrames(what string, got, want []*mpv.Frame) error {
	for i := range got {
		if i < len(want) {
			if err := got[i].Same(want[i]); err != nil {
				return fmt.Errorf("%s: picture %d: %w", what, i, err)
			}
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d pictures, expected %d", what, len(got), len(want))
	}
	return nil
}

func key(s *mpv.Stream) []byte {
	var b bytes.Buffer
	for _, it := range s.Items {
		fmt.Fprint(&b, it.Pic.Seed, it.Pic.TR, string(it.Pic.Type), it.GOP != nil, it.Seq != nil)
	}
	return b.Bytes()
}

// V04: display order.

func TestV04(t *testing.T) {
	type c04 struct {
		S    mpv.Stream
		Long bool
	}
	core.Run(t, core.Prop[c04]{
		ID:       "V04",
		Rule:     "at least three pictures, of which at least one is output after one that follows it in coded order, or temporal references that wrap around",
		CPULimit: 120 * time.Second,
		Gen: func(t *rapid.T) c04 {
			if mux.Chance(t, 2, "long") {
				n := rapid.SampledFrom([]int{300, 1030, 1100, 2100, 3100}).Draw(t, "n")
				return c04{*mpv.GenLong(t, n), true}
			}
			if mux.Chance(t, 30, "middle") {
				return c04{*mpv.GenLong(t, rapid.IntRange(2, 60).Draw(t, "n")), false}
			}
			return c04{*mpv.GenStream(t, mpv.Opts{Types: "IPB", Plain: true, MaxPics: 30, MaxMB: 2, GroupMax: 12, Repeat: 30, Extras: 5}), false}
		},
		Check: func(c c04, x *core.Ctx) error {
			var st mpv.Stats
			if err := checkPictures(&c.S, x, &st); err != nil {
				return err
			}
			order, _ := c.S.Display()
			moved, groups, bs := 0, 0, 0
			for i, o := range order {
				if o != i {
					moved++
				}
				if c.S.Items[i].GOP != nil {
					groups++
				}
				if c.S.Items[i].Pic.Type == 'B' {
					bs++
				}
			}
			x.Count("pictures", len(order))
			x.Count("B pictures", bs)
			x.Count("group headers", groups)
			if c.Long && len(order) > 1024 {
				x.Class("more than 1024 pictures")
			}
			if groups == 0 {
				x.Class("no group header")
			}
			if len(order) >= 3 && moved > 0 {
				x.NonTrivial(key(&c.S))
			}
			return nil
		},
	})
}

// V05: frames stay untouched, decoders are independent.

type v05Case struct {
	S          []mpv.Stream
	Turns      []int // which decoder is asked next (cycled)
	Concurrent bool
}

func TestV05(t *testing.T) {
	core.Run(t, core.Prop[v05Case]{
		ID:   "V05",
		Rule: "at least two decoders, or at least two pictures of one, were compared with the pictures decoded alone both when returned and at the end",
		Gen: func(t *rapid.T) v05Case {
			c := v05Case{Concurrent: mux.Chance(t, 40, "concurrent")}
			n := rapid.IntRange(1, 4).Draw(t, "decoders")
			for i := 0; i < n; i++ {
				if mux.Chance(t, 12, "long") {
					c.S = append(c.S, *mpv.GenLong(t, rapid.IntRange(10, 90).Draw(t, "n")))
					continue
				}
				c.S = append(c.S, *mpv.GenStream(t, mpv.Opts{Types: rapid.SampledFrom([]string{"IPB", "IP"}).Draw(t, "types"), MaxPics: 6, MaxMB: 3, GroupMax: 5, Matrices: 30, Extras: 10, Repeat: 20}))
			}
			if n > 1 && mux.Chance(t, 20, "twins") {
				c.S[1] = c.S[0]
			}
			c.Turns = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 12).Draw(t, "turns")
			return c
		},
		Check: func(c v05Case, x *core.Ctx) error {
			var data [][]byte
			for i := range c.S {
				c.S[i].Expand()
				data = append(data, c.S[i].Encode().Buf)
			}
			want := make([][]*mpv.Frame, len(c.S))
			total := 0
			alone := func() error {
				for i := range c.S {
					f, err := decodeAll(bytes.NewReader(data[i]), len(c.S[i].Items))
					if err != video.EOS {
						return fmt.Errorf("stream %d alone: %v, expected %v", i, err, video.EOS)
					}
					want[i] = f
					total += len(f)
				}
				return nil
			}
			raw := make([][]*image.YCbCr, len(c.S))
			got := make([][]*mpv.Frame, len(c.S))
			vs := make([]*video.VideoSequence, len(c.S))
			done := make([]bool, len(c.S))
			step := func(i int) error {
				if vs[i] == nil {
					vs[i] = video.NewVideoSequence(bytes.NewReader(data[i]))
				}
				img, err := vs[i].Next()
				if err != nil {
					done[i] = true
					if err != video.EOS {
						return fmt.Errorf("decoder %d: %v, expected %v", i, err, video.EOS)
					}
					return nil
				}
				f, err := mpv.FrameOf(img)
				if err != nil {
					return err
				}
				if len(raw[i]) >= len(c.S[i].Items) {
					return fmt.Errorf("decoder %d: more pictures than there are", i)
				}
				raw[i] = append(raw[i], img)
				got[i] = append(got[i], f)
				return nil
			}
			if c.Concurrent {
				// before anything is decoded alone: what is made at first use
				// is made by several at once, then
				errs := make([]error, len(c.S))
				var wg sync.WaitGroup
				for i := range vs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = core.Protect(func() error {
							for !done[i] {
								if err := step(i); err != nil {
									return err
								}
							}
							return nil
						})
					}()
				}
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						return err
					}
				}
				if err := alone(); err != nil {
					return err
				}
			} else {
				if err := alone(); err != nil {
					return err
				}
				left, k := len(vs), 0
				for left > 0 {
					i := c.Turns[k%len(c.Turns)]
					k++
					for done[i] {
						i = (i + 1) % len(vs)
					}
					if err := step(i); err != nil {
						return err
					}
					if done[i] {
						left--
					}
				}
			}
			for i := range got {
				for k, f := range got[i][:min(len(got[i]), len(want[i]))] {
					if err := f.Same(want[i][k]); err != nil {
						return fmt.Errorf("decoder %d: picture %d, when returned, compared with decoding alone: %w", i, k, err)
					}
				}
			}
			for i := range raw {
				if len(raw[i]) != len(want[i]) {
					return fmt.Errorf("decoder %d: %d pictures, alone %d", i, len(raw[i]), len(want[i]))
				}
				for k, img := range raw[i] {
					f, err := mpv.FrameOf(img)
					if err != nil {
						return err
					}
					if err := f.Same(want[i][k]); err != nil {
						return fmt.Errorf("decoder %d: picture %d changed after it was returned: %w", i, k, err)
					}
				}
			}
			x.Class("%d decoders", len(vs))
			if c.Concurrent {
				x.Class("concurrent")
			}
			if total >= 2 {
				var b []byte
				for i := range c.S {
					b = append(b, key(&c.S[i])...)
				}
				x.NonTrivial(append(b, fmt.Sprint(c.Turns, c.Concurrent)...))
			}
			return nil
		},
	})
}

// V06: how long header state applies.

func TestV06(t *testing.T) {
	core.Run(t, core.Prop[videoCase]{
		ID:   "V06",
		Rule: "a stream with a downloaded matrix, user data or an informative extension; with such data its pictures match the model and equal those of the stream without them",
		Gen: func(t *rapid.T) videoCase {
			return videoCase{*mpv.GenStream(t, mpv.Opts{Types: rapid.SampledFrom([]string{"I", "IPB"}).Draw(t, "types"), MaxPics: 8, MaxMB: 3, GroupMax: 4, Matrices: 50, Extras: 50, Repeat: 50})}
		},
		Check: func(c videoCase, x *core.Ctx) error {
			s := &c.S
			s.Expand()
			frames, err := decodeAll(bytes.NewReader(s.Encode().Buf), len(s.Items))
			if err != video.EOS {
				return fmt.Errorf("after %d of %d pictures: %v, expected %v", len(frames), len(s.Items), err, video.EOS)
			}
			var st mpv.Stats
			if err := comparePictures(s, frames, &st); err != nil {
				return err
			}
			if err := tooFar(st.Kinds, caseSamples, caseOff); err != nil {
				return err
			}

			// the same without what has no effect
			bare := mpv.Stream{Items: append([]mpv.Item(nil), s.Items...)}
			informative, matrices := 0, 0
			strip := func(xs []mpv.Extra) (keep []mpv.Extra) {
				for _, e := range xs {
					if e.Kind == "quant" {
						keep = append(keep, e)
						matrices++
					} else {
						informative++
						x.Class("%s", e.Kind)
					}
				}
				return
			}
			for i := range bare.Items {
				it := &bare.Items[i]
				p := *it.Pic
				p.Extras = strip(p.Extras)
				if p.Extra != nil {
					informative++
					p.Extra = nil
				}
				it.Pic = &p
				if it.Seq != nil {
					q := *it.Seq
					q.Extras = strip(q.Extras)
					it.Seq = &q
					if q.Intra != nil || q.NonIntra != nil {
						matrices++
						x.Class("matrix in a sequence header")
					} else if i > 0 {
						x.Class("repeated sequence header without matrices")
					}
				}
				if it.GOP != nil {
					g := *it.GOP
					g.Extras = strip(g.Extras)
					it.GOP = &g
				}
			}
			bare.Expand()
			again, err := decodeAll(bytes.NewReader(bare.Encode().Buf), len(s.Items))
			if err != video.EOS {
				return fmt.Errorf("without user data and informative extensions, after %d of %d pictures: %v", len(again), len(s.Items), err)
			}
			if err := sameFrames("with user data and informative extensions, compared with the same stream without", frames, again); err != nil {
				return err
			}
			x.Count("pictures with their own matrices", matrices)
			if informative+matrices > 0 {
				x.NonTrivial(key(s))
			}
			return nil
		},
	})
}

// V07: start codes and extension ids.

type v07Op struct {
	Op   string // skip, check, assert, extcheck, extassert, align
	N    uint
	Code uint32
	PS   bool // a start code of the program stream package
}

type v07Case struct {
	Far   int // bytes without start codes before the data
	Data  []byte
	Sizes []int
	Video bool // on a video decoder, not a bare bit reader
	Ops   []v07Op
}

func (c *v07Case) data() []byte {
	out := make([]byte, c.Far, c.Far+len(c.Data))
	for i := range out {
		out[i] = byte(1 + (i*7+i>>8)%255)
	}
	return append(out, c.Data...)
}

type bitModel struct {
	data []byte
	pos  int
}

func (b *bitModel) peek(n int) (v uint32, ok bool) {
	if b.pos+n > 8*len(b.data) {
		return 0, false
	}
	if n == 32 && b.pos%8 == 0 {
		return binary.BigEndian.Uint32(b.data[b.pos/8:]), true
	}
	for i := b.pos; i < b.pos+n; i++ {
		v = v<<1 | uint32(b.data[i/8]>>uint(7-i%8)&1)
	}
	return v, true
}

func TestV07(t *testing.T) {
	core.Run(t, core.Prop[v07Case]{
		ID:   "V07",
		Rule: "at least one operation on the bits succeeded or was refused with its specific error, and what follows was compared bit by bit",
		Gen: func(t *rapid.T) v07Case {
			var c v07Case
			c.Video = mux.Chance(t, 60, "video")
			codes := []uint32{0x100, 0x101, 0x1af, 0x1b0, 0x1b2, 0x1b3, 0x1b5, 0x1b7, 0x1b8, 0x1b9, 0x1ba, 0x1bb}
			n := rapid.IntRange(0, 12).Draw(t, "parts")
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 4).Draw(t, "part") {
				case 0:
					c.Data = append(c.Data, mux.Bytes(t, rapid.IntRange(1, 30).Draw(t, "len"), "bytes")...)
				case 1:
					c.Data = append(c.Data, make([]byte, rapid.IntRange(1, 6).Draw(t, "zeros"))...)
				case 2:
					var b mux.Bits
					b.Put(uint64(rapid.IntRange(0, 127).Draw(t, "lead")), uint(rapid.IntRange(1, 7).Draw(t, "shift")))
					b.Put(uint64(rapid.SampledFrom(codes).Draw(t, "unaligned")), 32)
					b.Align()
					c.Data = append(c.Data, b.Buf...)
				default:
					v := rapid.SampledFrom(codes).Draw(t, "code")
					c.Data = append(c.Data, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
				}
			}
			c.Sizes = mux.GenSizes(t, "chunks", false)
			ops := []string{"skip", "check", "assert", "extcheck", "extassert", "bycheck", "byassert", "byext"}
			if c.Video {
				ops = append(ops, "align", "align")
			}
			if uniform(t, 12000, "faraway") == 77 {
				c.Video = true
				c.Far = 1 + uniform(t, 200000, "far")
				if uniform(t, 5, "further") == 3 {
					c.Far = 1 + uniform(t, 3<<20, "furtherfar")
				}
				c.Sizes = []int{4096}
			}
			m := bitModel{data: c.data()}
			k := rapid.IntRange(1, 10).Draw(t, "ops")
			for i := 0; i < k; i++ {
				op := v07Op{Op: rapid.SampledFrom(ops).Draw(t, "op")}
				if c.Far > 0 && i == 0 {
					op.Op = "align"
				}
				switch op.Op {
				case "skip":
					op.N = uint(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 8, 8, 16, 32, 28}).Draw(t, "n"))
				case "extcheck", "extassert":
					op.Code = rapid.Uint32Range(0, 15).Draw(t, "id")
				default:
					op.Code = rapid.OneOf(rapid.SampledFrom(codes), rapid.Uint32Range(0x100, 0x1ff), rapid.Uint32()).Draw(t, "opcode")
				}
				op.PS = uniform(t, 4, "ps") == 2
				// codes that are there
				if v, ok := m.peek(32); ok {
					switch op.Op {
					case "bycheck":
						op.Op, op.Code = "check", v
					case "byassert":
						op.Op, op.Code = "assert", v
					case "byext":
						op.Op, op.Code = "extassert", v>>28
					}
				}
				switch op.Op {
				case "bycheck":
					op.Op = "check"
				case "byassert":
					op.Op = "assert"
				case "byext":
					op.Op, op.Code = "extassert", op.Code&15
				}
				m.run(op)
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Check: func(c v07Case, x *core.Ctx) error {
			data := c.data()
			src := core.NewChunks(data, c.Sizes)
			vs := video.NewVideoSequence(src)
			var br bitreader.BitReader = vs
			if !c.Video {
				br = bitreader.NewReader(src)
			}
			m := bitModel{data: data}
			for i, op := range c.Ops {
				want := m.run(op)
				var got string
				name := func(err, specific error) string {
					switch {
					case err == nil:
						return "ok"
					case specific != nil && err == specific:
						return "mismatch"
					}
					return "error"
				}
				switch op.Op {
				case "skip":
					got = name(br.Skip(op.N), nil)
				case "check":
					ok, err := video.StartCode(op.Code).Check(br)
					if op.PS {
						ok, err = ps.StartCode(op.Code).Check(br)
					}
					got = fmt.Sprint(ok)
					if err != nil {
						got = "error"
					}
				case "assert":
					if op.PS {
						got = name(ps.StartCode(op.Code).Assert(br), ps.ErrUnexpectedStartCode)
						break
					}
					got = name(video.StartCode(op.Code).Assert(br), video.ErrUnexpectedStartCode)
				case "extcheck":
					ok, err := video.ExtensionID(op.Code).Check(br)
					got = fmt.Sprint(ok)
					if err != nil {
						got = "error"
					}
				case "extassert":
					got = name(video.ExtensionID(op.Code).Assert(br), video.ErrUnexpectedExtensionID)
				case "align":
					got = name(vs.AlignTo(video.StartCode(op.Code)), nil)
				}
				if got != want {
					return fmt.Errorf("operation %d (%s %#x, %d): %s, expected %s", i, op.Op, op.Code, op.N, got, want)
				}
				x.Class("%s: %s", op.Op, got)
				if got == "error" && (op.Op == "align" || op.Op == "skip") {
					break // the end of the data: nothing more is defined
				}
			}
			if m.pos >= 0 {
				for m.pos < 8*len(data) {
					n := min(8, 8*len(data)-m.pos)
					want, _ := m.peek(n)
					got, err := br.Read32(uint(n))
					if err != nil || got != want {
						return fmt.Errorf("after the operations, at bit %d: read %#x, %v, expected %#x", m.pos, got, err, want)
					}
					m.pos += n
				}
				if _, err := br.Read1(); err == nil {
					return errors.New("after the operations: more bits than in the source")
				}
			}
			if len(c.Data) >= 4 {
				x.NonTrivial(append(append([]byte{}, c.Data...), fmt.Sprint(c.Far, c.Ops, c.Video)...))
			}
			return nil
		},
		Once: func(x *core.Ctx) error {
			for v := uint32(0); v < 1<<17; v++ {
				code := v
				if v >= 1<<16 {
					code = v<<15 ^ v*2654435761
				}
				want := code >= 0x101 && code <= 0x1AF
				if got := video.StartCode(code).IsSlice(); got != want {
					return fmt.Errorf("start code %#x: IsSlice is %v", code, got)
				}
			}
			for v := uint32(0); v < 16; v++ {
				want := v == 0 || v == 6 || v > 10
				if got := video.ExtensionID(v).IsReserved(); got != want {
					return fmt.Errorf("extension id %d: IsReserved is %v", v, got)
				}
			}
			for k, want := range map[video.StartCode]uint32{
				video.PictureStartCode: 0x100, video.UserDataStartCode: 0x1B2, video.SequenceHeaderStartCode: 0x1B3,
				video.ExtensionStartCode: 0x1B5, video.SequenceEndStartCode: 0x1B7, video.GroupStartCode: 0x1B8,
				video.MinSliceStartCode: 0x101, video.MaxSliceStartCode: 0x1AF,
			} {
				if uint32(k) != want {
					return fmt.Errorf("start code constant is %#x, the standard's value is %#x", uint32(k), want)
				}
			}
			for k, want := range map[ps.StartCode]uint32{
				ps.PackStartCode: 0x1BA, ps.SystemHeaderStartCode: 0x1BB, ps.ProgramEndCode: 0x1B9,
			} {
				if uint32(k) != want {
					return fmt.Errorf("start code constant is %#x, the standard's value is %#x", uint32(k), want)
				}
			}
			for k, want := range map[video.ExtensionID]uint32{
				video.SequenceExtensionID: 1, video.SequenceDisplayExtensionID: 2, video.QuantMatrixExtensionID: 3,
				video.CopyrightExtensionID: 4, video.SequenceScalableExtensionID: 5, video.PictureDisplayExtensionID: 7,
				video.PictureCodingExtensionID: 8, video.PictureSpatialScalableExtensionID: 9, video.PictureTemporalScalableExtensionID: 10,
			} {
				if uint32(k) != want {
					return fmt.Errorf("extension id constant is %d, the standard's value is %d", uint32(k), want)
				}
			}
			x.Count("classified values", 1<<17+16)
			return nil
		},
	})
}

// run applies an operation: the outcome and, in pos, what is left (-1: the end
// was passed).
func (m *bitModel) run(op v07Op) string {
	if m.pos < 0 {
		return "error"
	}
	switch op.Op {
	case "skip":
		if _, ok := m.peek(int(op.N)); !ok {
			m.pos = -1
			return "error"
		}
		m.pos += int(op.N)
		return "ok"
	case "check", "assert", "extcheck", "extassert":
		n := 32
		if op.Op[0] == 'e' {
			n = 4
		}
		v, ok := m.peek(n)
		switch {
		case !ok:
			return "error"
		case op.Op == "check" || op.Op == "extcheck":
			return fmt.Sprint(v == op.Code)
		case v != op.Code:
			return "mismatch"
		}
		m.pos += n
		return "ok"
	case "align":
		for p := (m.pos + 7) / 8 * 8; p+32 <= 8*len(m.data); p += 8 {
			q := bitModel{m.data, p}
			if v, _ := q.peek(32); v == op.Code {
				m.pos = p
				return "ok"
			}
		}
		m.pos = -1
		return "error"
	}
	return "ok"
}

// V08: headers.

type v08Case struct {
	Seq       mpv.SeqHeader
	GOP       mpv.GOP
	Broken    bool
	Stuffing  int
	Next      byte // start code after the header
	Sizes     []int
	Spoil     int // bit to invert: -1 none
	BeforeExt bool
}

// number reads a field that users see only when they print the header; a
// field of another name or shape is not looked at.
func number(f reflect.Value) (uint64, bool) {
	switch {
	case !f.IsValid():
	case f.CanUint():
		return f.Uint(), true
	case f.CanInt():
		return uint64(f.Int()), true
	case f.Kind() == reflect.Bool:
		if f.Bool() {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

func TestV08(t *testing.T) {
	core.Run(t, core.Prop[v08Case]{
		ID:   "V08",
		Rule: "both headers were parsed and compared field by field (or refused for an inverted marker or start code bit)",
		Gen: func(t *rapid.T) v08Case {
			dim := func(l string) int {
				return rapid.OneOf(rapid.IntRange(1, 16383), rapid.SampledFrom([]int{1, 720, 1920, 4095, 4097, 8191, 12289, 16383}), rapid.Map(rapid.IntRange(0, 13), func(b int) int { return 1 << b })).Draw(t, l)
			}
			c := v08Case{
				Seq:      *mpv.GenSeq(t, dim("w"), dim("h"), rapid.Bool().Draw(t, "prog"), mpv.Opts{Types: "IP", Matrices: 50}),
				GOP:      *mpv.GenGOP(t, rapid.Bool().Draw(t, "closed"), mpv.Opts{}),
				Broken:   rapid.Bool().Draw(t, "broken"),
				Stuffing: rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(t, "stuffing"),
				Next:     rapid.SampledFrom([]byte{0x00, 0x01, 0xB2, 0xB3, 0xB5, 0xB7, 0xB8}).Draw(t, "next"),
				Sizes:    mux.GenSizes(t, "chunks", false),
				Spoil:    -1,
			}
			c.Seq.Constrained = rapid.Bool().Draw(t, "constrained")
			c.Seq.Aspect = rapid.IntRange(0, 15).Draw(t, "aspectraw")
			c.Seq.Rate = rapid.IntRange(0, 15).Draw(t, "rateraw")
			c.Seq.BitRate = rapid.IntRange(0, 1<<18-1).Draw(t, "bitrateraw")
			if mux.Chance(t, 15, "spoiled") {
				c.Spoil = rapid.IntRange(0, 32).Draw(t, "spoil") // 32: the marker bit
			}
			return c
		},
		Check: func(c v08Case, x *core.Ctx) error {
			tail := make([]byte, c.Stuffing)
			tail = append(tail, 0, 0, 1, c.Next, 0x5A, 0xC3)
			left := func(br bitreader.BitReader, what string) error {
				for i, want := range []uint32{0, 0, 1, uint32(c.Next), 0x5A, 0xC3} {
					if v, err := br.Read32(8); err != nil || v != want {
						return fmt.Errorf("%s: byte %d after the header and stuffing is %#x, %v, expected %#x", what, i, v, err, want)
					}
				}
				return nil
			}

			// names, of defined values and others
			for _, v := range []uint32{0, 1, 2, 3, 4, 5, 7, uint32(c.Next), uint32(c.Seq.BitRate)} {
				name, known := map[uint32]string{1: "4:2:0", 2: "4:2:2", 3: "4:4:4"}[v]
				got := video.ChromaFormat(v).String()
				if known && got != name || !known && (got == "4:2:0" || got == "4:2:2" || got == "4:4:4") {
					return fmt.Errorf("chroma format %d is named %q", v, got)
				}
				name, known = map[uint32]string{1: "I", 2: "P", 3: "B", 4: "D"}[v]
				got = video.PictureCodingType(v).String()
				if known && got != name || !known && len(got) == 1 && strings.Contains("IPBD", got) {
					return fmt.Errorf("picture coding type %d is named %q", v, got)
				}
			}

			// sequence header
			e := &mpv.Enc{}
			c.Seq.Header(e)
			e.Align()
			seqBytes := append([]byte{}, e.Buf...)
			spoil := func(b []byte, marker int) []byte {
				out := append([]byte{}, b...)
				bit := c.Spoil
				if bit == 32 {
					bit = marker
				}
				out[bit/8] ^= 0x80 >> uint(bit%8)
				return out
			}
			if c.Spoil >= 0 {
				x.Class("inverted bit in the sequence header")
				_, err := video.ReadSequenceHeader(bitreader.NewReader(core.NewChunks(append(spoil(seqBytes, 32+12+12+4+4+18), tail...), c.Sizes)))
				want := video.ErrUnexpectedStartCode
				if c.Spoil == 32 {
					want = video.ErrMissingMarkerBit
				}
				if err != want {
					return fmt.Errorf("sequence header with bit %d inverted: %v, expected %v", c.Spoil, err, want)
				}
				if c.Spoil < 32 {
					gop := &mpv.Enc{}
					c.GOP.Write(gop)
					gop.Align()
					if _, err := video.ReadGOPHeader(bitreader.NewReader(core.NewChunks(append(spoil(gop.Buf, 0), tail...), c.Sizes))); err != video.ErrUnexpectedStartCode {
						return fmt.Errorf("group header with bit %d inverted: %v, expected %v", c.Spoil, err, video.ErrUnexpectedStartCode)
					}
				}
				x.NonTrivial(append(spoil(seqBytes, 84), c.Next))
				return nil
			}
			br := bitreader.NewReader(core.NewChunks(append(append([]byte{}, seqBytes...), tail...), c.Sizes))
			h, err := video.ReadSequenceHeader(br)
			if err != nil {
				return fmt.Errorf("sequence header: %v", err)
			}
			if err := left(br, "sequence header"); err != nil {
				return err
			}
			rv := reflect.ValueOf(h).Elem()
			for name, want := range map[string]int{
				"horizontal_size_value": c.Seq.W & 0xFFF, "vertical_size_value": c.Seq.H & 0xFFF,
				"aspect_ratio_information": c.Seq.Aspect, "frame_rate_code": c.Seq.Rate,
				"bit_rate_value": c.Seq.BitRate, "vbv_buffer_size_value": c.Seq.VBV,
			} {
				if v, ok := number(rv.FieldByName(name)); ok && v != uint64(want) {
					return fmt.Errorf("sequence header: %s is %d, expected %d", name, v, want)
				}
			}
			for name, want := range map[string]bool{
				"constrained_parameters_flag": c.Seq.Constrained, "load_intra_quantiser_matrix": c.Seq.Intra != nil, "load_non_intra_quantiser_matrix": c.Seq.NonIntra != nil,
			} {
				if v, ok := number(rv.FieldByName(name)); ok && (v != 0) != want {
					return fmt.Errorf("sequence header: %s is %v, expected %v", name, v != 0, want)
				}
			}
			for name, m := range map[string]*[64]uint8{"intra_quantiser_matrix": c.Seq.Intra, "non_intra_quantiser_matrix": c.Seq.NonIntra} {
				f := rv.FieldByName(name)
				if m == nil || f.Kind() != reflect.Array || f.Len() != 8 || f.Index(0).Kind() != reflect.Array || f.Index(0).Len() != 8 {
					continue
				}
				for k := range m {
					if got, ok := number(f.Index(k / 8).Index(k % 8)); ok && got != uint64(m[k]) {
						return fmt.Errorf("sequence header: %s value %d is %d, expected %d", name, k, got, m[k])
					}
				}
				x.Class("matrix")
			}

			// size
			all := &mpv.Enc{}
			c.Seq.Header(all)
			c.Seq.Extension(all)
			all.Align()
			vs := video.NewVideoSequence(core.NewChunks(append(append([]byte{}, all.Buf...), 0, 0, 1, 0xB7), c.Sizes))
			if w, h := vs.Size(); w != -1 || h != -1 {
				return fmt.Errorf("size before any header is %d,%d, expected -1,-1", w, h)
			}
			if img, err := vs.Next(); err == nil {
				return fmt.Errorf("a stream without pictures gave a picture: %v", img.Rect)
			}
			if w, h := vs.Size(); w != c.Seq.W || h != c.Seq.H {
				return fmt.Errorf("size is %d,%d, expected %d,%d", w, h, c.Seq.W, c.Seq.H)
			}

			// group header
			g := c.GOP
			g.Broken = c.Broken
			e = &mpv.Enc{}
			g.Write(e)
			e.Align()
			br = bitreader.NewReader(core.NewChunks(append(append([]byte{}, e.Buf...), tail...), c.Sizes))
			gh, err := video.ReadGOPHeader(br)
			if err != nil {
				return fmt.Errorf("group header: %v", err)
			}
			if err := left(br, "group header"); err != nil {
				return err
			}
			if gh.ClosedGOP != g.Closed || gh.BrokenLink != g.Broken {
				return fmt.Errorf("group header: closed %v, broken %v, expected %v, %v", gh.ClosedGOP, gh.BrokenLink, g.Closed, g.Broken)
			}
			want := video.TimeCode{DropFrame: g.Drop, Hours: int32(g.Hours), Minutes: int32(g.Minutes), Seconds: int32(g.Seconds), Pictures: int32(g.Frames)}
			tc := gh.TimeCode()
			if tc != want {
				return fmt.Errorf("time code is %+v, expected %+v", tc, want)
			}
			sep := byte(':')
			if g.Drop {
				sep = ';'
				x.Class("drop frame")
			}
			text := []byte("00:00:00:00")
			for i, v := range []int{g.Hours, g.Minutes, g.Seconds, g.Frames} {
				text[3*i], text[3*i+1] = byte('0'+v/10), byte('0'+v%10)
			}
			text[8] = sep
			if tc.String() != string(text) {
				return fmt.Errorf("time code reads %q, expected %q", tc.String(), text)
			}
			x.NonTrivial(append(append(seqBytes, e.Buf...), c.Next))
			return nil
		},
	})
}

// V09: malformed video.

type v09Case struct {
	Data    []byte
	Sizes   []int
	Err     string
	Align   bool
	After   uint32 // the header looked for after an error (0: none)
	Feature string // what the stream has that is not supported

	Lead *mpv.Stream `json:",omitempty"` // another, valid sequence that comes first

	// A valid stream with one syntax error, or cut off.
	S     *mpv.Stream `json:",omitempty"`
	Pic   int         // the picture that has the error
	Flaw  mpv.Flaw
	Stop  int // where the stream ends, in parts of 2^20 (0: at its end)
	Place uint64
}

func genLead(t *rapid.T) *mpv.Stream {
	if !mux.Chance(t, 15, "lead") {
		return nil
	}
	return mpv.GenStream(t, mpv.Opts{Types: "IPB", MaxPics: 3, MaxMB: 3, GroupMax: 3, Matrices: 10, Extras: 10})
}

func leadBytes(s *mpv.Stream) ([]byte, error) {
	if s == nil {
		return nil, nil
	}
	s.Expand()
	data := s.Encode().Buf
	if frames, err := decodeAll(bytes.NewReader(data), len(s.Items)); err != video.EOS || len(frames) != len(s.Items) {
		return nil, fmt.Errorf("the first sequence alone: %d of %d pictures, %v", len(frames), len(s.Items), err)
	}
	return data, nil
}

// readLead decodes the sequence that comes first, with its end.
func readLead(vs *video.VideoSequence, s *mpv.Stream) error {
	if s == nil {
		return nil
	}
	if frames, err := decodeOn(vs, len(s.Items)); err != video.EOS || len(frames) != len(s.Items) {
		return fmt.Errorf("the first sequence: %d of %d pictures, %v", len(frames), len(s.Items), err)
	}
	return nil
}

// tame makes announced picture sizes small, in most cases.
func tame(data []byte, big bool) []byte {
	for i := 0; i+8 < len(data); i++ {
		if data[i] != 0 || data[i+1] != 0 || data[i+2] != 1 {
			continue
		}
		switch {
		case data[i+3] == 0xB3 && !big:
			data[i+4] = 0 // at most 255 x 255
			data[i+5] &= 0xF0
		case data[i+3] == 0xB5 && data[i+4]>>4 == 1:
			data[i+5] &^= 1 // horizontal_size_extension, at most 4095
			data[i+6] &= 0x1F
		}
	}
	return data
}

func genVideoBytes(t *rapid.T) []byte {
	switch uniform(t, 10, "what") {
	case 0:
		return mux.Bytes(t, rapid.IntRange(0, 600).Draw(t, "len"), "noise")
	case 1:
		// start codes and noise
		var out []byte
		for n := rapid.IntRange(1, 12).Draw(t, "units"); n > 0; n-- {
			out = append(out, 0, 0, 1, rapid.SampledFrom([]byte{0, 1, 2, 0xAF, 0xB2, 0xB3, 0xB5, 0xB7, 0xB8, 0xB0}).Draw(t, "code"))
			if out[len(out)-1] == 0xB5 {
				out = append(out, byte(rapid.IntRange(0, 15).Draw(t, "ext")<<4)|rapid.Byte().Draw(t, "low")&15)
			}
			out = append(out, mux.Bytes(t, rapid.IntRange(0, 40).Draw(t, "len"), "unit")...)
		}
		return out
	}
	s := mpv.GenStream(t, mpv.Opts{Types: rapid.SampledFrom([]string{"IPB", "IP", "I"}).Draw(t, "types"), MinPics: uniform(t, 6, "minpics"), MaxPics: 8, MaxMB: 3, GroupMax: 6, Matrices: 20, Extras: 20, Repeat: 20})
	// sometimes with a picture, sequence or extension that does not fit
	for n := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "misfits"); n > 0; n-- {
		it := &s.Items[uniform(t, len(s.Items), "which")]
		switch rapid.IntRange(0, 5).Draw(t, "misfit") {
		case 0:
			it.Seq = nil
		case 1:
			it.Pic.NoCoding = true
		case 2:
			it.Pic.TR = rapid.IntRange(0, 1023).Draw(t, "tr")
		case 3:
			it.Pic.TypeCode = 1 + rapid.IntRange(0, 7).Draw(t, "type")
		case 4:
			it.End = true
		case 5:
			it.GOP = &mpv.GOP{}
		}
	}
	var data []byte
	func() {
		// the misfit may be one the encoder cannot do without
		defer func() { recover() }()
		first := s.Items[0].Seq
		if first == nil {
			s.Items[0].Seq = mpv.GenSeq(t, 32, 32, false, mpv.Opts{})
		}
		s.Expand()
		s.Items[0].Seq = first
		data = s.Encode().Buf
	}()
	if len(data) == 0 {
		return nil
	}
	out := append([]byte(nil), data...)
	if uniform(t, 10, "slices") < 5 {
		return damageSlices(t, out)
	}
	for n := rapid.IntRange(0, 2).Draw(t, "unitmoves"); n > 0; n-- {
		out = moveUnits(t, out)
	}
	return mutate(t, out)
}

// uniform draws from 0 to n-1 without rapid's liking for small values.
func uniform(t *rapid.T, n int, l string) int {
	z := rapid.Uint64().Draw(t, l)
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return int((z ^ z>>31) % uint64(n))
}

// damageSlices changes bytes of slices only, and leaves start codes alone:
// headers stay valid and the macroblock layer gets the damage.
func damageSlices(t *rapid.T, data []byte) []byte {
	var in []int // offsets in slices
	slice := false
	for i := 0; i < len(data); i++ {
		if i+3 < len(data) && data[i] == 0 && data[i+1] == 0 && data[i+2] == 1 {
			slice = data[i+3] >= 1 && data[i+3] <= 0xAF
			i += 3
			continue
		}
		if slice {
			in = append(in, i)
		}
	}
	if len(in) == 0 {
		return data
	}
	late := rapid.Bool().Draw(t, "late")
	for n := rapid.IntRange(1, 5).Draw(t, "hits"); n > 0; n-- {
		// rather late than early: what comes before is decoded
		k := in[uniform(t, len(in), "at")]
		if late {
			k = in[len(in)/2+uniform(t, len(in)-len(in)/2, "at")]
		}
		v := data[k]
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			v ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			v = rapid.Byte().Draw(t, "value")
		case 2:
			v = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 0x0F, 0xFF, 0x80}).Draw(t, "special")
		case 3:
			m := min(k+rapid.IntRange(1, 16).Draw(t, "span"), len(data))
			for j := k; j < m; j++ {
				if data[j] > 1 {
					data[j] = byte(mux.Noise(uint64(j)+1000, 1)[0])
				}
			}
			continue
		}
		data[k] = v
	}
	return data
}

// moveUnits deletes, doubles or exchanges whole units (from one start code to the next).
func moveUnits(t *rapid.T, data []byte) []byte {
	var at []int
	for i := 0; i+3 < len(data); i++ {
		if data[i] == 0 && data[i+1] == 0 && data[i+2] == 1 {
			at = append(at, i)
		}
	}
	if len(at) < 2 {
		return data
	}
	at = append(at, len(data))
	k := rapid.IntRange(0, len(at)-2).Draw(t, "unit")
	j := rapid.IntRange(0, len(at)-2).Draw(t, "other")
	unit := append([]byte{}, data[at[k]:at[k+1]]...)
	var out []byte
	for i := 0; i+1 < len(at); i++ {
		u := data[at[i]:at[i+1]]
		switch {
		case i == j:
			out = append(append(out, unit...), u...)
		case i == k && at[0]%2 == 0:
			// moved away
		default:
			out = append(out, u...)
		}
	}
	return append(append([]byte{}, data[:at[0]]...), out...)
}

var features = []string{"D picture", "reserved picture type", "forbidden picture type", "top field picture", "bottom field picture", "reserved structure", "4:2:2", "4:4:4", "reserved chroma format", "MPEG-1", "dual prime", "sequence scalable extension", "picture spatial scalable extension"}

// unsupported makes picture k of the stream, or its sequence, have a feature.
func unsupported(s *mpv.Stream, k int, feature string) {
	p := s.Items[k].Pic
	seq := func(f func(*mpv.SeqHeader)) {
		for i := range s.Items {
			if s.Items[i].Seq != nil {
				f(s.Items[i].Seq)
			}
		}
	}
	switch feature {
	case "D picture":
		p.TypeCode = 1 + 4
	case "reserved picture type":
		p.TypeCode = 1 + 5 + k%3
	case "forbidden picture type":
		p.TypeCode = 1
	case "top field picture":
		p.Structure = 1
	case "bottom field picture":
		p.Structure = 2
	case "reserved structure":
		p.Structure = 0
	case "4:2:2":
		seq(func(h *mpv.SeqHeader) { h.Chroma = 2 })
	case "4:4:4":
		seq(func(h *mpv.SeqHeader) { h.Chroma = 3 })
	case "reserved chroma format":
		seq(func(h *mpv.SeqHeader) { h.Chroma = 0 })
	case "MPEG-1":
		seq(func(h *mpv.SeqHeader) { h.NoExt = true })
	case "dual prime":
		p.MotionType = 1 + 3
		p.ProgFrame, p.FramePred, p.Mix.Skip, p.Mix.Intra, p.Mix.NoMC, p.Mix.Fwd = false, false, 0, 0, 0, 100
	case "sequence scalable extension":
		seq(func(h *mpv.SeqHeader) { h.Extras = append(h.Extras, mpv.Extra{Kind: "raw", Data: []byte{0x50, 0x40}}) })
	case "picture spatial scalable extension":
		p.Extras = append(p.Extras, mpv.Extra{Kind: "raw", Data: []byte{0x90, 0x20, 0x40, 0x10, 0x21, 0x84}})
	}
}

// namedErrs are the errors the package has for one thing in particular.
var namedErrs = map[string]error{
	"4:2:2":                               video.ErrUnsupportedChromaFormat,
	"4:4:4":                               video.ErrUnsupportedChromaFormat,
	"reserved chroma format":              video.ErrUnsupportedChromaFormat,
	"top field picture":                   video.ErrUnsupportedPictureStructure,
	"bottom field picture":                video.ErrUnsupportedPictureStructure,
	"reserved structure":                  video.ErrUnsupportedPictureStructure,
	"MPEG-1":                              video.ErrUnsupportedVideoStream_ISO_IEC_11172_2,
	"dual prime":                          video.ErrUnsupportedDualPrime,
	"sequence scalable extension":         video.ErrUnsupportedScalability,
	"picture spatial scalable extension":  video.ErrUnsupportedScalability,
	"sequence header marker":              video.ErrMissingMarkerBit,
	"sequence extension marker":           video.ErrMissingMarkerBit,
	"display extension marker":            video.ErrMissingMarkerBit,
	"temporal extension marker":           video.ErrMissingMarkerBit,
	"concealment marker":                  video.ErrMissingMarkerBit,
	"junk after sequence header":          video.ErrUnexpectedNonZeroByte,
	"junk after sequence extension":       video.ErrUnexpectedNonZeroByte,
	"junk after group header":             video.ErrUnexpectedNonZeroByte,
	"junk after picture header":           video.ErrUnexpectedNonZeroByte,
	"junk after picture coding extension": video.ErrUnexpectedNonZeroByte,
	"wrong extension":                     video.ErrUnexpectedExtensionID,
	"slice reserved bits":                 video.ErrInvalidReservedBits,
	"motion type":                         video.ErrInvalidMotionType,
	"f_code":                              video.ErrInvalidFCode,
	"vector outside":                      video.ErrOutsidePicture,
	"skipped vector outside":              video.ErrOutsidePicture,
	"slice row":                           video.ErrOutsidePicture,
	"macroblock address past the edge":    video.ErrOutsidePicture,
	"reference size":                      video.ErrReferenceSize,
	"coefficients":                        video.ErrTooManyCoefficients,
}

var (
	v09Vias = []string{"", "align"}
	v09Errs = []string{"", "custom", "unexpected"}
)

func TestV09(t *testing.T) {
	core.Run(t, core.Prop[v09Case]{
		ID: "V09",
		FromBytes: func(data []byte) (c v09Case) {
			var via string
			via, c.Err, c.Sizes, c.Data = fuzzHead(data, v09Vias, v09Errs)
			c.Align = via == "align"
			c.Data = tame(c.Data, false)
			return
		},
		Bytes: func(c v09Case) []byte {
			if c.S != nil {
				return []byte{0, 0, 0}
			}
			return fuzzBytes(c.Data, "", c.Err, v09Vias, v09Errs)
		},
		Rule:     "non-empty input that is not a valid, supported stream, or a failing source, decoded until the end; pictures have the announced size, are not more than the picture headers, and asking goes on after errors",
		CPULimit: 90 * time.Second,
		Gen: func(t *rapid.T) v09Case {
			c := v09Case{Sizes: mux.GenSizes(t, "chunks", false), Err: rapid.SampledFrom([]string{"", "", "", "custom", "unexpected"}).Draw(t, "err"), Align: mux.Chance(t, 20, "align")}
			if mux.Chance(t, 35, "flawed") {
				c.Align = false
				c.Flaw.Kind = mpv.Flaws[uniform(t, len(mpv.Flaws), "flaw")]
				types := "IPB"
				if strings.HasPrefix(c.Flaw.Kind, "slice") || strings.HasPrefix(c.Flaw.Kind, "concealment") {
					types = rapid.SampledFrom([]string{"I", "IP", "IPB"}).Draw(t, "types")
				}
				extras := 10
				if strings.HasSuffix(c.Flaw.Kind, "extension marker") {
					extras = 60
				}
				mb, group := 4, 6
				switch c.Flaw.Kind {
				case "skipped vector outside":
					mb = 9
				case "reference size":
					group = 3
				}
				c.S = mpv.GenStream(t, mpv.Opts{Types: types, MinPics: 1 + uniform(t, 6, "minpics"), MaxPics: 8, MaxMB: mb, GroupMax: group, Matrices: 10, Extras: extras, Repeat: 30})
				c.Pic = uniform(t, len(c.S.Items), "pic")
				c.Place = rapid.Uint64().Draw(t, "place")
				if mux.Chance(t, 12, "stop") {
					c.Flaw.Kind = ""
					c.Stop = 1 + uniform(t, 1<<20-1, "stopat")
				}
				c.Lead = genLead(t)
				return c
			}
			if mux.Chance(t, 15, "feature") {
				c.Feature = rapid.SampledFrom(features).Draw(t, "featurename")
				c.Err = ""
				types := "IPB"
				if c.Feature == "dual prime" {
					types = "IP"
				}
				s := mpv.GenStream(t, mpv.Opts{Types: types, MaxPics: 5, MaxMB: 3, GroupMax: 5, Repeat: 20})
				k := rapid.IntRange(0, len(s.Items)-1).Draw(t, "which")
				if c.Feature == "dual prime" {
					for k < len(s.Items) && s.Items[k].Pic.Type != 'P' {
						k++
					}
					if k == len(s.Items) {
						c.Feature, k = "D picture", 0
					}
				}
				unsupported(s, k, c.Feature)
				s.Expand()
				c.Data = s.Encode().Buf
				c.Lead = genLead(t)
				return c
			}
			c.Data = tame(genVideoBytes(t), mux.Chance(t, 1, "big"))
			if mux.Chance(t, 40, "after") {
				c.After = rapid.SampledFrom([]uint32{0x1B3, 0x1B8, 0x100, 0x1B5, 0x1B7, 0x101}).Draw(t, "aftercode")
			}
			return c
		},
		Check: func(c v09Case, x *core.Ctx) error {
			if c.S != nil {
				return c.checkFlawed(x)
			}
			var pictures int
			for i := 0; i+3 < len(c.Data); i++ {
				if c.Data[i] == 0 && c.Data[i+1] == 0 && c.Data[i+2] == 1 && c.Data[i+3] == 0 {
					pictures++
				}
			}
			lead, err := leadBytes(c.Lead)
			if err != nil {
				return err
			}
			src := core.NewChunks(append(lead, c.Data...), c.Sizes)
			src.Err = srcErr(c.Err)
			vs := video.NewVideoSequence(src)
			if err := readLead(vs, c.Lead); err != nil {
				return err
			}
			bits := &core.CountingBits{BitReader: vs.BitReader, Budget: 200000 + 400*len(c.Data)}
			vs.BitReader = bits
			if c.Align {
				if err := vs.AlignTo(video.SequenceHeaderStartCode); err != nil {
					x.Class("no sequence header")
					return nil
				}
			}
			frames, errs := 0, 0
			var first error
			for errs < 6 {
				img, err := vs.Next()
				if w, h := vs.Size(); (w < 0) != (h < 0) || w >= 1<<14 || h >= 1<<14 {
					return fmt.Errorf("size is %d,%d", w, h)
				}
				if err != nil {
					if img != nil {
						return fmt.Errorf("both a picture and an error: %v", err)
					}
					if first == nil {
						first = err
					}
					errs++
					if c.After > 0 {
						// go on from the next header; at the end there is none
						vs.AlignTo(video.StartCode(c.After))
					}
					continue
				}
				if img == nil {
					return errors.New("neither a picture nor an error")
				}
				frames++
				if frames > pictures {
					return fmt.Errorf("%d pictures from %d picture start codes", frames, pictures)
				}
				f, err := mpv.FrameOf(img)
				if err != nil {
					return err
				}
				if errs == 0 {
					w, h := vs.Size()
					// a header announcing another size may have come since
					if !(f.W >= w && f.W-w < 16 && f.H >= h && f.H-h < 32) && bytes.Count(c.Data, []byte{0, 0, 1, 0xB3}) < 2 {
						return fmt.Errorf("picture of %dx%d, announced %dx%d", f.W, f.H, w, h)
					}
				}
			}
			if c.Feature != "" {
				if first == video.EOS || first == io.EOF || first == nil {
					return fmt.Errorf("stream with an unsupported feature (%s): %v", c.Feature, first)
				}
				if frames >= pictures {
					return fmt.Errorf("stream with an unsupported feature (%s): all %d pictures were decoded", c.Feature, frames)
				}
				if want := namedErrs[c.Feature]; want != nil && !errors.Is(first, want) {
					return fmt.Errorf("stream with an unsupported feature (%s): error %q, want %q", c.Feature, first, want)
				}
				x.Class("unsupported: %s", c.Feature)
			}
			x.Class("first error: %v", first)
			if frames > 0 {
				x.Class("with pictures")
			}
			if len(c.Data) > 0 && (first != video.EOS || c.Err != "") {
				x.NonTrivial(append([]byte(c.Err), c.Data...))
			}
			return nil
		},
	})
}

// checkFlawed decodes a valid stream, and then the same with one syntax error or
// cut off: the pictures that come before the flaw are the same.
func (c *v09Case) checkFlawed(x *core.Ctx) error {
	s := c.S
	flaw := c.Flaw
	for i := range s.Items {
		s.Items[i].Pic.Flaw = nil
	}
	s.Expand()
	good := s.Encode()
	want, err := decodeAll(bytes.NewReader(good.Buf), len(s.Items))
	if err != video.EOS || len(want) != len(s.Items) {
		return fmt.Errorf("the stream without the error: %d of %d pictures, %v", len(want), len(s.Items), err)
	}

	data := good.Buf
	last := len(s.Items) // pictures before this one are certainly complete
	most := last         // pictures before this one may be complete
	what := "cut off"
	if flaw.Kind == "reference size" {
		what = "with a reference picture of another size"
		made, by := false, byte(0)
		for i := 0; i < 2*len(s.Items) && !made; i++ {
			k := (c.Pic + i) % len(s.Items)
			it := &s.Items[k]
			if c.Place&1 == 0 && i < len(s.Items) && it.Pic.Type == 'P' {
				continue // rather an I picture, and a B picture behind it
			}
			if k == 0 || it.End || it.Pic.Type == 'B' {
				continue
			}
			// another size from here on, without an end of the sequence
			seq, old := *s.Items[0].Seq, it.Seq
			seq.Extras = nil
			w, h := seq.MBSize()
			switch c.Place >> 8 % 4 {
			case 0:
				seq.W += 16
			case 1, 2:
				seq.H += 32
			case 3:
				if seq.H -= 32; seq.H < 1 {
					seq.H += 64
				}
			}
			if nw, nh := seq.MBSize(); nw == w && nh == h {
				continue
			}
			it.Seq = &seq
			s.Expand()
			last = k
			switch it.Pic.Type {
			case 'P':
				made = it.Pic.Past()
			case 'I':
				last = k + 1
				made = last < len(s.Items) && s.Items[last].Seq == nil && s.Items[last].Pic.Type == 'B' && s.Items[last].Pic.Past()
			}
			if made {
				data = s.Encode().Buf
				most = last
				by = s.Items[last].Pic.Type
			}
			it.Seq = old
		}
		if !made {
			x.Class("no place for: %s", flaw.Kind)
			return nil
		}
		x.Class("flaw: %s, of a %c picture", flaw.Kind, by)
	} else if flaw.Kind != "" {
		what = "with an error (" + flaw.Kind + ")"
		// the places it can be at, in this picture or one of the following
		made := false
		for i := 0; i < len(s.Items) && !made; i++ {
			k := (c.Pic + i) % len(s.Items)
			p := s.Items[k].Pic
			p.Flaw = &mpv.Flaw{Kind: flaw.Kind, At: -1}
			s.Expand()
			if n := s.Encode().Places; n > 0 {
				p.Flaw.At = int(c.Place % uint64(n))
				e := s.Encode()
				data, made = e.Buf, e.Made
				last, most = k, k
			}
			p.Flaw = nil
		}
		if !made {
			x.Class("no place for: %s", flaw.Kind)
			return nil
		}
		x.Class("flaw: %s", flaw.Kind)
	}
	if c.Stop > 0 {
		n := int(int64(len(data)) * int64(c.Stop) >> 20)
		data = data[:n]
		last, most = 0, 0
		for i, from := range good.Pics {
			// where the data of the picture end
			end := len(good.Buf)
			for _, m := range good.Marks {
				if m > from && m+3 < len(good.Buf) {
					if code := good.Buf[m+3]; code != 0xB5 && code != 0xB2 && !(code >= 1 && code <= 0xAF) {
						end = m
						break
					}
				}
			}
			if end <= n {
				most = i + 1
			}
			if end+4 <= n {
				last = i + 1
			}
		}
		x.Class("cut off")
	}
	lead, err := leadBytes(c.Lead)
	if err != nil {
		return err
	}
	if lead != nil {
		x.Class("behind another sequence")
	}
	src := core.NewChunks(append(lead, data...), c.Sizes)
	src.Err = srcErr(c.Err)
	vs := video.NewVideoSequence(src)
	if err := readLead(vs, c.Lead); err != nil {
		return err
	}
	frames, err := decodeOn(vs, len(s.Items)+2)
	if err == nil || err == video.EOS {
		return fmt.Errorf("%s in picture %d in coded order: %d pictures, then %v, expected an error other than that", what, last, len(frames), err)
	}
	// what is output before picture k in coded order is needed
	before := func(k int) (n int) {
		order, _ := s.Display()
		at := make([]int, len(order))
		for i, o := range order {
			at[o] = i
		}
		for n < len(at) && at[n] < k {
			n++
		}
		return
	}
	if lo, hi := before(last), before(most); len(frames) < lo || len(frames) > hi {
		return fmt.Errorf("%s in picture %d in coded order: %d pictures, then %v; %d come before it in display order", what, last, len(frames), err, lo)
	}
	if err := sameFrames(what+", compared with the stream without", frames, want[:len(frames)]); err != nil {
		return err
	}
	if want := namedErrs[flaw.Kind]; c.Stop == 0 && want != nil && !errors.Is(err, want) {
		return fmt.Errorf("%s in picture %d in coded order: error %q, want %q", what, last, err, want)
	}
	x.Count("pictures before a flaw", len(frames))
	x.NonTrivial(append([]byte(c.Err), data...))
	return nil
}

// V11: only the bytes matter.

type v11Case struct {
	S      mpv.Stream
	Damage []byte // positions (two bytes) and values: the stream is damaged
	Sizes  [][]int
}

func TestV11(t *testing.T) {
	core.Run(t, core.Prop[v11Case]{
		ID:   "V11",
		Rule: "at least one picture decoded the same way from all chunkings, repetitions and (undamaged streams) with stuffing before start codes",
		Gen: func(t *rapid.T) v11Case {
			c := v11Case{S: *mpv.GenStream(t, mpv.Opts{Types: "IPB", MaxPics: 6, MaxMB: 3, GroupMax: 5, Matrices: 20, Extras: 20, Repeat: 20})}
			c.S.StuffSeed = rapid.Uint64().Draw(t, "stuffs")
			if mux.Chance(t, 35, "damaged") {
				c.Damage = rapid.SliceOfN(rapid.Byte(), 3, 9).Draw(t, "damage")
			}
			for n := rapid.IntRange(1, 3).Draw(t, "chunkings"); n > 0; n-- {
				c.Sizes = append(c.Sizes, mux.GenSizes(t, "chunks", false))
			}
			return c
		},
		Check: func(c v11Case, x *core.Ctx) error {
			c.S.Expand()
			c.S.Stuff = 0
			data := c.S.Encode().Buf
			for i := 0; i+2 < len(c.Damage); i += 3 {
				data[(int(c.Damage[i])<<8|int(c.Damage[i+1]))%len(data)] = c.Damage[i+2]
			}
			if len(c.Damage) > 0 {
				data = tame(data, false)
			}
			decode := func(r io.Reader) ([]*mpv.Frame, string) {
				f, err := decodeAll(r, len(c.S.Items)+20)
				return f, fmt.Sprint(err)
			}
			frames, end := decode(bytes.NewReader(data))
			for i := -1; i < len(c.Sizes); i++ {
				what := "a second time"
				var src io.Reader = bytes.NewReader(data)
				if i >= 0 {
					what = fmt.Sprintf("in chunks of %v", c.Sizes[i])
					src = core.NewChunks(data, c.Sizes[i])
				}
				f, e := decode(src)
				if err := sameFrames(what, f, frames); err != nil {
					return err
				}
				if e != end {
					return fmt.Errorf("%s the end is %s, otherwise %s", what, e, end)
				}
			}
			if len(c.Damage) == 0 {
				c.S.Stuff = 60
				stuffed := c.S.Encode().Buf
				f, e := decode(bytes.NewReader(stuffed))
				if err := sameFrames("with stuffing", f, frames); err != nil {
					return err
				}
				if e != end {
					return fmt.Errorf("with stuffing the end is %s, without %s", e, end)
				}
				x.Count("stuffing bytes", len(stuffed)-len(data))
			} else {
				x.Class("damaged")
			}
			x.Class("end: %s", end)
			if len(frames) > 0 {
				x.NonTrivial(append(append(key(&c.S), c.Damage...), fmt.Sprint(c.Sizes)...))
			}
			return nil
		},
	})
}

// E01, E02: video in transport and program streams.

type e2eCase struct {
	S       mpv.Stream
	Junk    int // bytes before the first sequence header
	Cuts    []int
	Headers []*mux.PESHeader
	PID     uint32
	Zero    bool // PES packets without length
	Stuff   []int
	Others  []int
	Packs   []mux.PSPackHeader
	PerPack []int
	End     bool
	Sizes   []int
}

func genE2E(t *rapid.T, program bool) e2eCase {
	c := e2eCase{
		S:     *mpv.GenStream(t, mpv.Opts{Types: "IPB", MaxPics: 5, MaxMB: 3, Big: 1, GroupMax: 4, Matrices: 10, Extras: 10, Repeat: 20}),
		PID:   rapid.SampledFrom([]uint32{0x21, 0x10, 0x1ffe, 0x31, 0x101}).Draw(t, "pid"),
		Cuts:  rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 50), rapid.IntRange(1, 3000), rapid.SampledFrom([]int{184, 2000, 65000, 400000})), 1, 6).Draw(t, "cuts"),
		Zero:  mux.Chance(t, 30, "zero") && !program,
		Sizes: mux.GenSizes(t, "chunks", false),
	}
	if mux.Chance(t, 30, "junk") {
		c.Junk = rapid.IntRange(1, 400).Draw(t, "junklen")
	}
	for n := rapid.IntRange(1, 4).Draw(t, "nheaders"); n > 0; n-- {
		c.Headers = append(c.Headers, mux.GenPESHeader(t))
	}
	if program {
		for n := rapid.IntRange(1, 3).Draw(t, "npacks"); n > 0; n-- {
			c.Packs = append(c.Packs, mux.GenPackHeader(t, 3))
		}
		c.PerPack = rapid.SliceOfN(rapid.IntRange(0, 4), 1, 5).Draw(t, "perpack")
		c.PerPack = append(c.PerPack, 1)
		c.End = rapid.Bool().Draw(t, "end")
		return c
	}
	if mux.Chance(t, 40, "stuff") {
		c.Stuff = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 50, 183}), 1, 4).Draw(t, "stuffing")
	}
	if mux.Chance(t, 50, "others") {
		c.Others = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 4).Draw(t, "foreign")
	}
	return c
}

// packets cuts the video into PES packets.
func (c *e2eCase) packets(es []byte) (out []mux.PESPacket) {
	for i := 0; len(es) > 0; i++ {
		h := c.Headers[i%len(c.Headers)]
		n := min(c.Cuts[i%len(c.Cuts)], len(es))
		if !c.Zero {
			n = min(n, 0xFFFF-3-h.DataLen())
		}
		out = append(out, mux.PESPacket{StreamID: 0xE0, H: h, Payload: es[:n:n], Unbounded: c.Zero})
		es = es[n:]
	}
	return
}

// video is the elementary stream: junk without start codes, then the stream.
func (c *e2eCase) video() (es, bare []byte) {
	c.S.Expand()
	bare = c.S.Encode().Buf
	for i := 0; i < c.Junk; i++ {
		es = append(es, byte(i*7+3)|1)
	}
	return append(es, bare...), bare
}

func (c *e2eCase) compare(src io.Reader, bare []byte, what string, x *core.Ctx) error {
	want, wantErr := decodeAll(bytes.NewReader(bare), len(c.S.Items))
	if wantErr != video.EOS || len(want) != len(c.S.Items) {
		return fmt.Errorf("bare stream: %d of %d pictures, %v", len(want), len(c.S.Items), wantErr)
	}
	vs := video.NewVideoSequence(src)
	if err := vs.AlignTo(video.SequenceHeaderStartCode); err != nil {
		return fmt.Errorf("%s: aligning to the sequence header: %v", what, err)
	}
	got, err := decodeOn(vs, len(c.S.Items))
	if e := sameFrames(what, got, want); e != nil {
		return fmt.Errorf("%w (the end was %v)", e, err)
	}
	if err != wantErr {
		return fmt.Errorf("%s: ends with %v, the bare stream with %v", what, err, wantErr)
	}
	x.Count("pictures", len(got))
	return nil
}

func TestE01(t *testing.T) {
	core.Run(t, core.Prop[e2eCase]{
		ID:   "E01",
		Rule: "all pictures decoded from the transport stream equal those of the bare stream; at least two transport packets carry the video",
		Gen:  func(t *rapid.T) e2eCase { return genE2E(t, false) },
		Check: func(c e2eCase, x *core.Ctx) error {
			es, bare := c.video()
			var units [][]byte
			for _, p := range c.packets(es) {
				units = append(units, p.Bytes())
			}
			stream := mux.Transport(units, c.PID, c.Stuff, c.Others)
			r := pes.NewPayloadReader(ts.NewPayloadUnitReader(core.NewChunks(stream, c.Sizes), ts.IsPID(c.PID)))
			if err := c.compare(r, bare, "from the transport stream", x); err != nil {
				return err
			}
			x.Count("transport packets", len(stream)/188)
			x.Count("PES packets", len(units))
			if c.Zero {
				x.Class("PES packets without length")
			}
			if len(stream) > 2*188 {
				x.NonTrivial(stream)
			}
			return nil
		},
	})
}

func TestE02(t *testing.T) {
	core.Run(t, core.Prop[e2eCase]{
		ID:   "E02",
		Rule: "all pictures decoded from the program stream equal those of the bare stream; at least two PES packets carry the video",
		Gen:  func(t *rapid.T) e2eCase { return genE2E(t, true) },
		Check: func(c e2eCase, x *core.Ctx) error {
			es, bare := c.video()
			pk := c.packets(es)
			total := len(pk)
			var packs []mux.PSPack
			for i := 0; len(pk) > 0 || i == 0; i++ {
				n := min(c.PerPack[i%len(c.PerPack)], len(pk))
				packs = append(packs, mux.PSPack{H: c.Packs[i%len(c.Packs)], Packets: pk[:n]})
				pk = pk[n:]
			}
			stream, _ := mux.ProgramBytes(packs)
			if c.End {
				stream = append(stream, mux.ProgramEnd...)
			}
			if err := c.compare(ps.NewPackReader(core.NewChunks(stream, c.Sizes)), bare, "from the program stream", x); err != nil {
				return err
			}
			x.Count("packs", len(packs))
			x.Count("PES packets", total)
			if total >= 2 {
				x.NonTrivial(stream)
			}
			return nil
		},
	})
}
