package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/32bitkid/mpeg/video"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mpv"
	"verifharness/mux"
)

// V12: several sequences, one after the other.

type v12Case struct {
	S     []mpv.Stream
	Gaps  []int // zero bytes after the end code of each sequence
	Sizes []int
}

func TestV12(t *testing.T) {
	core.Run(t, core.Prop[v12Case]{
		ID:   "V12",
		Rule: "at least two sequences in one source, every picture of the second and later ones compared with the same sequence decoded alone",
		Gen: func(t *rapid.T) v12Case {
			c := v12Case{Sizes: mux.GenSizes(t, "chunks", false)}
			n := rapid.IntRange(1, 4).Draw(t, "sequences")
			for i := 0; i < n; i++ {
				switch {
				case i > 0 && mux.Chance(t, 15, "same"):
					c.S = append(c.S, c.S[i-1])
				case mux.Chance(t, 20, "long"):
					c.S = append(c.S, *mpv.GenLong(t, rapid.IntRange(2, 30).Draw(t, "n")))
				default:
					c.S = append(c.S, *mpv.GenStream(t, mpv.Opts{Types: "IPB", Plain: mux.Chance(t, 50, "plain"), MaxPics: 6, MaxMB: 4, GroupMax: 4, Matrices: 30, Extras: 15, Repeat: 20, Sequences: 15, Orphans: 30}))
				}
				c.Gaps = append(c.Gaps, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 7, 40}).Draw(t, "gap"))
			}
			c.Gaps[n-1] = 0
			return c
		},
		Check: func(c v12Case, x *core.Ctx) error {
			var data []byte
			var parts [][]byte
			// every stream may itself hold several sequences; each of them alone:
			for i := range c.S {
				c.S[i].Expand()
				b := c.S[i].Encode().Buf
				data = append(data, b...)
				data = append(data, make([]byte, c.Gaps[i])...)
				parts = append(parts, sequences(b)...)
			}
			vs := video.NewVideoSequence(core.NewChunks(data, c.Sizes))
			shown := 0
			for i, p := range parts {
				// a limit well above what it can be
				want, err := decodeAll(bytes.NewReader(p), 1000)
				if err != video.EOS {
					return fmt.Errorf("sequence %d alone, after %d pictures: %v, expected %v", i, len(want), err, video.EOS)
				}
				got, err := decodeOn(vs, len(want))
				if err != video.EOS {
					return fmt.Errorf("sequence %d of %d, after %d of %d pictures: %v, expected %v", i, len(parts), len(got), len(want), err, video.EOS)
				}
				if err := sameFrames(fmt.Sprintf("sequence %d, compared with decoding it alone", i), got, want); err != nil {
					return err
				}
				alone := video.NewVideoSequence(bytes.NewReader(p))
				if _, err := alone.Next(); err != nil {
					return fmt.Errorf("sequence %d alone: %v", i, err)
				}
				w, h := alone.Size()
				if gw, gh := vs.Size(); gw != w || gh != h {
					return fmt.Errorf("sequence %d: size %d x %d, alone %d x %d", i, gw, gh, w, h)
				}
				if i > 0 {
					shown += len(got)
				}
			}
			if img, err := vs.Next(); err == nil || img != nil {
				return fmt.Errorf("after the end of the last sequence: picture %v, error %v, expected an error only", img != nil, err)
			}
			x.Class("%d sequences", len(parts))
			x.Count("pictures of later sequences", shown)
			if shown > 0 {
				var b []byte
				for i := range c.S {
					b = append(b, key(&c.S[i])...)
				}
				x.NonTrivial(append(b, fmt.Sprint(c.Gaps, c.Sizes)...))
			}
			return nil
		},
	})
}

// sequences splits a stream at its sequence_end_codes.
func sequences(b []byte) (out [][]byte) {
	for len(b) > 0 {
		k := bytes.Index(b, []byte{0, 0, 1, 0xB7})
		if k < 0 {
			return append(out, b)
		}
		out = append(out, b[:k+4])
		b = b[k+4:]
		// stuffing before the next header
		n := 0
		for n < len(b) && b[n] == 0 {
			n++
		}
		if n == len(b) {
			break
		}
		if n > 2 {
			b = b[n-2:]
		}
	}
	return out
}

// V13: pictures are returned as soon as they can be.

var errNotYet = errors.New("verif: read further than the picture asked for needs")

// live hands out the data up to Limit; reading on is an error.
type live struct {
	data  []byte
	off   int
	limit int
	over  bool // asked for more than that
	sizes []int
	i     int
}

func (l *live) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if l.off >= l.limit {
		if l.limit == len(l.data) {
			return 0, io.EOF
		}
		l.over = true
		return 0, errNotYet
	}
	n := min(len(p), l.limit-l.off)
	if len(l.sizes) > 0 {
		n = min(n, max(1, l.sizes[l.i%len(l.sizes)]))
		l.i++
	}
	copy(p, l.data[l.off:l.off+n])
	l.off += n
	return n, nil
}

// firstSlices gives, for every picture, the offset behind its first slice start code.
func firstSlices(b []byte) (out []int) {
	in := false
	for i := 0; i+3 < len(b); i++ {
		if b[i] != 0 || b[i+1] != 0 || b[i+2] != 1 {
			continue
		}
		if b[i+3] == 0 {
			in = true
		} else if in && b[i+3] <= 0xAF {
			out = append(out, i+4)
			in = false
		}
	}
	return out
}

func TestV13(t *testing.T) {
	type c13 struct {
		S     mpv.Stream
		Sizes []int
	}
	core.Run(t, core.Prop[c13]{
		ID:   "V13",
		Rule: "at least two pictures, each asked for before the picture following the ones it needs had arrived",
		Gen: func(t *rapid.T) c13 {
			c := c13{Sizes: mux.GenSizes(t, "chunks", false)}
			if mux.Chance(t, 30, "long") {
				c.S = *mpv.GenLong(t, rapid.IntRange(2, 60).Draw(t, "n"))
			} else {
				c.S = *mpv.GenStream(t, mpv.Opts{Types: "IPB", Plain: mux.Chance(t, 60, "plain"), MaxPics: 12, MaxMB: 3, GroupMax: 8, Repeat: 20, Extras: 15, Sequences: 10})
			}
			return c
		},
		Check: func(c c13, x *core.Ctx) error {
			s := &c.S
			s.Expand()
			data := s.Encode().Buf
			slices := firstSlices(data)
			if len(slices) != len(s.Items) {
				return fmt.Errorf("verif: %d first slices for %d pictures", len(slices), len(s.Items))
			}
			// how much of the stream is needed when item k is not: up to its first
			// slice start code, or up to the sequence_end_code before it
			upTo := func(k int) int {
				if s.Items[k].End {
					return bytes.LastIndex(data[:slices[k]], []byte{0, 0, 1, 0xB7}) + 4
				}
				return slices[k]
			}
			order, _ := s.Display()
			at := make([]int, len(order)) // display position -> coded index
			for i, o := range order {
				at[o] = i
			}
			src := &live{data: data, sizes: c.Sizes}
			vs := video.NewVideoSequence(src)
			if w, h := vs.Size(); w != -1 || h != -1 {
				return fmt.Errorf("size before the first picture: %d x %d, expected -1 x -1", w, h)
			}
			type seen struct {
				p    *video.PictureHeader
				g    *video.GroupOfPicturesHeader
				text string
			}
			var headers []seen
			needed := -1
			var gop *mpv.GOP
			var seq *mpv.SeqHeader
			early := 0
			for d := range at {
				if s.Items[max(needed, 0)].Pic != nil && needed >= 0 && needed+1 < len(s.Items) && s.Items[needed+1].End && at[d] > needed {
					// the sequence ends first
					src.limit = upTo(needed + 1)
					if _, err := vs.Next(); err != video.EOS {
						return fmt.Errorf("after the last picture of a sequence, with the stream up to its end code: %v, expected %v", err, video.EOS)
					}
					if src.over {
						return errors.New("the end of a sequence: asked for more than its end code")
					}
				}
				for needed < at[d] {
					if needed >= 0 && s.Items[needed+1].End {
						gop = nil // that of another sequence
					}
					needed++
					if g := s.Items[needed].GOP; g != nil {
						gop = g
					}
					if q := s.Items[needed].Seq; q != nil {
						seq = q
					}
				}
				src.limit = len(data)
				if needed+1 < len(slices) {
					src.limit = upTo(needed + 1)
					early++
				}
				img, err := vs.Next()
				if err != nil {
					return fmt.Errorf("picture %d of %d in display order, with the stream up to the first slice of picture %d in coded order: %w", d, len(at), needed+1, err)
				}
				if img == nil {
					return errors.New("neither picture nor error")
				}
				if src.over {
					return fmt.Errorf("picture %d of %d in display order: asked for more than the stream up to the first slice of picture %d in coded order", d, len(at), needed+1)
				}
				// what the decoder says about where it is
				p := s.Items[needed].Pic
				want := fmt.Sprintf("[%c%d]", p.Type, p.TR)
				if vs.PictureHeader == nil || vs.PictureHeader.String() != want {
					return fmt.Errorf("picture %d in display order: picture header %v, the picture decoded last is %s", d, vs.PictureHeader, want)
				}
				text := want
				switch {
				case (vs.GroupOfPicturesHeader == nil) != (gop == nil):
					return fmt.Errorf("picture %d in display order: group header %v, expected %v", d, vs.GroupOfPicturesHeader != nil, gop != nil)
				case gop != nil:
					tc := vs.GroupOfPicturesHeader.TimeCode()
					got := fmt.Sprint(tc.DropFrame, tc.Hours, tc.Minutes, tc.Seconds, tc.Pictures, vs.ClosedGOP, vs.BrokenLink)
					want := fmt.Sprint(gop.Drop, gop.Hours, gop.Minutes, gop.Seconds, gop.Frames, gop.Closed, gop.Broken)
					if got != want {
						return fmt.Errorf("picture %d in display order: group header %s, expected %s", d, got, want)
					}
					text += got
				}
				if w, h := vs.Size(); w != seq.W || h != seq.H {
					return fmt.Errorf("picture %d in display order: size %d x %d, announced %d x %d", d, w, h, seq.W, seq.H)
				}
				headers = append(headers, seen{vs.PictureHeader, vs.GroupOfPicturesHeader, text})
			}
			if _, err := vs.Next(); err != video.EOS {
				return fmt.Errorf("after the last picture: %v, expected %v", err, video.EOS)
			}
			for d, h := range headers {
				text := h.p.String()
				if h.g != nil {
					tc := h.g.TimeCode()
					text += fmt.Sprint(tc.DropFrame, tc.Hours, tc.Minutes, tc.Seconds, tc.Pictures, h.g.ClosedGOP, h.g.BrokenLink)
				}
				if text != h.text {
					return fmt.Errorf("the headers obtained with picture %d changed from %s to %s", d, h.text, text)
				}
			}
			x.Count("pictures returned before the next one had arrived", early)
			if early > 0 {
				x.NonTrivial(append(key(s), fmt.Sprint(c.Sizes)...))
			}
			return nil
		},
	})
}
