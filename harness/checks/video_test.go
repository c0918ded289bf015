package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"
	"time"

	"github.com/32bitkid/mpeg/video"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mpv"
	"verifharness/mux"
)

// decodeAll asks for pictures until there is an error, at most limit times.
func decodeAll(r io.Reader, limit int) (frames []*mpv.Frame, err error) {
	vs := video.NewVideoSequence(r)
	return decodeOn(vs, limit)
}

func decodeOn(vs *video.VideoSequence, limit int) (frames []*mpv.Frame, err error) {
	for len(frames) <= limit {
		img, err := vs.Next()
		if err != nil {
			return frames, err
		}
		if img == nil {
			return frames, errors.New("verif: Next returned neither picture nor error")
		}
		f, err := mpv.FrameOf(img)
		if err != nil {
			return frames, fmt.Errorf("verif: %w", err)
		}
		frames = append(frames, f)
	}
	return frames, fmt.Errorf("verif: more than %d pictures", limit)
}

// checkPictures decodes a stream and compares every picture with what its
// elements define.
func checkPictures(s *mpv.Stream, x *core.Ctx, st *mpv.Stats) error {
	s.Expand()
	e := s.Encode()
	frames, err := decodeAll(bytes.NewReader(e.Buf), len(s.Items))
	if err != video.EOS {
		return fmt.Errorf("after %d of %d pictures: %v, expected %v", len(frames), len(s.Items), err, video.EOS)
	}
	return comparePictures(s, frames, st)
}

func comparePictures(s *mpv.Stream, frames []*mpv.Frame, st *mpv.Stats) error {
	if len(frames) != len(s.Items) {
		return fmt.Errorf("%d pictures, expected %d", len(frames), len(s.Items))
	}
	order, refs := s.Display()
	for i := range s.Items {
		var rf [2]*mpv.Frame
		for k, n := range refs[i] {
			if n >= 0 {
				rf[k] = frames[order[n]]
			}
		}
		if err := s.Items[i].Pic.Compare(frames[order[i]], rf, st); err != nil {
			return fmt.Errorf("picture %d in coded order, %d in display order: %w", i, order[i], err)
		}
	}
	return nil
}

type videoCase struct {
	S mpv.Stream
}

// accuracy gathers how closely the decoded samples follow the ideal transform.
// An error within one unit at every sample may still be systematic (mismatch
// control, rounding, a wrong constant): the share of samples that are not the
// nearest integer tells. The decoder's fixed-point transform misses it at 0.5 to
// 1.6 % of the samples, depending on the kind of block, and never at more than
// 2.8 % of the samples of a case; mismatch control left out gives 10 %.
type accuracy struct{ total mpv.Stats }

const (
	caseSamples, caseOff = 4000, 0.06
	runSamples, runOff   = 100000, 0.03
)

func tooFar(kinds map[string]*mpv.Accuracy, samples int, off float64) error {
	for k, a := range kinds {
		samples, off := samples, off
		if k == mpv.Saturated {
			// 2.1 % of the samples; saturation ignored gives 10 %
			if samples == caseSamples {
				samples, off = 8000, 0.08
			} else {
				samples, off = 20000, 0.05
			}
		}
		if a.N >= samples && float64(a.Off) > off*float64(a.N) {
			return fmt.Errorf("the inverse transform is inaccurate: %d of %d samples in blocks of kind %q differ from the rounded ideal value, at most %.0f %% expected", a.Off, a.N, k, 100*off)
		}
	}
	return nil
}

func (a *accuracy) add(st *mpv.Stats, x *core.Ctx) {
	t := &a.total
	t.Coded += st.Coded
	t.Off += st.Off
	t.Sum += st.Sum
	t.SumSq += st.SumSq
	t.Max = math.Max(t.Max, st.Max)
	if t.Kinds == nil {
		t.Kinds = map[string]*mpv.Accuracy{}
	}
	for k, v := range st.Kinds {
		if t.Kinds[k] == nil {
			t.Kinds[k] = new(mpv.Accuracy)
		}
		t.Kinds[k].Add(*v)
	}
	for k, n := range st.Classes {
		x.Count("macroblocks: "+k, n)
	}
	x.Count("samples compared exactly", st.Exact)
	x.Count("samples with residual compared", st.Coded)
}

// once checks the accuracy over the run.
func (a *accuracy) once(x *core.Ctx) error {
	t := &a.total
	if t.Coded == 0 {
		return nil
	}
	n := float64(t.Coded)
	x.Extra("samples not the nearest integer (fraction)", float64(t.Off)/n)
	x.Extra("mean error", t.Sum/n)
	x.Extra("mean square error (rounding alone: 0.0833)", t.SumSq/n)
	x.Extra("largest error", t.Max)
	for k, a := range t.Kinds {
		x.Extra("samples, not the nearest integer: "+k, []int{a.N, a.Off})
	}
	return tooFar(t.Kinds, runSamples, runOff)
}

func TestV01(t *testing.T) {
	videoTest(t, "V01", mpv.Opts{Types: "I", MaxPics: 3, MaxMB: 5, Wide: true, Large: true, Matrices: 25, Extras: 20, GroupMax: 3, Big: 1})
}
func TestV02(t *testing.T) {
	videoTest(t, "V02", mpv.Opts{Types: "IP", MaxPics: 5, MaxMB: 6, Wide: true, Big: 1, Matrices: 15, Extras: 10, GroupMax: 5})
}
func TestV03(t *testing.T) {
	videoTest(t, "V03", mpv.Opts{Types: "IPB", MaxPics: 7, MaxMB: 5, Wide: true, Big: 1, Matrices: 15, Extras: 10, GroupMax: 6})
}

func videoTest(t *testing.T, id string, o mpv.Opts) {
	var acc accuracy
	core.Run(t, core.Prop[videoCase]{
		ID:       id,
		Rule:     "the stream was accepted and has at least one macroblock of the picture types in question that is coded with coefficients or predicted",
		CPULimit: 120 * time.Second,
		Gen: func(t *rapid.T) videoCase {
			return videoCase{*mpv.GenStream(t, o)}
		},
		Check: func(c videoCase, x *core.Ctx) error {
			var st mpv.Stats
			if err := checkPictures(&c.S, x, &st); err != nil {
				return err
			}
			if err := tooFar(st.Kinds, caseSamples, caseOff); err != nil {
				return err
			}
			acc.add(&st, x)
			if st.Coded+st.Exact > 0 {
				x.NonTrivial([]byte(fmt.Sprint(c.S.Items[0].Pic.Seed, len(c.S.Items), c.S.Items[0].Seq.W, c.S.Items[0].Seq.H)))
			}
			return nil
		},
		Once: acc.once,
	})
}

// V10: blocks of transformed random samples, as in IEEE 1180.

type idctCase struct {
	S         mpv.Stream
	Amplitude int
}

func TestV10(t *testing.T) {
	type tally struct {
		pos [64]mpv.Accuracy
		all mpv.Accuracy
	}
	tallies := map[int]*tally{}
	// bounds of IEEE 1180, loosened for the smaller number of blocks in a case
	verdict := func(a *tally, name string, strict bool) error {
		mse, mean, posMSE, posMean := 0.03, 0.005, 0.09, 0.04
		if strict {
			mse, mean, posMSE, posMean = 0.02, 0.0015, 0.06, 0.015
		}
		check := func(m mpv.Accuracy, what string, mse, mean float64, samples int) error {
			if m.N < samples {
				return nil
			}
			if v := float64(m.Off) / float64(m.N); v > mse {
				return fmt.Errorf("%s: mean square error of %s is %.4f over %d samples, limit %.4f", name, what, v, m.N, mse)
			}
			if v := math.Abs(float64(m.Err)) / float64(m.N); v > mean {
				return fmt.Errorf("%s: mean error of %s is %.4f over %d samples, limit %.4f", name, what, v, m.N, mean)
			}
			return nil
		}
		need := 800
		if strict {
			need = 10000
		}
		if err := check(a.all, "all samples", mse, mean, 64*need); err != nil {
			return err
		}
		for k, m := range a.pos {
			if err := check(m, fmt.Sprintf("sample %d,%d", k%8, k/8), posMSE, posMean, need); err != nil {
				return err
			}
		}
		return nil
	}
	core.Run(t, core.Prop[idctCase]{
		ID:   "V10",
		Rule: "at least 800 blocks with coefficients decoded and compared sample by sample with the ideal transform",
		Gen: func(t *rapid.T) idctCase {
			c := idctCase{Amplitude: rapid.SampledFrom([]int{5, 127, 256, 300}).Draw(t, "amplitude")}
			w, h := rapid.IntRange(5, 24).Draw(t, "w"), rapid.IntRange(4, 16).Draw(t, "h")
			wild := mux.Chance(t, 15, "wild")
			seq := mpv.GenSeq(t, 16*w, 16*h, true, mpv.Opts{Types: "IP"})
			var m [64]uint8
			for i := range m {
				m[i] = 16
			}
			m2 := m
			m[0] = 8
			seq.Intra, seq.NonIntra = &m, &m2
			for n := 0; n < 2; n++ {
				p := mpv.GenPic(t, "IP"[n], n, seq, mpv.Opts{})
				p.DCPrec, p.QType, p.Conceal = 3, 1, false
				p.Mix = mpv.Mix{Fine: true, Samples: c.Amplitude, Escape: p.Mix.Escape, Vector: 0, Pattern: 100, NoMC: 100}
				if n == 0 {
					p.Mix.Samples = min(c.Amplitude, rapid.SampledFrom([]int{5, 127}).Draw(t, "intraamplitude"))
				}
				if wild {
					p.QType, p.Mix.Samples, p.Mix.Wild = 0, 0, true
					p.Mix.Level, p.Mix.Big, p.Mix.Coefs = 2000, 60, 32
				}
				it := mpv.Item{Pic: p}
				if n == 0 {
					it.Seq = seq
				}
				c.S.Items = append(c.S.Items, it)
			}
			if wild {
				c.Amplitude = -1
			}
			return c
		},
		Check: func(c idctCase, x *core.Ctx) error {
			var st mpv.Stats
			if err := checkPictures(&c.S, x, &st); err != nil {
				return err
			}
			if c.Amplitude < 0 {
				x.Class("blocks beyond the energy of samples")
				return nil
			}
			one := &tally{pos: st.Pos}
			for _, m := range st.Pos {
				one.all.Add(m)
			}
			if err := verdict(one, "one case", false); err != nil {
				return err
			}
			if tallies[c.Amplitude] == nil {
				tallies[c.Amplitude] = &tally{}
			}
			sum := tallies[c.Amplitude]
			for k, m := range st.Pos {
				sum.pos[k].Add(m)
			}
			sum.all.Add(one.all)
			x.Count(fmt.Sprintf("samples, amplitude %d", c.Amplitude), one.all.N)
			if one.all.N >= 64*800 {
				x.NonTrivial([]byte(fmt.Sprint(c.S.Items[0].Pic.Seed, c.S.Items[1].Pic.Seed, c.Amplitude)))
			}
			return nil
		},
		Once: func(x *core.Ctx) error {
			for amp, a := range tallies {
				x.Extra(fmt.Sprintf("amplitude %d: mean square error, mean error", amp), []float64{float64(a.all.Off) / float64(a.all.N), float64(a.all.Err) / float64(a.all.N)})
				if err := verdict(a, fmt.Sprintf("amplitude %d", amp), true); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
