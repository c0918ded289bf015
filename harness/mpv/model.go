package mpv

import (
	"fmt"
	"image"
	"math"
)

// Frame is a picture: planes of whole macroblocks.
type Frame struct {
	W, H int // luminance
	P    [3][]uint8
}

// FrameOf copies a decoded picture.
func FrameOf(img *image.YCbCr) (*Frame, error) {
	w, h := img.Rect.Dx(), img.Rect.Dy()
	if img.Rect.Min != (image.Point{}) {
		return nil, fmt.Errorf("picture does not start at 0,0: %v", img.Rect)
	}
	if img.SubsampleRatio != image.YCbCrSubsampleRatio420 {
		return nil, fmt.Errorf("picture is not 4:2:0: %v", img.SubsampleRatio)
	}
	f := &Frame{W: w, H: h}
	for c, pl := range [3][]uint8{img.Y, img.Cb, img.Cr} {
		pw, ph, stride := w, h, img.YStride
		if c > 0 {
			pw, ph, stride = (w+1)/2, (h+1)/2, img.CStride
		}
		f.P[c] = make([]uint8, pw*ph)
		for y := 0; y < ph; y++ {
			if (y*stride)+pw > len(pl) {
				return nil, fmt.Errorf("plane %d is too short: %d bytes for %dx%d, stride %d", c, len(pl), pw, ph, stride)
			}
			copy(f.P[c][y*pw:(y+1)*pw], pl[y*stride:y*stride+pw])
		}
	}
	return f, nil
}

// Same compares two pictures.
func (f *Frame) Same(g *Frame) error {
	if f.W != g.W || f.H != g.H {
		return fmt.Errorf("sizes differ: %dx%d, %dx%d", f.W, f.H, g.W, g.H)
	}
	for c := range f.P {
		pw := f.W
		if c > 0 {
			pw /= 2
		}
		for i := range f.P[c] {
			if f.P[c][i] != g.P[c][i] {
				return fmt.Errorf("%s sample %d,%d differs: %d, %d", plane[c], i%pw, i/pw, f.P[c][i], g.P[c][i])
			}
		}
	}
	return nil
}

var plane = [3]string{"Y", "Cb", "Cr"}

var cosTab [8][8]float64 // [x][u], with the scale factors

func init() {
	for x := 0; x < 8; x++ {
		for u := 0; u < 8; u++ {
			c := 0.5
			if u == 0 {
				c = 0.5 / math.Sqrt2
			}
			cosTab[x][u] = c * math.Cos(float64(2*x+1)*float64(u)*math.Pi/16)
		}
	}
}

// IDCT is the ideal inverse transform (Annex A), raster order.
func IDCT(f *[64]int) (out [64]float64) {
	var rows [64]float64
	for v := 0; v < 8; v++ {
		zero := true
		for u := 0; u < 8; u++ {
			if f[v*8+u] != 0 {
				zero = false
			}
		}
		if zero {
			continue
		}
		for x := 0; x < 8; x++ {
			s := 0.0
			for u := 0; u < 8; u++ {
				s += cosTab[x][u] * float64(f[v*8+u])
			}
			rows[v*8+x] = s
		}
	}
	for x := 0; x < 8; x++ {
		for y := 0; y < 8; y++ {
			s := 0.0
			for v := 0; v < 8; v++ {
				s += cosTab[y][v] * rows[v*8+x]
			}
			out[y*8+x] = s
		}
	}
	return
}

// FDCT is the forward transform (Annex A), raster order.
func FDCT(x *[64]float64) (out [64]float64) {
	var rows [64]float64
	for j := 0; j < 8; j++ {
		for u := 0; u < 8; u++ {
			s := 0.0
			for i := 0; i < 8; i++ {
				s += cosTab[i][u] * x[j*8+i]
			}
			rows[j*8+u] = s
		}
	}
	for u := 0; u < 8; u++ {
		for v := 0; v < 8; v++ {
			s := 0.0
			for j := 0; j < 8; j++ {
				s += cosTab[j][v] * rows[j*8+u]
			}
			out[v*8+u] = s
		}
	}
	return
}

// Saturated is the kind of blocks whose mismatch control depends on the
// saturation before it.
const Saturated = "mismatch control of saturated coefficients"

// Coefs are the dequantised coefficients of a block: 7.3, 7.4.
func (p *Pic) Coefs(m *MB, i int) (f [64]int, kind string) {
	b := &m.Blocks[i]
	scan := &zigzag
	if p.AltScan == 1 {
		scan = &alternate
	}
	scale := quantiserScale(p.QType, m.QS)
	n, sum, plain := 0, 0, 0
	sat := func(v int) int {
		plain += v
		if v > 2047 {
			return 2047
		}
		if v < -2048 {
			return -2048
		}
		return v
	}
	if m.Kind.intra {
		f[0] = sat(b.DC << uint(3-p.DCPrec))
		n = 1
	}
	for _, rl := range b.Runs {
		n += rl.Run
		pos := scan[n]
		n++
		if m.Kind.intra {
			f[pos] = sat(2 * rl.Level * int(p.mats[0][pos]) * scale / 32)
		} else {
			k := 1
			if rl.Level < 0 {
				k = -1
			}
			f[pos] = sat((2*rl.Level + k) * int(p.mats[1][pos]) * scale / 32)
		}
	}
	for _, v := range f {
		sum += v
	}
	kind = "non-intra"
	if m.Kind.intra {
		kind = "intra"
	}
	if sum&1 == 0 {
		switch {
		case f[63] == 0:
			kind += ", last coefficient changed from 0"
		case f[63]&1 == 1:
			kind += ", last coefficient made even"
		default:
			kind += ", last coefficient made odd"
		}
		if f[63]&1 == 1 {
			f[63]--
		} else {
			f[63]++
		}
	} else {
		kind += ", last coefficient kept"
	}
	if (sum^plain)&1 == 1 {
		kind = Saturated
	}
	return
}

// Stats says how closely the decoded samples follow the ideal transform.
type Stats struct {
	Coded, Off int     // samples with residual; of these not the nearest integer
	Exact      int     // samples without residual, compared exactly
	Sum, SumSq float64 // of errors against the ideal value
	Max        float64
	// Pos gathers the same by position in the block, Kinds by kind of block.
	Pos          [64]Accuracy
	Kinds        map[string]*Accuracy
	MBs, Skipped int
	Classes      map[string]int
}

// The accuracy of the inverse transform is defined for blocks that may come
// from samples. Beyond that it is the better part of the value that counts:
// what lies far outside the range of samples is clipped, at the right end.
const (
	wildEnergy = 2100 * 2100
	wildOff    = 16
)

// Accuracy compares samples with the rounded ideal values.
type Accuracy struct {
	N, Off int // samples, not the nearest integer
	Err    int // sum of differences
}

func (a *Accuracy) add(d int) {
	a.N++
	a.Err += d
	if d != 0 {
		a.Off++
	}
}

// Add adds up.
func (a *Accuracy) Add(b Accuracy) {
	a.N += b.N
	a.Off += b.Off
	a.Err += b.Err
}

func (st *Stats) kind(k string) *Accuracy {
	if st.Kinds == nil {
		st.Kinds = map[string]*Accuracy{}
	}
	a := st.Kinds[k]
	if a == nil {
		a = new(Accuracy)
		st.Kinds[k] = a
	}
	return a
}

func (st *Stats) class(s string) {
	if st.Classes == nil {
		st.Classes = map[string]int{}
	}
	st.Classes[s]++
}

// sample reads a plane of a reference.
type sampler struct {
	pl   []uint8
	w, h int
}

// at predicts one sample at half-sample position x2, y2 from the lines first,
// first+step, ...
func (s *sampler) at(x2, y2, first, step int) int {
	x, y := x2>>1, y2>>1
	get := func(x, y int) int {
		line := first + y*step
		if x < 0 || x >= s.w || line < 0 || line >= s.h {
			panic(fmt.Sprintf("mpv: prediction from outside: %d,%d", x, line))
		}
		return int(s.pl[line*s.w+x])
	}
	switch {
	case x2&1 == 0 && y2&1 == 0:
		return get(x, y)
	case x2&1 == 1 && y2&1 == 0:
		return (get(x, y) + get(x+1, y) + 1) / 2
	case x2&1 == 0:
		return (get(x, y) + get(x, y+1) + 1) / 2
	}
	return (get(x, y) + get(x+1, y) + get(x, y+1) + get(x+1, y+1) + 2) / 4
}

// Compare checks a decoded picture sample by sample against what the elements
// define, given the reference pictures.
func (p *Pic) Compare(got *Frame, refs [2]*Frame, st *Stats) error {
	if got.W != p.mbw*16 || got.H != p.mbh*16 {
		return fmt.Errorf("picture is %dx%d, expected %dx%d", got.W, got.H, p.mbw*16, p.mbh*16)
	}
	for k := range p.mbs {
		m := &p.mbs[k]
		if err := p.compareMB(m, got, refs, st); err != nil {
			return fmt.Errorf("%c picture, temporal reference %d, macroblock %d,%d (%s): %w", p.Type, p.TR, m.Col, m.Row, p.describe(m), err)
		}
	}
	return nil
}

func (p *Pic) describe(m *MB) string {
	return fmt.Sprintf("%+v skipped=%v fieldMC=%v fieldDCT=%v qs=%d cbp=%06b mv=%v sel=%v", m.Kind, m.Skipped, m.FieldMC, m.FieldDCT, m.QS, m.CBP, m.MV, m.Sel)
}

func (p *Pic) compareMB(m *MB, got *Frame, refs [2]*Frame, st *Stats) error {
	st.MBs++
	p.classes(m, st)
	var resid [6][64]float64
	var coded, wild [6]bool
	var kinds [6]*Accuracy
	for i := range m.Blocks {
		if !m.Skipped && (m.Kind.intra || m.CBP>>uint(5-i)&1 == 1) {
			f, kind := p.Coefs(m, i)
			kinds[i] = st.kind(kind)
			resid[i] = IDCT(&f)
			coded[i] = true
			energy := 0
			for k, v := range f {
				if k > 0 || !m.Kind.intra {
					energy += v * v
				}
			}
			wild[i] = energy > wildEnergy
		}
	}
	for c := 0; c < 3; c++ {
		size, pw, ph := 16, got.W, got.H
		if c > 0 {
			size, pw, ph = 8, got.W/2, got.H/2
		}
		for y := 0; y < size; y++ {
			for x := 0; x < size; x++ {
				// which block and line of it holds the sample
				var bi, line int
				if c > 0 {
					bi, line = 3+c, y
				} else if m.FieldDCT {
					bi, line = (y&1)*2+x>>3, y>>1
				} else {
					bi, line = (y>>3)*2+x>>3, y&7
				}
				pred := 0
				if !m.Kind.intra {
					pred = p.predict(m, refs, c, x, y, pw, ph)
				}
				have := int(got.P[c][(m.Row*size+y)*pw+m.Col*size+x])
				where := func() string { return fmt.Sprintf("%s sample %d,%d of the macroblock", plane[c], x, y) }
				if !coded[bi] {
					st.Exact++
					if have != pred {
						return fmt.Errorf("%s is %d, expected %d (prediction without residual)", where(), have, pred)
					}
					continue
				}
				ideal := float64(pred) + resid[bi][line*8+x&7]
				nearest := clamp(int(math.Floor(ideal+0.5)), 0, 255)
				if wild[bi] {
					st.class("blocks beyond the energy of samples")
					if d := have - nearest; d < -wildOff || d > wildOff {
						return fmt.Errorf("%s is %d, expected about %d (prediction %d, residual %.3f, more energy than samples have)", where(), have, nearest, pred, resid[bi][line*8+x&7])
					}
					continue
				}
				if ideal < -1 || ideal > 256 {
					// clipped for certain
					if have != nearest && (have > 1 && have < 254) {
						return fmt.Errorf("%s is %d, expected %d (clipped from %.3f)", where(), have, nearest, ideal)
					}
				}
				if d := have - nearest; d < -1 || d > 1 || ideal > 0 && ideal < 255 && math.Abs(float64(have)-ideal) > 1 {
					return fmt.Errorf("%s is %d, expected %d (prediction %d, residual %.3f)", where(), have, nearest, pred, resid[bi][line*8+x&7])
				}
				if ideal > 0 && ideal < 255 {
					st.Coded++
					e := float64(have) - ideal
					st.Sum += e
					st.SumSq += e * e
					if a := math.Abs(e); a > st.Max {
						st.Max = a
					}
					if have != nearest {
						st.Off++
					}
					st.Pos[line*8+x&7].add(have - nearest)
					kinds[bi].add(have - nearest)
				}
			}
		}
	}
	return nil
}

func (p *Pic) predict(m *MB, refs [2]*Frame, c, x, y, pw, ph int) int {
	size := 16
	if c > 0 {
		size = 8
	}
	n, sum := 0, 0
	for dir := 0; dir < 2; dir++ {
		if p.Type == 'P' && dir == 1 {
			break
		}
		use := dir == 0 && m.Kind.fwd || dir == 1 && m.Kind.bwd
		if p.Type == 'P' {
			use = true
		}
		if !use {
			continue
		}
		n++
		ref := sampler{refs[dir].P[c], pw, ph}
		field := m.FieldMC && !m.Skipped
		r := 0
		if field {
			r = y & 1
		}
		mv := m.MV[r][dir]
		if p.Type == 'P' && (m.Skipped || !m.Kind.fwd) {
			mv = [2]int{}
		}
		if c > 0 {
			mv[0] /= 2
			mv[1] /= 2
		}
		x2 := 2*(m.Col*size+x) + mv[0]
		if field {
			y2 := 2*(m.Row*size/2+y/2) + mv[1]
			sum += ref.at(x2, y2, m.Sel[r][dir], 2)
		} else {
			y2 := 2*(m.Row*size+y) + mv[1]
			sum += ref.at(x2, y2, 0, 1)
		}
	}
	if n == 2 {
		return (sum + 1) / 2
	}
	return sum
}

func (p *Pic) classes(m *MB, st *Stats) {
	t := string(p.Type)
	k := m.Kind
	switch {
	case m.Skipped:
		st.Skipped++
		st.class(t + " skipped")
	case k.intra && p.Conceal:
		st.class(t + " intra with concealment vectors")
	case k.intra:
		st.class(t + " intra")
	default:
		dir := "no vectors"
		if k.fwd && k.bwd {
			dir = "both"
		} else if k.fwd {
			dir = "forward"
		} else if k.bwd {
			dir = "backward"
		}
		st.class(t + " " + dir)
		if m.FieldMC {
			st.class(t + " field prediction")
		}
	}
	if m.FieldDCT {
		st.class(t + " field DCT")
	}
	if k.quant {
		st.class(t + " quantiser change")
	}
}
