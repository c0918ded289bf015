package mpv

import "math"

// rng is splitmix64.
type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9E3779B97F4A7C15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

func (r *rng) chance(pct int) bool { return r.intn(100) < pct }

// between includes both ends.
func (r *rng) between(lo, hi int) int { return lo + r.intn(hi-lo+1) }

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// Expand chooses the macroblocks of every picture from its seed and mix. The
// outcome is a valid stream.
func (s *Stream) Expand() {
	var seq *SeqHeader
	var mats [2][64]uint8
	for i := range s.Items {
		it := &s.Items[i]
		if it.Seq != nil {
			seq = it.Seq
			mats = [2][64]uint8{defaultIntra, {}}
			for k := range mats[1] {
				mats[1][k] = 16
			}
			load(&mats[0], seq.Intra)
			load(&mats[1], seq.NonIntra)
		}
		for _, x := range it.Pic.Extras {
			if x.Kind == "quant" {
				// the chrominance matrices are not used in 4:2:0
				load(&mats[0], x.Mats[0])
				load(&mats[1], x.Mats[1])
			}
		}
		it.Pic.expand(seq, mats)
	}
}

func load(dst, m *[64]uint8) {
	if m != nil {
		for n, v := range m {
			dst[zigzag[n]] = v
		}
	}
}

// MBSize is the size of the sequence's pictures in macroblocks.
func (s *SeqHeader) MBSize() (w, h int) {
	w, h = (s.W+15)/16, (s.H+15)/16
	if !s.Progressive {
		h = 2 * ((s.H + 31) / 32)
	}
	return
}

func (p *Pic) expand(seq *SeqHeader, mats [2][64]uint8) {
	p.seq, p.mats = seq, mats
	p.mbw, p.mbh = seq.MBSize()
	p.mbs = make([]MB, p.mbw*p.mbh)
	p.slices = nil
	p.vectors = [2]bool{}
	for row := 0; row < p.mbh; row++ {
		r := rng(p.Seed*31 + uint64(row)*1000003 + 5)
		for first := 0; first < p.mbw; {
			last := first
			for last < p.mbw-1 && !r.chance(p.Mix.Split) {
				last++
			}
			s := slice{row: row, first: first, last: last, qs: r.between(1, 31)}
			if p.Mix.Fine {
				s.qs = 1
			}
			if r.chance(p.Mix.SliceInfo) {
				s.infoFlag = true
				s.intraSlice = p.Type == 'I' && r.chance(50)
				n := r.intn(4)
				if n == 3 && r.chance(10) {
					n = r.between(16, 400)
				}
				for ; n > 0; n-- {
					s.info = append(s.info, byte(r.next()))
				}
			}
			p.slices = append(p.slices, s)
			p.expandSlice(&s)
			first = last + 1
		}
	}
}

func (p *Pic) expandSlice(s *slice) {
	mx := &p.Mix
	qs := s.qs
	var pmv [2][2][2]int
	var prev *MB // last coded macroblock of the slice
	dc := p.dcReset()
	for c := s.first; c <= s.last; c++ {
		m := &p.mbs[s.row*p.mbw+c]
		r := rng(p.Seed ^ uint64(s.row*p.mbw+c+1)*0xD1342543DE82EF95)
		*m = MB{Col: c, Row: s.row, QS: qs}

		if p.Type != 'I' && c > s.first && c < s.last && r.chance(mx.Skip) {
			if p.Type == 'P' {
				m.Skipped = true
				m.Kind.fwd = true
				pmv = [2][2][2]int{}
				dc = p.dcReset()
				continue
			}
			if !prev.Kind.intra {
				m.Kind.fwd, m.Kind.bwd = prev.Kind.fwd, prev.Kind.bwd
				m.MV = pmv
				if p.inside(m) {
					m.Skipped = true
					dc = p.dcReset()
					continue
				}
				m.Kind, m.MV = mbKind{}, [2][2][2]int{}
			}
		}

		k := &m.Kind
		switch {
		case p.Type == 'I' || r.chance(mx.Intra):
			k.intra = true
		case p.Type == 'P':
			k.fwd = !r.chance(mx.NoMC)
			k.pattern = !k.fwd || r.chance(mx.Pattern)
		default:
			k.fwd = r.chance(mx.Fwd)
			k.bwd = !k.fwd || r.chance(mx.Both)
			k.pattern = r.chance(mx.Pattern)
		}
		if (k.intra || k.pattern) && r.chance(mx.Quant) {
			k.quant = true
			qs = r.between(1, 31)
			m.QS = qs
		}
		if !p.FramePred && (k.intra || k.pattern) {
			m.FieldDCT = r.chance(mx.FieldDCT)
		}
		if !p.FramePred && !k.intra && (k.fwd || k.bwd) {
			m.FieldMC = r.chance(mx.FieldMC)
		}

		// vectors
		conceal := k.intra && p.Conceal
		if k.intra && !conceal || p.Type == 'P' && !k.intra && !k.fwd {
			pmv = [2][2][2]int{}
		}
		for dir := 0; dir < 2; dir++ {
			if !(dir == 0 && (k.fwd || conceal) || dir == 1 && k.bwd) {
				continue
			}
			p.vectors[dir] = true
			n := 1
			if m.FieldMC {
				n = 2
			}
			for i := 0; i < n; i++ {
				m.Sel[i][dir] = r.intn(2)
				p.vector(&r, m, i, dir, pmv[i][dir], conceal)
				pmv[i][dir] = m.MV[i][dir]
				if m.FieldMC {
					pmv[i][dir][1] *= 2
				}
			}
			if n == 1 {
				pmv[1][dir] = pmv[0][dir]
				m.MV[1][dir] = m.MV[0][dir]
			}
		}

		// blocks
		if k.pattern {
			m.CBP = r.between(1, 63)
			if r.chance(15) {
				m.CBP = 1 << uint(r.intn(6))
			}
		}
		if !k.intra {
			dc = p.dcReset()
		}
		for i := range m.Blocks {
			if !k.intra && m.CBP>>uint(5-i)&1 == 0 {
				continue
			}
			p.block(&r, m, i, &dc)
		}
		prev = m
	}
}

// limits are the vectors a macroblock may have.
func (p *Pic) limits(m *MB, dir, t int, free bool) (lo, hi int) {
	f := 1 << uint(p.FCode[dir][t]-1)
	lo, hi = -16*f, 16*f-1
	if m.FieldMC && t == 1 {
		lo, hi = -8*f, 8*f-1
	}
	if free {
		return
	}
	a, b := -32*m.Col, 32*(p.mbw-1-m.Col)
	if t == 1 {
		a, b = -32*m.Row, 32*(p.mbh-1-m.Row)
		if m.FieldMC {
			a, b = a/2, b/2
		}
	}
	if a > lo {
		lo = a
	}
	if b < hi {
		hi = b
	}
	return
}

func (p *Pic) inside(m *MB) bool {
	for dir := 0; dir < 2; dir++ {
		if dir == 0 && m.Kind.fwd || dir == 1 && m.Kind.bwd {
			for t := 0; t < 2; t++ {
				lo, hi := p.limits(m, dir, t, false)
				if v := m.MV[0][dir][t]; v < lo || v > hi {
					return false
				}
			}
		}
	}
	return true
}

func (p *Pic) vector(r *rng, m *MB, i, dir int, pred [2]int, free bool) {
	how := r.intn(10)
	for t := 0; t < 2; t++ {
		lo, hi := p.limits(m, dir, t, free)
		pr := pred[t]
		if m.FieldMC && t == 1 {
			pr >>= 1
		}
		var v int
		switch {
		case how == 0:
			v = 0
		case how == 1:
			v = pr
		case how == 2:
			v = lo
		case how == 3:
			v = hi
		case how == 4:
			v = r.between(lo, hi)
		case how < 7:
			v = pr + r.between(-3, 3)
		default:
			v = r.between(-p.Mix.Vector, p.Mix.Vector)
		}
		if how == 2 && r.chance(50) {
			v = hi
		}
		m.MV[i][dir][t] = clamp(v, lo, hi)
	}
}

// energyLimit bounds the sum of F*F over the AC coefficients of a block: what
// a forward transform of samples in -255 to 255 gives (Parseval: 2040*2040),
// and a little more, so that one coefficient may saturate. The accuracy of the
// inverse transform is defined for such blocks only.
const energyLimit = 2060 * 2060

func (p *Pic) block(r *rng, m *MB, i int, dc *[3]int) {
	mx := &p.Mix
	b := &m.Blocks[i]
	intra := m.Kind.intra
	n, sum := 0, 0
	limit := energyLimit
	if mx.Wild {
		limit = math.MaxInt
	}
	w := &p.mats[1]
	if mx.Samples > 0 {
		p.sampleBlock(r, m, i, dc)
		return
	}
	if intra {
		w = &p.mats[0]
		max := 256<<uint(p.DCPrec) - 1
		cc := 0
		if i >= 4 {
			cc = i - 3
		}
		switch r.intn(8) {
		case 0:
			b.DC = 0
		case 1:
			b.DC = max
		case 2:
			b.DC = dc[cc]
		case 3, 4:
			b.DC = clamp(dc[cc]+r.between(-9, 9), 0, max)
		default:
			b.DC = r.between(0, max)
		}
		dc[cc] = b.DC
		n = 1
	}
	count := r.intn(2*mx.Coefs + 1)
	if !intra && count == 0 {
		count = 1
	}
	if r.chance(3) || mx.Wild && r.chance(40) {
		count = 64
	}
	scan := &zigzag
	if p.AltScan == 1 {
		scan = &alternate
	}
	scale := quantiserScale(p.QType, m.QS)
	for ; count > 0 && n < 64; count-- {
		run := 0
		switch r.intn(6) {
		case 0:
			run = r.intn(64 - n)
		case 1:
			run = r.intn(min(64-n, 32))
		case 2, 3:
			run = r.intn(min(64-n, 6))
		}
		if mx.Coefs >= 16 && r.chance(70) {
			run = 0
		}
		pos := scan[n+run]
		// unit is about what one level is worth in F, times 32
		unit := 2 * int(w[pos]) * scale
		target := r.between(1, mx.Level)
		switch {
		case r.chance(mx.Big):
			target = r.between(1900, 4600)
		case r.chance(25):
			target = 0
		}
		level := target * 32 / unit
		if level < 1 || r.chance(5) {
			level = r.between(1, 2)
		}
		if r.chance(4) {
			// any code of the table
			level = r.between(1, 41)
		}
		if level > 2047 {
			level = 2047
		}
		mag := min(2048, (2*level+1)*int(w[pos])*scale/32+1)
		for sum+mag*mag > limit && level > 1 {
			level /= 2
			mag = min(2048, (2*level+1)*int(w[pos])*scale/32+1)
		}
		if sum > 0 && sum+mag*mag > limit {
			break
		}
		sum += mag * mag
		if r.chance(50) {
			level = -level
		}
		b.Runs = append(b.Runs, RunLevel{run, level})
		b.esc = append(b.esc, r.chance(mx.Escape))
		n += run + 1
	}
}

// sampleBlock transforms and quantises random samples.
func (p *Pic) sampleBlock(r *rng, m *MB, i int, dc *[3]int) {
	mx := &p.Mix
	b := &m.Blocks[i]
	intra := m.Kind.intra
	var x [64]float64
	smooth := r.chance(30)
	for k := range x {
		x[k] = float64(r.between(-mx.Samples, mx.Samples))
		if smooth && k > 0 {
			x[k] = 0.7*x[k-1] + 0.3*x[k]
		}
		if intra {
			x[k] += 128
		}
	}
	f := FDCT(&x)
	w, scan := &p.mats[1], &zigzag
	n := 0
	if intra {
		w = &p.mats[0]
		b.DC = clamp(int(math.Round(f[0]))>>uint(3-p.DCPrec), 0, 256<<uint(p.DCPrec)-1)
		cc := 0
		if i >= 4 {
			cc = i - 3
		}
		dc[cc] = b.DC
		n = 1
	}
	if p.AltScan == 1 {
		scan = &alternate
	}
	scale := quantiserScale(p.QType, m.QS)
	run := 0
	for ; n < 64; n++ {
		pos := scan[n]
		unit := float64(int(w[pos])*scale) / 16
		v := f[pos] / unit
		level := 0
		if intra {
			level = int(math.Round(v))
		} else {
			level = int(v)
		}
		level = clamp(level, -2047, 2047)
		if level == 0 {
			run++
			continue
		}
		b.Runs = append(b.Runs, RunLevel{run, level})
		b.esc = append(b.esc, r.chance(mx.Escape))
		run = 0
	}
	if !intra && len(b.Runs) == 0 {
		b.Runs = []RunLevel{{0, 1}}
		b.esc = []bool{false}
	}
}
