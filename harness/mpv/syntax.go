package mpv

import (
	"fmt"

	"verifharness/mux"
)

// Stream is a video elementary stream: items in coded order and an end code.
type Stream struct {
	Items []Item
	// Stuff: chance (percent) of zero stuffing before a start code, drawn from StuffSeed.
	Stuff     int
	StuffSeed uint64
	NoEnd     bool // leave the sequence_end_code out
}

// Item is one coded picture with the headers before it.
type Item struct {
	End bool       // a sequence_end_code ends the sequence before this item
	Seq *SeqHeader // sequence header (and extension) before it
	GOP *GOP
	Pic *Pic
}

// SeqHeader is a sequence header with its sequence extension.
type SeqHeader struct {
	W, H                           int
	Aspect, Rate, BitRate, VBV     int
	Constrained                    bool
	Intra, NonIntra                *[64]uint8 // in transmission order
	Profile                        int
	Progressive                    bool
	Chroma                         int // 1: 4:2:0
	LowDelay                       bool
	NoExt                          bool // no sequence extension (MPEG-1)
	BitRateExt, VBVExt, ExtN, ExtD int
	Extras                         []Extra
}

// GOP is a group of pictures header.
type GOP struct {
	Drop                            bool
	Hours, Minutes, Seconds, Frames int
	Closed, Broken                  bool
	Extras                          []Extra
}

// Extra is user data or an extension.
type Extra struct {
	Kind string // user, display, copyright, picdisplay, temporal, quant, or raw
	Data []byte // user, raw
	Seed uint64
	Mats [4]*[64]uint8 // quant: intra, non-intra, chroma intra, chroma non-intra
}

// Pic is a coded frame picture.
type Pic struct {
	Type byte // I, P, B
	// Invalid or unsupported syntax, for robustness checks.
	TypeCode   int  // picture_coding_type + 1, when not the one of Type
	MotionType int  // frame_motion_type + 1
	NoCoding   bool // no picture coding extension
	Flaw       *Flaw

	TR    int
	VBV   int
	Extra []byte // extra_information_picture

	FCode                        [2][2]int
	DCPrec                       int
	Structure                    int // 3: frame
	TFF, FramePred, Conceal      bool
	QType, IntraVLC, AltScan     int
	RFF, C420, ProgFrame, Compos bool
	Extras                       []Extra

	Seed uint64
	Mix  Mix

	// derived by Expand
	mbw, mbh int
	seq      *SeqHeader
	mats     [2][64]uint8 // raster order
	slices   []slice
	mbs      []MB
	vectors  [2]bool // vectors of the direction are coded
}

// Flaw is a syntax error in a picture (or in the sequence header before it).
type Flaw struct {
	Kind string
	At   int // which of the places it is possible at (modulo their number)
}

// Flaws are the kinds of syntax errors. None of them can be taken for
// something valid.
var Flaws = []string{
	"sequence header marker", "sequence extension marker", "sequence extension missing", "wrong extension",
	"display extension marker", "temporal extension marker",
	"junk after sequence header", "junk after sequence extension", "junk after group header", "junk after picture header", "junk after picture coding extension",
	"no picture coding extension", "no slice", "f_code",
	"slice row", "slice reserved bits",
	"macroblock address", "macroblock address past the edge", "macroblock type", "motion type", "motion code", "vector outside", "skipped vector outside", "reference size",
	"concealment marker", "coded block pattern", "coefficient code", "coefficients",
}

// flaw says whether this is the place of the flaw.
func (e *Enc) flaw(kind string) bool {
	if e.flawed == nil || e.flawed.Kind != kind {
		return false
	}
	e.Places++
	if e.Places-1 == e.flawed.At {
		e.Made = true
		return true
	}
	return false
}

// junk writes a byte that is not zero.
func (e *Enc) junk(kind string) {
	e.Align()
	if e.flaw(kind) {
		e.Put(0x55, 8)
	}
}

// Mix says (in percent) how often macroblocks have features.
type Mix struct {
	Skip, Intra, Pattern, Quant, NoMC, FieldDCT, FieldMC int
	Fwd, Both                                            int  // B: forward only, both
	Split                                                int  // new slice inside a row
	Coefs                                                int  // mean number of coefficients in a block
	Level                                                int  // bound for |F| of an ordinary coefficient
	Big                                                  int  // chance of a saturating coefficient
	Escape                                               int  // chance of needless escape codes
	Vector                                               int  // size of ordinary vectors in half samples
	SliceInfo                                            int  // chance of slice extra information
	Fine                                                 bool // smallest quantiser scale
	Wild                                                 bool // blocks beyond the energy of any block of samples
	Samples                                              int  // blocks are transformed random samples of this amplitude (0: off)
}

type slice struct {
	row, first, last int // macroblock columns
	qs               int
	info             []byte
	infoFlag         bool
	intraSlice       bool
}

// MB is one macroblock.
type MB struct {
	Col, Row int
	Skipped  bool
	Kind     mbKind
	QS       int
	FieldMC  bool
	FieldDCT bool
	MV       [2][2][2]int // [first/second][fwd/bwd][hor/ver]
	Sel      [2][2]int
	CBP      int
	Blocks   [6]Block
}

// Block is one coded block.
type Block struct {
	DC   int // intra: QF of the DC coefficient
	Runs []RunLevel
	esc  []bool
	diff int // chosen by Expand
}

// RunLevel is one coefficient.
type RunLevel struct{ Run, Level int }

func (m *Mix) String() string { return fmt.Sprintf("%+v", *m) }

// Enc is a stream writer.
type Enc struct {
	mux.Bits
	r     rng
	stuff int
	// Marks are the offsets of start codes.
	Marks []int
	// Pics are the offsets of picture start codes.
	Pics []int
	// Places of the flaw of the picture that has one, and whether it was made.
	flawed *Flaw
	Places int
	Made   bool
}

func (e *Enc) start(code uint64) {
	e.Align()
	if e.stuff > 0 && e.r.chance(e.stuff) {
		n := 1 + e.r.intn(5)
		if e.r.chance(1) {
			n = e.r.intn(1 << uint(3+e.r.intn(14)))
		}
		e.Buf = append(e.Buf, make([]byte, n)...)
	}
	e.Marks = append(e.Marks, len(e.Buf))
	if code == 0 {
		e.Pics = append(e.Pics, len(e.Buf))
	}
	e.Put(0x100|code, 32)
}

func (e *Enc) vlc(c vlc) { e.Put(uint64(c.code), uint(c.n)) }

func (e *Enc) matrix(m *[64]uint8) {
	e.Flag(m != nil)
	if m != nil {
		for _, v := range m {
			e.Put(uint64(v), 8)
		}
	}
}

// Header writes the sequence header (without extension).
func (s *SeqHeader) Header(e *Enc) {
	e.start(0xB3)
	e.Put(uint64(s.W&0xFFF), 12)
	e.Put(uint64(s.H&0xFFF), 12)
	e.Put(uint64(s.Aspect), 4)
	e.Put(uint64(s.Rate), 4)
	e.Put(uint64(s.BitRate), 18)
	e.Flag(!e.flaw("sequence header marker"))
	e.Put(uint64(s.VBV), 10)
	e.Flag(s.Constrained)
	e.matrix(s.Intra)
	e.matrix(s.NonIntra)
}

// Extension writes the sequence extension.
func (s *SeqHeader) Extension(e *Enc) {
	e.start(0xB5)
	if e.flaw("wrong extension") {
		e.Put(2, 4)
	} else {
		e.Put(1, 4)
	}
	e.Put(uint64(s.Profile), 8)
	e.Flag(s.Progressive)
	e.Put(uint64(s.Chroma), 2)
	e.Put(uint64(s.W>>12), 2)
	e.Put(uint64(s.H>>12), 2)
	e.Put(uint64(s.BitRateExt), 12)
	e.Flag(!e.flaw("sequence extension marker"))
	e.Put(uint64(s.VBVExt), 8)
	e.Flag(s.LowDelay)
	e.Put(uint64(s.ExtN), 2)
	e.Put(uint64(s.ExtD), 5)
}

// Write writes the group header.
func (g *GOP) Write(e *Enc) {
	e.start(0xB8)
	e.Flag(g.Drop)
	e.Put(uint64(g.Hours), 5)
	e.Put(uint64(g.Minutes), 6)
	e.Put(1, 1)
	e.Put(uint64(g.Seconds), 6)
	e.Put(uint64(g.Frames), 6)
	e.Flag(g.Closed)
	e.Flag(g.Broken)
}

func (x *Extra) write(e *Enc) {
	r := rng(x.Seed)
	any := func(n uint) { e.Put(r.next()>>(64-n), n) }
	switch x.Kind {
	case "user":
		e.start(0xB2)
		e.Bytes(x.Data)
	case "raw": // an extension, made by the caller
		e.start(0xB5)
		e.Bytes(x.Data)
	case "display":
		e.start(0xB5)
		e.Put(2, 4)
		any(3)
		col := r.chance(50)
		e.Flag(col)
		if col {
			for i := 0; i < 3; i++ {
				e.Put(uint64(1+r.intn(7)), 8)
			}
		}
		any(14)
		e.Flag(!e.flaw("display extension marker"))
		any(14)
	case "quant":
		e.start(0xB5)
		e.Put(3, 4)
		for _, m := range x.Mats {
			e.matrix(m)
		}
	case "copyright":
		e.start(0xB5)
		e.Put(4, 4)
		any(1)                        // copyright_flag
		e.Put(uint64(r.intn(256)), 8) // copyright_identifier
		any(1)                        // original_or_copy
		e.Put(0, 7)                   // reserved
		e.Put(1, 1)
		any(20)
		e.Put(1, 1)
		any(22)
		e.Put(1, 1)
		any(22)
	case "picdisplay":
		e.start(0xB5)
		e.Put(7, 4)
		for i := 1 + r.intn(3); i > 0; i-- {
			any(16)
			e.Put(1, 1)
			any(16)
			e.Put(1, 1)
		}
	case "temporal":
		e.start(0xB5)
		e.Put(10, 4)
		any(2)
		any(10)
		e.Flag(!e.flaw("temporal extension marker"))
		any(10)
	default:
		panic("mpv: extra " + x.Kind)
	}
}

// Encode writes the whole stream. Expand comes first.
func (s *Stream) Encode() *Enc {
	e := &Enc{r: rng(s.StuffSeed), stuff: s.Stuff}
	for i := range s.Items {
		it := &s.Items[i]
		e.flawed = it.Pic.Flaw
		if it.End {
			e.start(0xB7)
		}
		if it.Seq != nil {
			it.Seq.Header(e)
			e.junk("junk after sequence header")
			if !it.Seq.NoExt && !e.flaw("sequence extension missing") {
				it.Seq.Extension(e)
				e.junk("junk after sequence extension")
			}
			for k := range it.Seq.Extras {
				it.Seq.Extras[k].write(e)
			}
		}
		if it.GOP != nil {
			it.GOP.Write(e)
			e.junk("junk after group header")
			for k := range it.GOP.Extras {
				it.GOP.Extras[k].write(e)
			}
		}
		it.Pic.encode(e)
	}
	if !s.NoEnd {
		e.start(0xB7)
	}
	return e
}

func (p *Pic) header(e *Enc) {
	e.start(0x00)
	e.Put(uint64(p.TR), 10)
	code := map[byte]int{'I': 1, 'P': 2, 'B': 3}[p.Type]
	if p.TypeCode > 0 {
		code = p.TypeCode - 1
	}
	e.Put(uint64(code), 3)
	e.Put(uint64(p.VBV), 16)
	if p.Type == 'P' || p.Type == 'B' {
		e.Put(0, 1)
		e.Put(7, 3)
	}
	if p.Type == 'B' {
		e.Put(0, 1)
		e.Put(7, 3)
	}
	for _, b := range p.Extra {
		e.Put(1, 1)
		e.Put(uint64(b), 8)
	}
	e.Put(0, 1)
}

func (p *Pic) coding(e *Enc) {
	e.start(0xB5)
	e.Put(8, 4)
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			if p.codes(s) && e.flaw("f_code") {
				e.Put([]uint64{0, 10, 11, 12, 13, 14, 15}[p.Seed%7], 4)
				continue
			}
			e.Put(uint64(p.FCode[s][t]), 4)
		}
	}
	e.Put(uint64(p.DCPrec), 2)
	e.Put(uint64(p.Structure), 2)
	e.Flag(p.TFF)
	e.Flag(p.FramePred)
	e.Flag(p.Conceal)
	e.Put(uint64(p.QType), 1)
	e.Put(uint64(p.IntraVLC), 1)
	e.Put(uint64(p.AltScan), 1)
	e.Flag(p.RFF)
	e.Flag(p.C420)
	e.Flag(p.ProgFrame)
	e.Flag(p.Compos)
	if p.Compos {
		r := rng(p.Seed + 77)
		e.Put(r.next()>>44, 20)
	}
}

func (p *Pic) encode(e *Enc) {
	p.header(e)
	e.junk("junk after picture header")
	if !p.NoCoding && !e.flaw("no picture coding extension") {
		p.coding(e)
		e.junk("junk after picture coding extension")
	}
	for i := range p.Extras {
		p.Extras[i].write(e)
	}
	if e.flaw("no slice") {
		return
	}
	for i := range p.slices {
		p.encodeSlice(e, &p.slices[i])
	}
}

func (p *Pic) encodeSlice(e *Enc, s *slice) {
	row := s.row
	if p.mbh < 120 && e.flaw("slice row") {
		row = p.mbh + int(p.Seed%40)
	}
	if p.seq.H > 2800 {
		e.start(uint64(row&127 + 1))
		e.Put(uint64(row>>7), 3)
	} else {
		e.start(uint64(row + 1))
	}
	e.Put(uint64(s.qs), 5)
	if s.infoFlag {
		e.Put(1, 1)
		e.Flag(s.intraSlice)
		if e.flaw("slice reserved bits") {
			e.Put(1<<(p.Seed%7), 7)
		} else {
			e.Put(0, 7)
		}
		for _, b := range s.info {
			e.Put(1, 1)
			e.Put(uint64(b), 8)
		}
	}
	e.Put(0, 1)

	prev := -1 // column of the previous coded macroblock
	var last *MB
	var pmv [2][2][2]int
	dc := p.dcReset()
	for c := s.first; c <= s.last; c++ {
		m := &p.mbs[s.row*p.mbw+c]
		if m.Skipped {
			if p.Type == 'P' {
				pmv = [2][2][2]int{}
			}
			dc = p.dcReset()
			continue
		}
		if k, ok := p.skipOutside(s, c, last, &pmv); ok && e.flaw("skipped vector outside") {
			c = k
			m = &p.mbs[s.row*p.mbw+c]
			dc = p.dcReset()
		}
		inc := c - prev
		prev, last = c, m
		if e.flaw("macroblock address") {
			e.Put(2, 8)
			e.Put(p.Seed%8, 3)
		}
		if e.flaw("macroblock address past the edge") {
			inc += p.mbw - c + int(p.Seed%50)
		}
		for inc > 33 {
			e.vlc(addrEscape)
			inc -= 33
		}
		e.vlc(addrInc[inc])
		p.encodeMB(e, m, &pmv, &dc)
	}
}

func (p *Pic) dcReset() [3]int {
	v := 128 << uint(p.DCPrec)
	return [3]int{v, v, v}
}

func (p *Pic) encodeMB(e *Enc, m *MB, pmv *[2][2][2]int, dc *[3]int) {
	k := m.Kind
	code, ok := mbTypes[p.Type][k]
	if !ok {
		panic(fmt.Sprintf("mpv: no macroblock type %+v in %c", k, p.Type))
	}
	if e.flaw("macroblock type") {
		e.Put(0, map[byte]uint{'I': 2, 'P': 6, 'B': 6}[p.Type])
	}
	e.vlc(code)
	if (k.fwd || k.bwd) && !p.FramePred {
		if e.flaw("motion type") {
			e.Put(0, 2)
		} else if p.MotionType > 0 {
			e.Put(uint64(p.MotionType-1), 2)
		} else if m.FieldMC {
			e.Put(1, 2)
		} else {
			e.Put(2, 2)
		}
	}
	if !p.FramePred && (k.intra || k.pattern) {
		e.Flag(m.FieldDCT)
	}
	if k.quant {
		e.Put(uint64(m.QS), 5)
	}
	conceal := k.intra && p.Conceal
	if k.intra && !conceal || p.Type == 'P' && !k.intra && !k.fwd {
		*pmv = [2][2][2]int{}
	}
	if k.fwd || conceal {
		p.encodeVectors(e, m, 0, pmv)
	}
	if k.bwd {
		p.encodeVectors(e, m, 1, pmv)
	}
	if conceal {
		e.Flag(!e.flaw("concealment marker"))
	}
	if k.pattern {
		if e.flaw("coded block pattern") {
			e.Put(0, 9)
		}
		e.vlc(cbpCodes[m.CBP])
	}
	if !k.intra {
		*dc = p.dcReset()
	}
	for i := range m.Blocks {
		if !k.intra && m.CBP>>uint(5-i)&1 == 0 {
			continue
		}
		p.encodeBlock(e, m, i, dc)
	}
}

func (p *Pic) encodeVectors(e *Enc, m *MB, s int, pmv *[2][2][2]int) {
	put := func(r, t int, field bool) {
		f := 1 << uint(p.FCode[s][t]-1)
		if e.flaw("motion code") {
			e.Put(2, 8)
			e.Put(p.Seed%8, 3)
		}
		if v, ok := p.outside(m, s, t); ok && !m.Kind.intra && e.flaw("vector outside") {
			m.MV[r][s][t] = v
		}
		pred := pmv[r][s][t]
		if field && t == 1 {
			pred >>= 1 // DIV 2
		}
		d := m.MV[r][s][t] - pred
		if d < -16*f {
			d += 32 * f
		} else if d > 16*f {
			d -= 32 * f
		} else if (d == 16*f || d == -16*f) && m.Col&1 == 0 {
			d = -d // both give the same vector
		}
		a := d
		if a < 0 {
			a = -a
		}
		code, rest := 0, 0
		if a > 0 {
			code = (a-1)/f + 1
			rest = (a - 1) % f
		}
		if code > 16 {
			panic("mpv: vector out of range")
		}
		e.vlc(motionCodes[code])
		if code > 0 {
			e.Flag(d < 0)
			if f > 1 {
				e.Put(uint64(rest), uint(p.FCode[s][t]-1))
			}
		}
		pmv[r][s][t] = m.MV[r][s][t]
		if field && t == 1 {
			pmv[r][s][t] *= 2
		}
	}
	if p.MotionType == 1+3 && !m.Kind.intra {
		// dual prime: each component with a small difference, here 0
		for t := 0; t < 2; t++ {
			put(0, t, m.FieldMC)
			e.Put(0, 1)
		}
		return
	}
	if m.FieldMC && !m.Kind.intra {
		for r := 0; r < 2; r++ {
			e.Put(uint64(m.Sel[r][s]), 1)
			put(r, 0, true)
			put(r, 1, true)
		}
		return
	}
	put(0, 0, false)
	put(0, 1, false)
	pmv[1][s] = pmv[0][s]
}

func (p *Pic) encodeBlock(e *Enc, m *MB, i int, dc *[3]int) {
	b := &m.Blocks[i]
	n := 0
	table := &acZero
	if m.Kind.intra {
		cc := 0
		sizes := &dcLuma
		if i >= 4 {
			cc = i - 3
			sizes = &dcChroma
		}
		d := b.DC - dc[cc]
		dc[cc] = b.DC
		size, a := uint(0), d
		if a < 0 {
			a = -a
		}
		for a>>size != 0 {
			size++
		}
		e.vlc(sizes[size])
		if d > 0 {
			e.Put(uint64(d), size)
		} else if d < 0 {
			e.Put(uint64(d+1<<size-1), size)
		}
		n = 1
		if p.IntraVLC == 1 {
			table = &acOne
		}
	}
	if e.flaw("coefficient code") {
		e.Put(0, 12)
		e.Put(p.Seed%16, 4)
	}
	for k, rl := range b.Runs {
		lev := rl.Level
		sign := lev < 0
		if sign {
			lev = -lev
		}
		esc := k < len(b.esc) && b.esc[k]
		switch {
		case n == 0 && rl.Run == 0 && lev == 1 && !esc:
			e.Put(1, 1)
			e.Flag(sign)
		case !esc && rl.Run < 32 && lev <= len(table[rl.Run]):
			e.vlc(table[rl.Run][lev-1])
			e.Flag(sign)
		default:
			e.Put(1, 6)
			e.Put(uint64(rl.Run), 6)
			e.Put(uint64(rl.Level)&0xFFF, 12)
		}
		n += rl.Run + 1
	}
	if n > 0 && e.flaw("coefficients") {
		e.Put(1, 6)
		e.Put(uint64(64-n+int(p.Seed%uint64(n))), 6)
		e.Put(1+p.Seed%2000, 12)
	}
	if table == &acOne {
		e.Put(6, 4)
	} else {
		e.Put(2, 2)
	}
}

// codes says whether vectors of a direction are coded with its f_code.
func (p *Pic) codes(s int) bool {
	return p.vectors[s]
}

// skipOutside gives the column of a coded macroblock behind c, such that one of
// those from the last coded one up to it, if skipped, would be predicted from
// outside of the reference picture.
func (p *Pic) skipOutside(s *slice, c int, last *MB, pmv *[2][2][2]int) (int, bool) {
	if p.Type != 'B' || last == nil || last.Kind.intra {
		return 0, false
	}
	for q := last.Col + 1; q < s.last; q++ {
		m := MB{Col: q, Row: s.row, MV: *pmv}
		m.Kind.fwd, m.Kind.bwd = last.Kind.fwd, last.Kind.bwd
		if p.inside(&m) {
			continue
		}
		for k := max(q, c) + 1; k <= s.last; k++ {
			if !p.mbs[s.row*p.mbw+k].Skipped {
				return k, true
			}
		}
	}
	return 0, false
}

// Past says whether a picture is predicted from the reference before it (Expand
// has been called).
func (p *Pic) Past() bool {
	for i := range p.mbs {
		if p.mbs[i].Kind.fwd {
			return true
		}
	}
	return false
}

// outside is a vector component that a macroblock can code and whose prediction
// is not inside of the reference picture.
func (p *Pic) outside(m *MB, s, t int) (int, bool) {
	lo, hi := p.limits(m, s, t, true)
	inLo, inHi := p.limits(m, s, t, false)
	switch {
	case inHi < hi && p.Seed&16 == 0:
		return inHi + 1 + int(p.Seed>>7%uint64(hi-inHi)), true
	case inLo > lo:
		return inLo - 1 - int(p.Seed>>7%uint64(inLo-lo)), true
	}
	return 0, false
}
