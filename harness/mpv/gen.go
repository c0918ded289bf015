package mpv

import (
	"pgregory.net/rapid"

	"verifharness/mux"
)

// Opts says what streams to generate.
type Opts struct {
	Types     string // "I", "IP", "IPB"
	MaxPics   int
	MinPics   int
	MaxMB     int  // picture size in macroblocks, each way
	Wide      bool // sometimes very wide, flat pictures
	Big       int  // percentage of streams with pictures of hundreds of macroblocks
	Large     bool // sometimes pictures needing size extensions or slice position extensions
	Matrices  int  // chance of downloaded matrices
	Extras    int  // chance of user data and extensions
	Plain     bool // simple content, for checks on order and framing
	Repeat    int  // chance of a repeated sequence header before an I or P picture
	Sequences int  // chance of a further sequence after a sequence end code
	GroupMax  int  // pictures in a group
	Orphans   int  // chance of a sequence that begins with pictures whose references are missing
}

func chance(t *rapid.T, pct int, l string) bool { return mux.Chance(t, pct, l) }

func genMatrix(t *rapid.T, intra bool, l string) *[64]uint8 {
	var m [64]uint8
	r := rng(rapid.Uint64().Draw(t, l))
	switch rapid.IntRange(0, 3).Draw(t, l+"kind") {
	case 0:
		for i := range m {
			m[i] = uint8(r.between(1, 255))
		}
	case 1:
		for i := range m {
			m[i] = uint8(8 + i)
		}
	case 2:
		for i := range m {
			m[i] = uint8(r.between(8, 60))
		}
	default:
		v := uint8(r.between(1, 40))
		for i := range m {
			m[i] = v
		}
		m[1+r.intn(63)] = uint8(r.between(41, 255))
	}
	if intra {
		m[0] = 8
	}
	return &m
}

// GenUserData is user data that emulates no start code.
func GenUserData(t *rapid.T) []byte {
	n := rapid.IntRange(0, 24).Draw(t, "userlen")
	if chance(t, 1, "userlong") {
		n = rapid.SampledFrom([]int{255, 256, 257, 1000, 5000, 65535, 65536, 70000}).Draw(t, "userlen2")
	}
	r := rng(rapid.Uint64().Draw(t, "user"))
	out := make([]byte, n)
	for i := range out {
		if r.chance(25) && i > 0 && out[i-1] != 0 && i < n-1 {
			continue // a lone zero
		}
		out[i] = byte(r.between(1, 255))
	}
	return out
}

// GenExtras draws user data and extensions for a place: 0 after the sequence
// extension, 1 after a group header, 2 after the picture coding extension.
func GenExtras(t *rapid.T, place, pct, matrices int) (xs []Extra) {
	seen := map[string]bool{}
	add := func(x Extra) {
		if seen[x.Kind] && x.Kind != "user" {
			return // each extension once
		}
		seen[x.Kind] = true
		xs = append(xs, x)
	}
	if place == 2 && chance(t, matrices, "quantext") {
		x := Extra{Kind: "quant"}
		for i := range x.Mats {
			if chance(t, 45, "loadmat") {
				x.Mats[i] = genMatrix(t, i&1 == 0, "mat")
			}
		}
		add(x)
	}
	for n := 0; n < 3 && chance(t, pct, "extra"); n++ {
		kinds := []string{"user", "display"}
		switch place {
		case 1:
			kinds = []string{"user"}
		case 2:
			kinds = []string{"user", "copyright", "picdisplay", "temporal"}
		}
		x := Extra{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Seed: rapid.Uint64().Draw(t, "xseed")}
		if x.Kind == "user" {
			x.Data = GenUserData(t)
		}
		add(x)
	}
	return
}

// GenSeq draws a sequence header for pictures of the given size.
func GenSeq(t *rapid.T, w, h int, progressive bool, o Opts) *SeqHeader {
	s := &SeqHeader{W: w, H: h, Progressive: progressive, Chroma: 1,
		Aspect:   rapid.IntRange(1, 4).Draw(t, "aspect"),
		Rate:     rapid.IntRange(1, 8).Draw(t, "rate"),
		BitRate:  rapid.IntRange(1, 1<<18-1).Draw(t, "bitrate"),
		VBV:      rapid.IntRange(0, 1023).Draw(t, "vbv"),
		Profile:  rapid.SampledFrom([]int{0x48, 0x44, 0x58, 0x14}).Draw(t, "profile"),
		ExtN:     rapid.IntRange(0, 3).Draw(t, "extn"),
		ExtD:     rapid.IntRange(0, 31).Draw(t, "extd"),
		VBVExt:   rapid.IntRange(0, 255).Draw(t, "vbvext"),
		LowDelay: o.Types != "IPB" && chance(t, 30, "lowdelay"),
	}
	if chance(t, 30, "bitrateext") {
		s.BitRateExt = rapid.IntRange(0, 4095).Draw(t, "bitrateextv")
	}
	if chance(t, o.Matrices, "intramat") {
		s.Intra = genMatrix(t, true, "intram")
	}
	if chance(t, o.Matrices, "nonintramat") {
		s.NonIntra = genMatrix(t, false, "nonintram")
	}
	s.Extras = GenExtras(t, 0, o.Extras, 0)
	return s
}

// GenGOP draws a group header.
func GenGOP(t *rapid.T, closed bool, o Opts) *GOP {
	return &GOP{
		Drop:    chance(t, 20, "drop"),
		Hours:   rapid.IntRange(0, 23).Draw(t, "h"),
		Minutes: rapid.IntRange(0, 59).Draw(t, "m"),
		Seconds: rapid.IntRange(0, 59).Draw(t, "s"),
		Frames:  rapid.IntRange(0, 59).Draw(t, "f"),
		Closed:  closed,
		Extras:  GenExtras(t, 1, o.Extras, 0),
	}
}

// GenPic draws a picture.
func GenPic(t *rapid.T, typ byte, tr int, seq *SeqHeader, o Opts) *Pic {
	p := &Pic{Type: typ, TR: tr & 1023, VBV: rapid.SampledFrom([]int{0xFFFF, 0, 1, 1234, 0x8000}).Draw(t, "vbvdelay"), Structure: 3,
		Seed: rapid.Uint64().Draw(t, "picseed"),
	}
	for s := range p.FCode {
		for d := range p.FCode[s] {
			p.FCode[s][d] = 15
		}
	}
	f := func() int { return rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9}).Draw(t, "fcode") }
	p.Conceal = chance(t, 20, "conceal")
	if typ != 'I' || p.Conceal {
		p.FCode[0] = [2]int{f(), f()}
	}
	if typ == 'B' {
		p.FCode[1] = [2]int{f(), f()}
	}
	p.DCPrec = rapid.IntRange(0, 3).Draw(t, "dcprec")
	p.QType = rapid.IntRange(0, 1).Draw(t, "qtype")
	p.IntraVLC = rapid.IntRange(0, 1).Draw(t, "vlcfmt")
	p.AltScan = rapid.IntRange(0, 1).Draw(t, "altscan")
	p.ProgFrame = seq.Progressive || chance(t, 40, "progframe")
	p.FramePred = p.ProgFrame || chance(t, 25, "framepred")
	p.C420 = p.ProgFrame
	p.TFF = chance(t, 50, "tff") && !seq.Progressive
	p.RFF = p.ProgFrame && chance(t, 25, "rff")
	if seq.Progressive && p.RFF {
		p.TFF = chance(t, 50, "tff2")
	}
	p.Compos = !p.ProgFrame && chance(t, 20, "composite")
	if chance(t, o.Extras/2, "extrainfo") {
		p.Extra = rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "info")
		if chance(t, 4, "longinfo") {
			p.Extra = mux.Bytes(t, rapid.IntRange(5, 600).Draw(t, "infolen"), "infobytes")
		}
	}
	p.Extras = GenExtras(t, 2, o.Extras, o.Matrices)

	pct := func(l string, v ...int) int { return rapid.SampledFrom(v).Draw(t, l) }
	m := &p.Mix
	if o.Plain {
		m.Coefs, m.Level, m.Skip, m.Pattern, m.Fwd, m.Both = 1, 300, 60, 50, 60, 40
		m.Vector = 20
		m.Intra = 60
		return p
	}
	m.Split = pct("split", 0, 0, 5, 40, 100)
	m.Coefs = pct("coefs", 3, 0, 1, 8, 20)
	m.Level = pct("level", 120, 10, 40, 400, 1200)
	m.Big = pct("big", 0, 0, 3, 20)
	m.Samples = pct("samples", 0, 0, 0, 5, 100, 300)
	m.Escape = pct("escape", 0, 0, 10, 60)
	m.Quant = pct("quant", 0, 20, 60)
	m.SliceInfo = pct("sliceinfo", 0, 0, 30)
	if !p.FramePred {
		m.FieldDCT = pct("fielddct", 50, 0, 100, 30)
	}
	if typ != 'I' {
		m.Skip = pct("skip", 0, 20, 60, 95)
		m.Intra = pct("intra", 0, 10, 30, 100)
		m.Pattern = pct("pattern", 50, 0, 100, 20)
		m.NoMC = pct("nomc", 0, 20, 60)
		m.Vector = pct("vector", 4, 12, 40, 200)
		if !p.FramePred {
			m.FieldMC = pct("fieldmc", 50, 0, 30, 100)
		}
		m.Fwd = pct("fwd", 60, 0, 100, 40)
		m.Both = pct("both", 40, 0, 100)
	}
	return p
}

// GenStream draws a stream.
func GenStream(t *rapid.T, o Opts) *Stream {
	s := &Stream{StuffSeed: rapid.Uint64().Draw(t, "stuffseed"), Stuff: rapid.SampledFrom([]int{0, 0, 30}).Draw(t, "stuff")}
	mbdim := func(l string) int { return rapid.IntRange(1, o.MaxMB).Draw(t, l) }
	size := func(mb int, l string) int {
		if chance(t, 50, l+"whole") {
			return mb * 16
		}
		return mb*16 - rapid.IntRange(0, 15).Draw(t, l+"less")
	}
	w, h := size(mbdim("mbw"), "w"), size(mbdim("mbh"), "h")
	if o.Wide && chance(t, 8, "wide") {
		w, h = size(rapid.IntRange(34, 110).Draw(t, "widemb"), "ww"), size(1, "wh")
		if chance(t, 50, "tall") {
			w, h = h, w
		}
	}
	if o.Big > 0 && chance(t, o.Big, "big") {
		w, h = size(rapid.IntRange(20, 46).Draw(t, "bigw"), "bw"), size(rapid.IntRange(12, 36).Draw(t, "bigh"), "bh")
		o.MaxPics = min(o.MaxPics, 3)
	}
	if o.Large && chance(t, 3, "large") {
		if chance(t, 40, "largew") {
			w, h = size(rapid.OneOf(rapid.IntRange(256, 300), rapid.SampledFrom([]int{511, 513, 600, 1023, 1024})).Draw(t, "largemb"), "lw"), size(1, "lh")
			w = min(w, 16383)
			if w%4096 == 0 {
				w-- // the lower twelve bits are never zero
			}
		} else {
			w, h = size(1, "lw"), rapid.SampledFrom([]int{2785, 2800, 2801, 2816, 4080, 4095, 4097, 4112, 5000, 8191, 8193, 12300, 16383}).Draw(t, "lh")
		}
	}
	progressive := chance(t, 40, "progressive")
	if h > 2784 && h <= 2800 {
		// in pairs of macroblock rows there would be a row 176, which has no
		// start code without the extension
		progressive = true
	}
	total := rapid.IntRange(max(1, o.MinPics), o.MaxPics).Draw(t, "pics")
	bs := len(o.Types) > 2

	seq := GenSeq(t, w, h, progressive, o)
	newSeq := true
	end := false
	var refs int
	tr := 0 // temporal reference of the next picture in display order
	var prev *GOP
	for n := 0; n < total; {
		// one group: I, then anchors and B pictures
		count := rapid.IntRange(1, min(total-n, max(1, o.GroupMax))).Draw(t, "group")
		header := chance(t, 75, "gopheader")
		if header || newSeq {
			tr = 0
		}
		lead := 0
		if bs && count > 1 && chance(t, 40, "leading") {
			lead = rapid.IntRange(1, min(3, count-1)).Draw(t, "lead")
		}
		orphans := refs == 0 && o.Orphans > 0 && chance(t, o.Orphans, "orphans")
		closed := refs == 0 && !orphans || chance(t, 40, "closed")
		add := func(it Item) {
			s.Items = append(s.Items, it)
			n++
		}
		first := byte('I')
		if orphans && chance(t, 50, "firstP") {
			first = 'P'
		}
		item := Item{Pic: GenPic(t, first, tr+lead, seq, o)}
		if newSeq {
			item.Seq, item.End = seq, end
		} else if chance(t, o.Repeat, "repeat") {
			again := *seq
			again.Extras = GenExtras(t, 0, o.Extras, 0)
			again.Intra, again.NonIntra = nil, nil
			if chance(t, o.Matrices, "intramat") {
				again.Intra = genMatrix(t, true, "intram")
			}
			if chance(t, o.Matrices, "nonintramat") {
				again.NonIntra = genMatrix(t, false, "nonintram")
			}
			seq = &again
			item.Seq = seq
		}
		if header {
			item.GOP = GenGOP(t, closed, o)
			if prev != nil && chance(t, 35, "near") {
				// the time code of a group is often close to that of the last one
				g := *prev
				g.Closed, g.Extras = item.GOP.Closed, item.GOP.Extras
				if k := rapid.IntRange(0, 2).Draw(t, "on"); g.Frames+k < 60 {
					g.Frames += k
				}
				item.GOP = &g
			}
			prev = item.GOP
			// nothing depends on the link if there are no leading B pictures
			item.GOP.Broken = lead == 0 && chance(t, 20, "broken")
		}
		add(item)
		newSeq, end = false, false
		for i := 0; i < lead; i++ {
			p := GenPic(t, 'B', tr+i, seq, o)
			if closed {
				p.Mix.Fwd, p.Mix.Both = 0, 0
			}
			add(Item{Pic: p})
		}
		tr += lead + 1
		left := count - 1 - lead
		for left > 0 {
			k := 0
			if bs && left > 1 {
				k = rapid.IntRange(0, min(3, left-1)).Draw(t, "bs")
			}
			typ := byte('P')
			if len(o.Types) == 1 || chance(t, 10, "Ianchor") {
				typ = 'I'
			}
			it := Item{Pic: GenPic(t, typ, tr+k, seq, o)}
			if chance(t, o.Repeat/2, "repeatP") {
				again := *seq
				again.Extras = nil
				if typ == 'I' && chance(t, 50, "samemats") {
					again.Intra = nil
				}
				seq = &again
				it.Seq = seq
			}
			add(it)
			for i := 0; i < k; i++ {
				add(Item{Pic: GenPic(t, 'B', tr+i, seq, o)})
			}
			tr += k + 1
			left -= k + 1
		}
		refs++
		if n < total && chance(t, o.Sequences, "newsequence") {
			if chance(t, 60, "newsize") {
				w, h = size(mbdim("mbw"), "w"), size(mbdim("mbh"), "h")
				progressive = chance(t, 40, "progressive")
			}
			seq = GenSeq(t, w, h, progressive, o)
			newSeq, end, refs = true, true, 0
		}
	}
	return s
}

// GenLong draws a long stream of tiny pictures: n pictures, in groups of which
// only some have headers, so that temporal references go past 1023.
func GenLong(t *rapid.T, n int) *Stream {
	o := Opts{Types: "IPB", Plain: true}
	s := &Stream{}
	progressive := chance(t, 50, "progressive")
	seq := GenSeq(t, 16, rapid.IntRange(1, 2).Draw(t, "mbh")*16, progressive, o)
	kinds := map[byte]*Pic{}
	for _, typ := range []byte("IPB") {
		kinds[typ] = GenPic(t, typ, 0, seq, o)
	}
	r := rng(rapid.Uint64().Draw(t, "longseed"))
	headers := rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "headers")
	repeat := rapid.SampledFrom([]int{0, 2, 30}).Draw(t, "repeatpct")
	maxB := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 12, 40}).Draw(t, "maxb")
	tr := 0
	put := func(typ byte, tr int) *Item {
		p := *kinds[typ]
		p.TR = tr & 1023
		p.Seed = r.next()
		s.Items = append(s.Items, Item{Pic: &p})
		return &s.Items[len(s.Items)-1]
	}
	for len(s.Items) < n {
		first := len(s.Items) == 0
		typ := byte('P')
		if first || r.chance(10) {
			typ = 'I'
		}
		gop := typ == 'I' && (first && headers > 0 || r.chance(headers))
		if gop {
			tr = 0
		}
		b := 0
		if !first || gop {
			b = r.intn(maxB + 1)
		}
		it := put(typ, tr+b)
		if first || r.chance(repeat) {
			again := *seq
			it.Seq = &again
		}
		closed := first || r.chance(30)
		if gop {
			it.GOP = &GOP{Closed: closed, Seconds: r.intn(60), Frames: r.intn(60)}
		}
		for i := 0; i < b; i++ {
			bp := put('B', tr+i)
			if gop && closed {
				bp.Pic.Mix.Fwd, bp.Pic.Mix.Both = 0, 0
			}
		}
		tr += b + 1
	}
	return s
}

// Display gives for each coded picture its place in display order, and the
// coded indexes of its references (-1: none).
func (s *Stream) Display() (order []int, refs [][2]int) {
	order = make([]int, len(s.Items))
	refs = make([][2]int, len(s.Items))
	a, b := -1, -1 // the last two reference pictures
	pending := -1  // reference picture not yet output
	out := 0
	for i := range s.Items {
		if s.Items[i].End {
			if pending >= 0 {
				order[pending] = out
				out++
				pending = -1
			}
			a, b = -1, -1
		}
		switch s.Items[i].Pic.Type {
		case 'B':
			refs[i] = [2]int{a, b}
			order[i] = out
			out++
		default:
			refs[i] = [2]int{b, -1}
			if pending >= 0 {
				order[pending] = out
				out++
			}
			pending = i
			a, b = b, i
		}
	}
	if pending >= 0 {
		order[pending] = out
	}
	return
}
