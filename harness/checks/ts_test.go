package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ts"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mux"
)

// snapTS is a copy of everything observable of a packet.
func snapTS(p *ts.Packet) ts.Packet {
	q := ts.Packet{
		TransportErrorIndicator:    p.TransportErrorIndicator,
		PayloadUnitStartIndicator:  p.PayloadUnitStartIndicator,
		TransportPriority:          p.TransportPriority,
		PID:                        p.PID,
		TransportScramblingControl: p.TransportScramblingControl,
		AdaptationFieldControl:     p.AdaptationFieldControl,
		ContinuityCounter:          p.ContinuityCounter,
		Payload:                    append([]byte(nil), p.Payload...),
	}
	if p.AdaptationField != nil {
		af := *p.AdaptationField
		if af.AdapatationExtension != nil {
			e := *af.AdapatationExtension
			af.AdapatationExtension = &e
		}
		q.AdaptationField = &af
	}
	return q
}

// matchTS compares a parsed packet with the one that was multiplexed.
func matchTS(p *ts.Packet, m *mux.TSPacket) error {
	if p == nil {
		return errors.New("packet is nil")
	}
	var bad []string
	eq := func(name string, got, want any) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s: got %v, want %v", name, got, want))
		}
	}
	eq("transport_error_indicator", p.TransportErrorIndicator, m.TEI)
	eq("payload_unit_start_indicator", p.PayloadUnitStartIndicator, m.PUSI)
	eq("transport_priority", p.TransportPriority, m.Prio)
	eq("PID", p.PID, m.PID)
	eq("scrambling", p.TransportScramblingControl, m.TSC)
	eq("adaptation_field_control", uint32(p.AdaptationFieldControl), m.AFC)
	eq("continuity_counter", p.ContinuityCounter, m.CC)
	eq("has adaptation field", p.AdaptationField != nil, m.AF != nil)
	if p.AdaptationField != nil && m.AF != nil {
		a, w := p.AdaptationField, m.AF
		eq("discontinuity", a.DiscontinuityIndicator, w.Discont)
		eq("random access", a.RandomAccessIndicator, w.RandomAcc)
		eq("es priority", a.ElementaryStreamPriorityIndicator, w.ESPri)
		eq("PCR flag", a.PCRFlag, w.PCR != nil)
		eq("OPCR flag", a.OPCRFlag, w.OPCR != nil)
		eq("splice flag", a.SplicingPointFlag, w.Splice != nil)
		eq("private flag", a.TransportPrivateDataFlag, w.HasPrivate)
		eq("extension flag", a.AdaptationFieldExtensionFlag, w.Ext != nil)
		if w.PCR != nil {
			eq("PCR", a.PCR, w.PCR.Value())
		} else {
			eq("PCR", a.PCR, uint64(0))
		}
		if w.OPCR != nil {
			eq("OPCR", a.OPCR, w.OPCR.Value())
		} else {
			eq("OPCR", a.OPCR, uint64(0))
		}
		if w.Splice != nil {
			eq("splice countdown", a.SpliceCountdown, *w.Splice)
		}
		eq("has private data", a.TransportPrivateData != nil, w.HasPrivate)
		eq("has extension", a.AdapatationExtension != nil, w.Ext != nil)
		if e, x := a.AdapatationExtension, w.Ext; e != nil && x != nil {
			eq("ltw flag", e.LegalTimeWindowFlag, x.LTW)
			eq("piecewise flag", e.PiecewiseRateFlag, x.Piecewise)
			eq("seamless flag", e.SeamlessSpliceFlag, x.Seamless)
			eq("ltw valid", e.LTWValidFlag, x.LTWValid)
			eq("ltw offset", e.LTWOffset, x.LTWOffset)
			eq("piecewise rate", e.PiecewiseRate, x.PiecewiseRate)
			eq("splice type", e.SpliceType, x.SpliceType)
			eq("DTS next AU", e.DTSNextAU, x.DTSNextAU)
		}
	}
	if !bytes.Equal(p.Payload, m.Payload) {
		bad = append(bad, fmt.Sprintf("payload: got %d bytes %s, want %d bytes %s", len(p.Payload), short(p.Payload), len(m.Payload), short(m.Payload)))
	}
	if bad != nil {
		return fmt.Errorf("%v", bad)
	}
	return nil
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...", b[:24])
	}
	return fmt.Sprintf("%x", b)
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func sameBytes(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	i := firstDiff(got, want)
	return fmt.Errorf("%s: got %d bytes, want %d; first difference at %d (got %s, want %s)", what, len(got), len(want), i, short(got[min(i, len(got)):]), short(want[min(i, len(want)):]))
}

// ---------------------------------------------------------------- T01

type t01Case struct {
	P       mux.TSPacket
	Trailer []byte
	Chunks  []int
	Bad     string `json:",omitempty"` // the length that is too great
	By      int    `json:",omitempty"` // by how much (1 at least)
}

// overlong makes one of the lengths in the adaptation field exceed what holds
// it; false: the packet has no such field.
func (c *t01Case) overlong(raw []byte) bool {
	a := c.P.AF
	if a == nil {
		return false
	}
	end := 5 + int(raw[4])
	at := 6
	if a.PCR != nil {
		at += 6
	}
	if a.OPCR != nil {
		at += 6
	}
	if a.Splice != nil {
		at++
	}
	switch c.Bad {
	case "private data":
		if !a.HasPrivate {
			return false
		}
	case "extension":
		if a.Ext == nil {
			return false
		}
		if a.HasPrivate {
			at += 1 + len(a.Private)
		}
	case "adaptation field":
		at, end = 4, 188
	}
	n := end - at - 1 + c.By
	if n > 255 {
		return false
	}
	raw[at] = byte(n)
	return true
}

func TestT01(t *testing.T) {
	core.Run(t, core.Prop[t01Case]{
		ID:   "T01",
		Rule: "a random well-formed packet (all header bits, adaptation-field controls, optional fields, stuffing) delivered in random chunks; non-trivial: it has an adaptation field with at least one optional field, or no payload",
		Gen: func(t *rapid.T) t01Case {
			c := t01Case{P: mux.GenPacket(t, mux.TSOpts{}), Trailer: mux.Bytes(t, rapid.IntRange(4, 12).Draw(t, "tl"), "trailer"), Chunks: mux.GenSizes(t, "chunk", false)}
			if c.P.AF != nil && mux.Chance(t, 25, "bad") {
				bad := []string{"adaptation field"}
				if c.P.AF.HasPrivate {
					bad = append(bad, "private data", "private data")
				}
				if c.P.AF.Ext != nil {
					bad = append(bad, "extension", "extension")
				}
				c.Bad = rapid.SampledFrom(bad).Draw(t, "which")
				c.By = rapid.OneOf(rapid.Just(1), rapid.IntRange(1, 70)).Draw(t, "by")
			}
			return c
		},
		Check: func(c t01Case, x *core.Ctx) error {
			raw := c.P.Encode()
			if c.Bad != "" {
				if !c.overlong(raw) {
					return nil
				}
				p, err := ts.NewPacket(bitreader.NewReader(core.NewChunks(append(raw, make([]byte, 600)...), c.Chunks)))
				if err == nil {
					return fmt.Errorf("packet with the %s %d too long accepted: %v", c.Bad, c.By, p)
				}
				if err == io.EOF || err == io.ErrUnexpectedEOF {
					return fmt.Errorf("packet with the %s %d too long: %v", c.Bad, c.By, err)
				}
				x.Class("too long: %s", c.Bad)
				x.NonTrivial(raw)
				return nil
			}
			br := bitreader.NewReader(core.NewChunks(append(raw[:188:188], c.Trailer...), c.Chunks))
			p, err := ts.NewPacket(br)
			if err != nil {
				return fmt.Errorf("well-formed packet refused: %v", err)
			}
			if err := matchTS(p, &c.P); err != nil {
				return err
			}
			if got := p.String(); !strings.Contains(got, fmt.Sprintf("%x", c.P.PID)) || !strings.Contains(got, fmt.Sprintf("%x", c.P.CC)) {
				return fmt.Errorf("packet with PID %#x, counter %#x is printed as %s", c.P.PID, c.P.CC, got)
			}
			rest, err := io.ReadAll(br)
			if err != nil {
				return fmt.Errorf("reading on after the packet: %v", err)
			}
			if err := sameBytes("what follows the packet", rest, c.Trailer); err != nil {
				return err
			}
			x.Class("afc%d", c.P.AFC)
			if a := c.P.AF; a != nil {
				n := 0
				for name, has := range map[string]bool{"pcr": a.PCR != nil, "opcr": a.OPCR != nil, "splice": a.Splice != nil, "private": a.HasPrivate, "ext": a.Ext != nil} {
					if has {
						x.Class("%s", name)
						n++
					}
				}
				if n > 0 {
					x.NonTrivial(raw)
				}
			}
			if len(c.P.Payload) == 0 {
				x.NonTrivial(raw)
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- T02

type t02Elem struct {
	Junk int // bytes without 0x47 before the packet
	Seed uint64
	P    mux.TSPacket
}

type t02Case struct {
	Elems    []t02Elem
	TailJunk int
	Cut      int // bytes cut off the end of the last packet (0: none)
	Chunks   []int
}

func junk(seed uint64, n int) []byte {
	b := mux.Noise(seed, n)
	for i := range b {
		if b[i] == 0x47 {
			b[i] = 0x48
		}
	}
	return b
}

func TestT02(t *testing.T) {
	junkLen := rapid.OneOf(rapid.Just(0), rapid.SampledFrom([]int{1, 2, 187, 186, 188, 189, 376}), rapid.IntRange(0, 187), rapid.IntRange(0, 400))
	core.Run(t, core.Prop[t02Case]{
		ID:   "T02",
		Rule: "packets with junk runs of 0..400 bytes between them, cut at a random offset, random chunking; non-trivial: at least one junk run or a cut",
		Gen: func(t *rapid.T) t02Case {
			n := rapid.IntRange(0, 6).Draw(t, "n")
			var c t02Case
			for i := 0; i < n; i++ {
				j := 0
				if mux.Chance(t, 40, "hasjunk") {
					j = junkLen.Draw(t, "junk")
				}
				c.Elems = append(c.Elems, t02Elem{j, rapid.Uint64().Draw(t, "jseed"), mux.GenPacket(t, mux.TSOpts{})})
			}
			if n > 0 && mux.Chance(t, 40, "cutit") {
				c.Cut = rapid.OneOf(rapid.IntRange(1, 187), rapid.SampledFrom([]int{1, 187, 184, 183, 186, 185})).Draw(t, "cut")
			} else if mux.Chance(t, 20, "tail") {
				c.TailJunk = rapid.IntRange(1, 187).Draw(t, "tailjunk")
			}
			c.Chunks = mux.GenSizes(t, "chunk", false)
			return c
		},
		Check: func(c t02Case, x *core.Ctx) error {
			var data []byte
			for _, e := range c.Elems {
				data = append(data, junk(e.Seed, e.Junk)...)
				data = append(data, e.P.Encode()...)
			}
			data = data[:len(data)-c.Cut]
			data = append(data, junk(7777, c.TailJunk)...)
			br := bitreader.NewReader(core.NewChunks(data, c.Chunks))
			nt := c.Cut > 0
			for i, e := range c.Elems {
				p, err := ts.NewPacket(br)
				if e.Junk > 0 {
					nt = true
				}
				if e.Junk >= 188 {
					x.Class("junk>=188")
					if err != ts.ErrNoSyncByte {
						return fmt.Errorf("element %d: %d junk bytes: error %v, want %v", i, e.Junk, err, ts.ErrNoSyncByte)
					}
					x.NonTrivial(data)
					return nil
				}
				if e.Junk > 0 {
					x.Class("junk<188")
				}
				if c.Cut > 0 && i == len(c.Elems)-1 {
					x.Class("cut")
					x.NonTrivial(data)
					if err != io.ErrUnexpectedEOF {
						return fmt.Errorf("element %d cut by %d bytes: error %v, want %v", i, c.Cut, err, io.ErrUnexpectedEOF)
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("element %d (after %d junk bytes): %v", i, e.Junk, err)
				}
				if err := matchTS(p, &e.P); err != nil {
					return fmt.Errorf("element %d (after %d junk bytes): %v", i, e.Junk, err)
				}
			}
			_, err := ts.NewPacket(br)
			if c.TailJunk == 0 && err != io.EOF {
				return fmt.Errorf("at the end on a packet boundary: error %v, want EOF", err)
			}
			if c.TailJunk > 0 {
				nt = true
				x.Class("tailjunk")
				if err == nil {
					return fmt.Errorf("a packet was returned from trailing junk")
				}
			}
			if nt {
				x.NonTrivial(data)
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- T03

type t03Case struct {
	Ps     []mux.TSPacket
	Chunks []int
}

func TestT03(t *testing.T) {
	core.Run(t, core.Prop[t03Case]{
		ID:   "T03",
		Rule: "2..12 random packets read into one packet value; non-trivial: a packet without payload or without adaptation field follows one that had it",
		Gen: func(t *rapid.T) t03Case {
			n := rapid.IntRange(2, 12).Draw(t, "n")
			c := t03Case{Chunks: mux.GenSizes(t, "chunk", false)}
			for i := 0; i < n; i++ {
				c.Ps = append(c.Ps, mux.GenPacket(t, mux.TSOpts{}))
			}
			return c
		},
		Check: func(c t03Case, x *core.Ctx) error {
			data := mux.BytesOf(c.Ps)
			br := bitreader.NewReader(core.NewChunks(data, c.Chunks))
			p := new(ts.Packet)
			for i := range c.Ps {
				if err := p.Next(br); err != nil {
					return fmt.Errorf("packet %d: %v", i, err)
				}
				if err := matchTS(p, &c.Ps[i]); err != nil {
					return fmt.Errorf("packet %d in reused value: %v", i, err)
				}
				if i > 0 && (len(c.Ps[i].Payload) < len(c.Ps[i-1].Payload) || c.Ps[i].AF == nil && c.Ps[i-1].AF != nil) {
					x.NonTrivial(data)
				}
				x.Class("afc%d", c.Ps[i].AFC)
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- testers

// expr is a tester expression.
type expr struct {
	Op   string // pid, pusi, cc, afc, all, none, not, and, or
	N    uint32
	A, B *expr
}

func (e *expr) eval(m *mux.TSPacket) bool {
	switch e.Op {
	case "pid":
		return m.PID == e.N
	case "pusi":
		return m.PUSI
	case "cc":
		return m.CC%(e.N+1) == 0
	case "afc":
		return m.AFC == e.N
	case "all":
		return true
	case "none":
		return false
	case "not":
		return !e.A.eval(m)
	case "and":
		return e.A.eval(m) && e.B.eval(m)
	case "or":
		return e.A.eval(m) || e.B.eval(m)
	}
	panic("verif: op " + e.Op)
}

func (e *expr) build() ts.PacketTester {
	switch e.Op {
	case "pid":
		return ts.IsPID(e.N)
	case "pusi":
		return ts.IsPayloadUnitStart
	case "cc":
		n := e.N + 1
		return func(p *ts.Packet) bool { return p.ContinuityCounter%n == 0 }
	case "afc":
		n := e.N
		return func(p *ts.Packet) bool { return uint32(p.AdaptationFieldControl) == n }
	case "all":
		return func(*ts.Packet) bool { return true }
	case "none":
		return func(*ts.Packet) bool { return false }
	case "not":
		return e.A.build().Not()
	case "and":
		return e.A.build().And(e.B.build())
	case "or":
		return e.A.build().Or(e.B.build())
	}
	panic("verif: op " + e.Op)
}

func (e *expr) String() string {
	switch e.Op {
	case "not":
		return "!" + e.A.String()
	case "and":
		return "(" + e.A.String() + "&" + e.B.String() + ")"
	case "or":
		return "(" + e.A.String() + "|" + e.B.String() + ")"
	}
	return fmt.Sprintf("%s%d", e.Op, e.N)
}

func genExpr(t *rapid.T, pids []uint32, depth int) *expr {
	ops := []string{"pid", "pusi", "cc", "afc", "all", "none"}
	if depth > 0 {
		ops = append(ops, "not", "and", "or", "not", "and", "or")
	}
	e := &expr{Op: rapid.SampledFrom(ops).Draw(t, "op")}
	switch e.Op {
	case "pid":
		e.N = rapid.SampledFrom(pids).Draw(t, "pid")
	case "cc":
		e.N = rapid.Uint32Range(0, 4).Draw(t, "mod")
	case "afc":
		e.N = rapid.Uint32Range(0, 3).Draw(t, "afc")
	case "not":
		e.A = genExpr(t, pids, depth-1)
	case "and", "or":
		e.A = genExpr(t, pids, depth-1)
		e.B = genExpr(t, pids, depth-1)
	}
	return e
}

var somePIDs = []uint32{0x21, 0x31, 0x41, 0, 0x1fff}

type t09Case struct {
	E     *expr
	Ps    []mux.TSPacket
	Reuse bool // all packets in one value
}

func TestT09(t *testing.T) {
	core.Run(t, core.Prop[t09Case]{
		ID:   "T09",
		Rule: "a tester expression of depth up to 5 evaluated on 1..8 packets and again after use in further compositions; non-trivial: the expression has an operator and both outcomes or several leaves",
		Gen: func(t *rapid.T) t09Case {
			c := t09Case{E: genExpr(t, somePIDs, rapid.IntRange(0, 5).Draw(t, "depth"))}
			n := rapid.IntRange(1, 8).Draw(t, "n")
			for i := 0; i < n; i++ {
				o := mux.TSOpts{PIDs: somePIDs}
				if mux.Chance(t, 20, "anypid") {
					o.PIDs = nil
				}
				c.Ps = append(c.Ps, mux.GenPacket(t, o))
			}
			c.Reuse = rapid.Bool().Draw(t, "reuse")
			return c
		},
		Check: func(c t09Case, x *core.Ctx) error {
			br := bitreader.NewReader(bytes.NewReader(mux.BytesOf(c.Ps)))
			tester := c.E.build()
			not, and, or := tester.Not(), tester.And(ts.IsPID(0x21)), tester.Or(ts.IsPayloadUnitStart)
			reused := new(ts.Packet)
			for i := range c.Ps {
				p := reused
				if !c.Reuse {
					p = new(ts.Packet)
				}
				if err := p.Next(br); err != nil {
					return err
				}
				m := &c.Ps[i]
				for round := 0; round < 2; round++ {
					want := c.E.eval(m)
					if got := tester(p); got != want {
						return fmt.Errorf("%v on packet %d: got %v, want %v", c.E, i, got, want)
					}
					if got := not(p); got != !want {
						return fmt.Errorf("Not of %v: got %v", c.E, got)
					}
					if got := and(p); got != (want && m.PID == 0x21) {
						return fmt.Errorf("%v And pid 0x21: got %v", c.E, got)
					}
					if got := or(p); got != (want || m.PUSI) {
						return fmt.Errorf("%v Or unit start: got %v", c.E, got)
					}
					x.Class("%v", want)
				}
				if ts.IsPID(m.PID+1)(p) || !ts.IsPID(m.PID)(p) || ts.IsPID(m.PID|0x2000)(p) {
					return fmt.Errorf("IsPID wrong for PID %#x", m.PID)
				}
				if ts.IsPayloadUnitStart(p) != m.PUSI {
					return fmt.Errorf("IsPayloadUnitStart wrong")
				}
				if err := matchTS(p, m); err != nil {
					return fmt.Errorf("packet changed by testers: %v", err)
				}
			}
			switch c.E.Op {
			case "not", "and", "or":
				x.NonTrivial([]byte(c.E.String() + fmt.Sprint(len(c.Ps), c.Ps[0].PID, c.Ps[0].PUSI, c.Ps[0].CC)))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- ranges

type rangeSpec struct {
	Skip, Take *expr
}

// genRange draws a skip-until/take-while range whose first packet is not
// itself refused by take-while (what then happens is not specified).
func genRange(t *rapid.T, ps []mux.TSPacket) rangeSpec {
	var r rangeSpec
	if mux.Chance(t, 40, "hasskip") {
		r.Skip = genExpr(t, somePIDs, 2)
	}
	if mux.Chance(t, 40, "hastake") {
		r.Take = genExpr(t, somePIDs, 2)
	}
	if r.Take != nil {
		first := r.first(ps)
		if first < len(ps) && !r.Take.eval(&ps[first]) {
			r.Take = &expr{Op: "not", A: r.Take}
		}
	}
	return r
}

func (r rangeSpec) first(ps []mux.TSPacket) int {
	for i := range ps {
		if r.Skip == nil || r.Skip.eval(&ps[i]) {
			return i
		}
	}
	return len(ps)
}

// bounds gives the range [from, to) and whether take-while ended it.
func (r rangeSpec) bounds(ps []mux.TSPacket) (from, to int, ended bool) {
	from = r.first(ps)
	for to = from; to < len(ps); to++ {
		if r.Take != nil && to > from && !r.Take.eval(&ps[to]) {
			return from, to, true
		}
	}
	return from, to, false
}

func genPackets(t *rapid.T, max int, o mux.TSOpts) []mux.TSPacket {
	n := rapid.IntRange(0, max).Draw(t, "npackets")
	ps := make([]mux.TSPacket, n)
	for i := range ps {
		ps[i] = mux.GenPacket(t, o)
	}
	if max > 10 && n > 0 && mux.Chance(t, 2, "stretch") {
		// the same again and again, with other counters and payloads
		most := 1200
		if mux.Chance(t, 4, "longstretch") {
			most = 9000
		}
		reps := rapid.IntRange(1, most/n).Draw(t, "reps")
		oneUnit := mux.Chance(t, 50, "oneunit")
		for r := 1; r <= reps; r++ {
			for _, p := range ps[:n] {
				p.CC = (p.CC + uint32(r)) & 15
				if len(p.Payload) > 0 {
					p.Payload = append([]byte(nil), p.Payload...)
					p.Payload[0] ^= byte(r)
					p.Payload[len(p.Payload)-1] ^= byte(r >> 3)
				}
				if oneUnit {
					p.PUSI = false
				}
				ps = append(ps, p)
			}
		}
	}
	return ps
}

// ---------------------------------------------------------------- T04/T05

type demuxCase struct {
	Ps     []mux.TSPacket
	Where  []*expr
	Range  rangeSpec
	Tail   string // "", "cut", "junk"
	Chunks []int
	Delays [][]int // per consumer, virtual milliseconds before each receive
	Mode   []string
	Late   bool // nobody listens for the completion before the channels are closed
}

func genDemux(t *rapid.T, modes []string) demuxCase {
	c := demuxCase{Ps: genPackets(t, 14, mux.TSOpts{PIDs: somePIDs, PUSIPct: 40})}
	n := rapid.IntRange(1, 4).Draw(t, "channels")
	if mux.Chance(t, 3, "manychannels") {
		n = rapid.SampledFrom([]int{5, 9, 17, 40, 0}).Draw(t, "howmany")
	}
	for i := 0; i < n; i++ {
		c.Where = append(c.Where, genExpr(t, somePIDs, 2))
		delays := rapid.SliceOfN(rapid.IntRange(0, 5), 0, 6).Draw(t, "delays")
		if len(delays) > 0 && mux.Chance(t, 15, "slow") {
			// seconds, minutes, hours
			delays[0] = rapid.SampledFrom([]int{100, 1000, 11000, 61000, 3700000, 100000000}).Draw(t, "slowdelay")
		}
		c.Delays = append(c.Delays, delays)
		c.Mode = append(c.Mode, rapid.SampledFrom(modes).Draw(t, "mode"))
	}
	c.Range = genRange(t, c.Ps)
	if c.Range.Take != nil && mux.Chance(t, 10, "firstrefused") {
		// take-while has no say about the packet that skip-until stops at
		if first := c.Range.first(c.Ps); first < len(c.Ps) && c.Range.Take.eval(&c.Ps[first]) {
			c.Range.Take = &expr{Op: "not", A: c.Range.Take}
		}
	}
	c.Tail = rapid.SampledFrom([]string{"", "", "cut", "junk"}).Draw(t, "tail")
	c.Chunks = mux.GenSizes(t, "chunk", false)
	c.Late = mux.Chance(t, 40, "late")
	return c
}

func (c *demuxCase) data() []byte {
	data := mux.BytesOf(c.Ps)
	switch c.Tail {
	case "cut":
		data = append(data, 0x47, 0x00, 0x21, 0x10, 1, 2, 3)
	case "junk":
		data = append(data, junk(99, 300)...)
	}
	return data
}

func (c *demuxCase) delay(i, k int) {
	if d := c.Delays[i]; len(d) > 0 {
		if ms := d[k%len(d)]; ms > 0 {
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
	}
}

func (c *demuxCase) setup() *ts.Demuxer {
	d := ts.NewDemuxer(core.NewChunks(c.data(), c.Chunks))
	if c.Range.Skip != nil {
		d.SkipUntil(c.Range.Skip.build())
	}
	if c.Range.Take != nil {
		d.TakeWhile(c.Range.Take.build())
	}
	return d
}

func (c *demuxCase) expected(i int) (want []*mux.TSPacket) {
	from, to, _ := c.Range.bounds(c.Ps)
	for k := from; k < to; k++ {
		if c.Where[i].eval(&c.Ps[k]) {
			want = append(want, &c.Ps[k])
		}
	}
	return want
}

func TestT04(t *testing.T) {
	core.Run(t, core.Prop[demuxCase]{
		ID:   "T04",
		Rule: "up to 14 packets over 5 PIDs, 1..4 channels with random testers, random skip/take range, stream end clean, cut or junk, consumers delayed by random virtual times in a fake-clock bubble; non-trivial: at least two packets delivered and at least one withheld",
		Gen:  func(t *rapid.T) demuxCase { return genDemux(t, []string{"raw"}) },
		Check: func(c demuxCase, x *core.Ctx) error {
			return core.Bubble(x, func() error {
				d := c.setup()
				got := make([][]ts.Packet, len(c.Where))
				fin := make(chan int)
				for i := range c.Where {
					ch := d.Where(c.Where[i].build())
					go func() {
						for k := 0; ; k++ {
							c.delay(i, k)
							p, ok := <-ch
							if !ok {
								break
							}
							if p == nil {
								got[i] = append(got[i], ts.Packet{PID: 0xffffffff})
								continue
							}
							got[i] = append(got[i], snapTS(p))
						}
						fin <- i
					}()
				}
				done := d.Go()
				listen := done
				closed := 0
				completed := false
				for closed < len(c.Where) || !completed {
					if c.Late && closed < len(c.Where) {
						done = nil
					} else if !completed {
						done = listen
					}
					select {
					case <-fin:
						closed++
					case <-done:
						completed = true
						done = nil
					}
				}
				delivered, withheld := 0, 0
				for i := range c.Where {
					want := c.expected(i)
					delivered += len(want)
					withheld += len(c.Ps) - len(want)
					for k := 0; k < len(want) || k < len(got[i]); k++ {
						if k >= len(want) {
							return fmt.Errorf("channel %d (%v): extra packet %d: %v", i, c.Where[i], k, got[i][k].PID)
						}
						if k >= len(got[i]) {
							return fmt.Errorf("channel %d (%v): packet %d of %d missing", i, c.Where[i], k, len(want))
						}
						if err := matchTS(&got[i][k], want[k]); err != nil {
							return fmt.Errorf("channel %d (%v) packet %d: %v", i, c.Where[i], k, err)
						}
					}
				}
				_, _, ended := c.Range.bounds(c.Ps)
				err := d.Err()
				switch {
				case ended:
					x.Class("take-while ended")
					if err != nil {
						return fmt.Errorf("take-while ended the range but Err() = %v", err)
					}
				case c.Tail == "":
					x.Class("clean end")
					if err != nil && err != io.EOF {
						return fmt.Errorf("clean end but Err() = %v", err)
					}
				case c.Tail == "cut":
					x.Class("cut")
					if err != io.ErrUnexpectedEOF {
						return fmt.Errorf("cut stream but Err() = %v", err)
					}
				case c.Tail == "junk":
					x.Class("junk")
					if err != ts.ErrNoSyncByte {
						return fmt.Errorf("sync lost but Err() = %v", err)
					}
				}
				if delivered >= 2 && withheld >= 1 {
					x.NonTrivial([]byte(fmt.Sprint(c.data(), c.Where, c.Range, c.Delays)))
				}
				return nil
			})
		},
	})
}

func unitsOf(ps []*mux.TSPacket) (units [][]byte) {
	for _, p := range ps {
		if p.PUSI {
			units = append(units, []byte{})
		}
		if n := len(units); n > 0 {
			units[n-1] = append(units[n-1], p.Payload...)
		}
	}
	return units
}

func TestT05(t *testing.T) {
	core.Run(t, core.Prop[demuxCase]{
		ID:   "T05",
		Rule: "as T04, each channel consumed raw, through PayloadOnly or through PayloadUnit; everything delivered is compared after all goroutines have run as far as they can and again at the end; non-trivial: at least two items held while more followed",
		Gen:  func(t *rapid.T) demuxCase { return genDemux(t, []string{"raw", "payload", "unit"}) },
		Check: func(c demuxCase, x *core.Ctx) error {
			return core.Bubble(x, func() error {
				d := c.setup()
				type held struct {
					p    *ts.Packet
					data []byte
				}
				got := make([][]held, len(c.Where))
				fin := make(chan error)
				for i := range c.Where {
					ch := d.Where(c.Where[i].build())
					want := c.expected(i)
					units := unitsOf(want)
					check := func(k int, h held) error {
						switch c.Mode[i] {
						case "raw":
							if k >= len(want) {
								return fmt.Errorf("channel %d: extra packet", i)
							}
							return matchTS(h.p, want[k])
						case "payload":
							if k >= len(want) {
								return fmt.Errorf("channel %d: extra payload", i)
							}
							return sameBytes("payload", h.data, want[k].Payload)
						default:
							if k >= len(units) {
								return fmt.Errorf("channel %d: extra payload unit of %d bytes", i, len(h.data))
							}
							return sameBytes("payload unit", h.data, units[k])
						}
					}
					total := len(want)
					if c.Mode[i] == "unit" {
						total = len(units)
					}
					var payloads <-chan []byte
					switch c.Mode[i] {
					case "payload":
						payloads = ch.PayloadOnly()
					case "unit":
						payloads = ch.PayloadUnit()
					}
					go func() {
						var err error
						for k := 0; ; k++ {
							c.delay(i, k)
							var h held
							var ok bool
							if payloads != nil {
								h.data, ok = <-payloads
							} else {
								h.p, ok = <-ch
							}
							if !ok {
								if k != total && err == nil {
									err = fmt.Errorf("channel %d (%s): %d items delivered, want %d", i, c.Mode[i], k, total)
								}
								break
							}
							// Let everything else run on as far as it can.
							time.Sleep(time.Microsecond)
							if e := check(k, h); e != nil && err == nil {
								err = fmt.Errorf("channel %d (%s) item %d while held: %v", i, c.Mode[i], k, e)
							}
							got[i] = append(got[i], h)
						}
						for k, h := range got[i] {
							if e := check(k, h); e != nil && err == nil {
								err = fmt.Errorf("channel %d (%s) item %d at the end: %v", i, c.Mode[i], k, e)
							}
						}
						fin <- err
					}()
				}
				done := d.Go()
				var first error
				closed := 0
				completed := false
				for closed < len(c.Where) || !completed {
					select {
					case err := <-fin:
						closed++
						if first == nil {
							first = err
						}
					case <-done:
						completed = true
						done = nil
					}
				}
				synctest.Wait()
				if first != nil {
					return first
				}
				for i := range got {
					x.Class("%s", c.Mode[i])
					if len(got[i]) >= 2 {
						x.Class("%s", "held "+c.Mode[i])
						x.NonTrivial([]byte(fmt.Sprint(c.data(), c.Where, c.Range, c.Delays, c.Mode)))
					}
				}
				return nil
			})
		},
	})
}

// ---------------------------------------------------------------- T06

type t06Case struct {
	Ps     []mux.TSPacket
	Where  *expr
	Range  rangeSpec
	Cut    int
	Sizes  []int
	Chunks []int
}

func TestT06(t *testing.T) {
	core.Run(t, core.Prop[t06Case]{
		ID:   "T06",
		Rule: "up to 14 packets, random tester and skip/take range, random buffer sizes and chunking, sometimes cut inside a packet; non-trivial: at least two selected payloads and one packet not selected, or a cut",
		Gen: func(t *rapid.T) t06Case {
			c := t06Case{Ps: genPackets(t, 14, mux.TSOpts{PIDs: somePIDs, PUSIPct: 30}), Where: genExpr(t, somePIDs, 2)}
			if mux.Chance(t, 50, "single") {
				c.Where = &expr{Op: "pid", N: 0x21}
			}
			c.Range = genRange(t, c.Ps)
			if mux.Chance(t, 15, "cutit") {
				c.Cut = rapid.IntRange(1, 187).Draw(t, "cut")
			}
			c.Sizes = mux.GenSizes(t, "read", true)
			if len(c.Ps) > 300 && mux.Chance(t, 40, "largereads") {
				c.Sizes = []int{rapid.IntRange(65000, 250000).Draw(t, "largeread")}
			}
			c.Chunks = mux.GenSizes(t, "chunk", false)
			return c
		},
		Check: func(c t06Case, x *core.Ctx) error {
			from, to, ended := c.Range.bounds(c.Ps)
			var want []byte
			sel := 0
			for k := from; k < to; k++ {
				if c.Where.eval(&c.Ps[k]) {
					want = append(want, c.Ps[k].Payload...)
					sel++
				}
			}
			data := mux.BytesOf(c.Ps)
			if c.Cut > 0 {
				data = append(data, make([]byte, 188)...)
				data[len(data)-188] = 0x47
				data = data[:len(data)-c.Cut]
			}
			r := ts.NewPayloadReader(core.NewChunks(data, c.Chunks), c.Where.build())
			if c.Range.Skip != nil {
				r.SkipUntil(c.Range.Skip.build())
			}
			if c.Range.Take != nil {
				r.TakeWhile(c.Range.Take.build())
			}
			out, err := core.Drain(r, c.Sizes, len(data)+1000, nil, nil)
			if err != nil {
				return err
			}
			if err := sameBytes("payload", out.Data, want); err != nil {
				return err
			}
			if c.Cut > 0 && !ended {
				x.Class("cut")
				x.NonTrivial(data)
				if out.Err != io.ErrUnexpectedEOF {
					return fmt.Errorf("stream cut inside a packet: error %v, want %v", out.Err, io.ErrUnexpectedEOF)
				}
				return nil
			}
			if out.Err != io.EOF {
				return fmt.Errorf("final error %v, want EOF", out.Err)
			}
			for k := 0; k < 3; k++ {
				if n, err := r.Read(make([]byte, 10)); n != 0 || err != io.EOF {
					return fmt.Errorf("read after EOF: n=%d err=%v", n, err)
				}
			}
			if ended {
				x.Class("take-while ended")
			}
			if c.Range.Skip != nil {
				if from == len(c.Ps) {
					x.Class("skip never matched")
				} else {
					x.Class("skip matched")
				}
			}
			if sel >= 2 && sel < len(c.Ps) {
				x.NonTrivial([]byte(fmt.Sprint(data, c.Where, c.Range, c.Sizes, c.Chunks)))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- T07

type t07Case struct {
	Ps     []mux.TSPacket
	Where  *expr
	Sizes  []int
	Chunks []int
}

func TestT07(t *testing.T) {
	core.Run(t, core.Prop[t07Case]{
		ID:   "T07",
		Rule: "up to 16 packets over 5 PIDs with random unit starts, random buffer sizes and chunking; non-trivial: at least two units",
		Gen: func(t *rapid.T) t07Case {
			c := t07Case{Ps: genPackets(t, 16, mux.TSOpts{PIDs: somePIDs[:rapid.IntRange(1, 3).Draw(t, "npid")], PUSIPct: rapid.SampledFrom([]int{15, 40, 70}).Draw(t, "pusipct")})}
			c.Where = &expr{Op: "pid", N: 0x21}
			if mux.Chance(t, 25, "other") {
				c.Where = genExpr(t, somePIDs, 2)
			}
			c.Sizes = mux.GenSizes(t, "read", true)
			c.Chunks = mux.GenSizes(t, "chunk", false)
			return c
		},
		Check: func(c t07Case, x *core.Ctx) error {
			var sel []*mux.TSPacket
			for i := range c.Ps {
				if c.Where.eval(&c.Ps[i]) {
					sel = append(sel, &c.Ps[i])
				}
			}
			units := unitsOf(sel)
			var want []byte
			var marks []int
			for _, u := range units {
				want = append(want, u...)
				marks = append(marks, len(want))
			}
			data := mux.BytesOf(c.Ps)
			r := ts.NewPayloadUnitReader(core.NewChunks(data, c.Chunks), c.Where.build())
			var got []int
			out, err := core.Drain(r, c.Sizes, len(data)+1000, func(e error) bool { return e == ts.EOP }, func(off int) { got = append(got, off) })
			if err != nil {
				return err
			}
			if err := sameBytes("units", out.Data, want); err != nil {
				return err
			}
			if fmt.Sprint(got) != fmt.Sprint(marks) {
				return fmt.Errorf("end-of-packet signals at %v, want %v", got, marks)
			}
			if out.Err != io.EOF {
				return fmt.Errorf("final error %v, want EOF", out.Err)
			}
			for k := 0; k < 3; k++ {
				if n, err := r.Read(make([]byte, 10)); n != 0 || err != io.EOF {
					return fmt.Errorf("read after EOF: n=%d err=%v", n, err)
				}
			}
			x.Class("units:%d", min(len(units), 5))
			for _, u := range units {
				if len(u) == 0 {
					x.Class("empty unit")
				}
			}
			if len(units) >= 2 {
				x.NonTrivial([]byte(fmt.Sprint(data, c.Where, c.Sizes, c.Chunks)))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- T08

type t08Case struct {
	Data   []byte
	Via    string
	Err    string
	Sizes  []int
	Chunks []int
}

var errSource = errors.New("source failed")

func srcErr(name string) error {
	switch name {
	case "source":
		return errSource
	case "eop":
		return ts.EOP
	case "unexpected":
		return io.ErrUnexpectedEOF
	}
	return nil
}

// mutate damages data in a few random ways.
func mutate(t *rapid.T, data []byte) []byte {
	out := append([]byte(nil), data...)
	n := rapid.IntRange(0, 6).Draw(t, "mutations")
	for i := 0; i < n && len(out) > 0; i++ {
		pos := rapid.IntRange(0, len(out)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0:
			out[pos] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			out[pos] = rapid.SampledFrom([]byte{0, 1, 0x47, 0x7f, 0x80, 0xb7, 0xb8, 0xba, 0xbb, 0xff, 0xfe}).Draw(t, "val")
		case 2:
			out = out[:pos]
		case 3:
			k := min(rapid.IntRange(1, 40).Draw(t, "del"), len(out)-pos)
			out = append(out[:pos:pos], out[pos+k:]...)
		case 4:
			ins := mux.Bytes(t, rapid.IntRange(1, 40).Draw(t, "ins"), "insbytes")
			out = append(out[:pos:pos], append(ins, out[pos:]...)...)
		case 5:
			k := min(rapid.IntRange(1, 400).Draw(t, "dup"), len(out)-pos)
			out = append(out[:pos+k:pos+k], out[pos:]...)
		case 6:
			from := rapid.IntRange(0, len(out)-1).Draw(t, "from")
			copy(out[pos:], out[from:min(len(out), from+rapid.IntRange(1, 200).Draw(t, "copy"))])
		}
	}
	return out
}

func genTSBytes(t *rapid.T) []byte {
	if mux.Chance(t, 15, "noise") {
		return mux.Bytes(t, rapid.IntRange(0, 1500).Draw(t, "len"), "bytes")
	}
	ps := genPackets(t, 8, mux.TSOpts{PIDs: somePIDs, PUSIPct: 40})
	data := mux.BytesOf(ps)
	// aim at the adaptation field: its length and flags
	k := rapid.IntRange(0, 3).Draw(t, "aim")
	for i := 0; i < k && len(ps) > 0; i++ {
		o := 188 * rapid.IntRange(0, len(ps)-1).Draw(t, "which")
		switch rapid.IntRange(0, 3).Draw(t, "what") {
		case 0:
			data[o+4] = rapid.Byte().Draw(t, "aflen")
		case 1:
			data[o+5] = rapid.Byte().Draw(t, "afflags")
		case 2:
			data[o+3] = data[o+3]&0xcf | byte(rapid.IntRange(0, 3).Draw(t, "afc"))<<4
		case 3:
			data[o+6+rapid.IntRange(0, 30).Draw(t, "afoff")] = rapid.Byte().Draw(t, "afval")
		}
	}
	return mutate(t, data)
}

var (
	t08Vias = []string{"packet", "payload", "payload-skip", "unit", "demux"}
	t08Errs = []string{"", "", "", "source", "eop", "unexpected"}
)

func TestT08(t *testing.T) {
	core.Run(t, core.Prop[t08Case]{
		ID: "T08",
		FromBytes: func(data []byte) (c t08Case) {
			c.Via, c.Err, c.Chunks, c.Data = fuzzHead(data, t08Vias, t08Errs)
			c.Sizes = c.Chunks
			return
		},
		Bytes: func(c t08Case) []byte { return fuzzBytes(c.Data, c.Via, c.Err, t08Vias, t08Errs) },
		Rule:  "random, mutated, spliced and truncated transport streams (adaptation-field lengths aimed at) through the packet parser, both payload readers, or the demultiplexer; non-trivial: non-empty input that is not a plain sequence of parseable packets, or a failing source",
		Gen: func(t *rapid.T) t08Case {
			return t08Case{
				Data:   genTSBytes(t),
				Via:    rapid.SampledFrom(t08Vias).Draw(t, "via"),
				Err:    rapid.SampledFrom(t08Errs).Draw(t, "err"),
				Sizes:  mux.GenSizes(t, "read", false),
				Chunks: mux.GenSizes(t, "chunk", false),
			}
		},
		Check: func(c t08Case, x *core.Ctx) error {
			src := core.NewChunks(c.Data, c.Chunks)
			src.Err = srcErr(c.Err)
			before := core.AllocBytes()
			var final error
			switch c.Via {
			case "packet":
				br := &core.CountingBits{BitReader: bitreader.NewReader(src), Budget: 40*len(c.Data) + 20000}
				for n := 0; ; n++ {
					start := br.Bits
					p, err := ts.NewPacket(br)
					if took := (br.Bits - start) / 8; took > 1024 {
						return fmt.Errorf("packet %d takes in %d bytes (error %v)", n, took, err)
					}
					if err != nil {
						final = err
						break
					}
					if len(p.Payload) > 184 {
						return fmt.Errorf("payload of %d bytes", len(p.Payload))
					}
					if n > len(c.Data)/188+2 {
						return fmt.Errorf("%d packets from %d bytes", n, len(c.Data))
					}
				}
			case "payload", "payload-skip", "unit":
				var r io.Reader
				if c.Via == "unit" {
					r = ts.NewPayloadUnitReader(src, ts.IsPID(0x21))
				} else {
					pr := ts.NewPayloadReader(src, ts.IsPID(0x21))
					if c.Via == "payload-skip" {
						pr.SkipUntil(ts.IsPID(0x31))
						pr.TakeWhile(ts.IsPID(0x41).Not())
					}
					r = pr
				}
				marks := 0
				out, err := core.Drain(r, c.Sizes, len(c.Data)+1000, func(e error) bool {
					return e == ts.EOP && c.Err != "eop"
				}, func(int) { marks++ })
				if err != nil {
					return err
				}
				if marks > len(c.Data)/188+2 {
					return fmt.Errorf("%d end-of-packet signals from %d bytes", marks, len(c.Data))
				}
				final = out.Err
			case "demux":
				n := 0
				err := core.Bubble(x, func() error {
					d := ts.NewDemuxer(src)
					a, b := d.Where(ts.IsPID(0x21)), d.Where(ts.IsPayloadUnitStart)
					done := d.Go()
					for a != nil || b != nil || done != nil {
						select {
						case _, ok := <-a:
							if !ok {
								a = nil
							}
							n++
						case _, ok := <-b:
							if !ok {
								b = nil
							}
							n++
						case <-done:
							done = nil
						}
					}
					final = d.Err()
					return nil
				})
				if err != nil {
					return err
				}
				if n > 2*(len(c.Data)/188+2)+2 {
					return fmt.Errorf("%d packets from %d bytes", n, len(c.Data))
				}
				if final == nil {
					final = io.EOF
				}
			}
			if used := core.AllocBytes() - before; used > 8<<20+600*uint64(len(c.Data)) {
				return fmt.Errorf("allocated %d bytes for %d bytes of input", used, len(c.Data))
			}
			x.Class("%s", c.Via)
			x.Class("end: %v", final)
			if c.Err != "" || final != io.EOF {
				x.NonTrivial([]byte(c.Via + c.Err + string(c.Data)))
			}
			return nil
		},
	})
}
