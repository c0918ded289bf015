package checks

import (
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mux"
)

// I01: several parsers, readers and demuxers at work at the same time, each on
// a stream of its own, one operation after the other or concurrently: each
// gives what it gives alone, and what it has given stays as it was.

type isoInst struct {
	Kind   string
	TS     []mux.TSPacket  `json:",omitempty"`
	Where  *expr           `json:",omitempty"`
	PES    []mux.PESPacket `json:",omitempty"`
	Packs  []mux.PSPack    `json:",omitempty"`
	Sizes  []int
	Chunks []int
}

type isoCase struct {
	Insts      []isoInst
	Order      []int
	Concurrent bool
}

var isoKinds = []string{"ts packets", "ts reused", "ts payload", "ts units", "ts demux", "ts demux payload", "ts demux units",
	"pes packets", "pes reused", "pes payload", "ps headers", "ps decoder", "ps decoder payload", "ps reader"}

func genIso(t *rapid.T, kind string) isoInst {
	c := isoInst{Kind: kind}
	switch c.Kind[:2] {
	case "ts":
		n := rapid.IntRange(1, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.TS = append(c.TS, mux.GenPacket(t, mux.TSOpts{PIDs: somePIDs[:2], PUSIPct: 40}))
		}
		c.Where = &expr{Op: "pid", N: 0x21}
		if mux.Chance(t, 50, "other") {
			c.Where = genExpr(t, somePIDs, 2)
		}
		if mux.Chance(t, 30, "anypid") {
			c.Where = &expr{Op: "or", A: c.Where, B: &expr{Op: "pid", N: rapid.Uint32Range(0, 0x1FFF).Draw(t, "pid")}}
		}
	case "pe":
		n := rapid.IntRange(1, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.PES = append(c.PES, mux.GenPES(t, rapid.SampledFrom([]int{1, 40, 300}).Draw(t, "max")))
		}
		if c.PES[n-1].H != nil && mux.Chance(t, 20, "unbounded") {
			c.PES[n-1].Unbounded = true
		}
	case "ps":
		c.Packs = mux.GenPacks(t, 3, 3, rapid.SampledFrom([]int{3, 40, 300}).Draw(t, "max"))
	}
	c.Sizes = mux.GenSizes(t, "read", true)
	if len(c.Sizes) == 0 {
		c.Sizes = []int{512}
	}
	c.Chunks = mux.GenSizes(t, "chunk", false)
	return c
}

// again tells whether to read on after the end (a receiver learns of the end
// only once).
func (c *isoInst) again() bool {
	switch c.Kind {
	case "ts packets", "ts reused", "ts payload", "ts units", "pes packets", "pes reused", "pes payload", "ps reader":
		return true
	}
	return false
}

// held is one value handed out: its text now, and how to make it again.
type held struct {
	then string
	now  func() string
}

// stepper does one operation: what it gave (nil: nothing) and whether it is
// at its end, with the error then.
type stepper func() (*held, bool, string)

func holdBytes(b []byte) *held {
	f := func() string { return fmt.Sprintf("%x", b) }
	return &held{f(), f}
}

func holdValue(v any) *held {
	f := func() string { return deepText(v) }
	return &held{f(), f}
}

// start makes the instance.
func (c *isoInst) start() stepper {
	var data []byte
	switch c.Kind[:2] {
	case "ts":
		data = mux.BytesOf(c.TS)
	case "pe":
		for i := range c.PES {
			data = append(data, c.PES[i].Bytes()...)
		}
	case "ps":
		for i := range c.Packs {
			h, _ := c.Packs[i].H.Encode()
			data = append(data, h...)
			for j := range c.Packs[i].Packets {
				data = append(data, c.Packs[i].Packets[j].Bytes()...)
			}
		}
		data = append(data, mux.ProgramEnd...)
	}
	src := core.NewChunks(data, c.Chunks)
	end := func(err error) (*held, bool, string) { return nil, true, fmt.Sprint(err) }

	reads := func(r io.Reader) stepper {
		i, idle := 0, 0
		return func() (*held, bool, string) {
			buf := make([]byte, c.Sizes[i%len(c.Sizes)])
			i++
			n, err := r.Read(buf)
			if n < 0 || n > len(buf) {
				return end(fmt.Errorf("Read gave %d of %d bytes", n, len(buf)))
			}
			if err == ts.EOP {
				return holdBytes([]byte("end of unit")), false, ""
			}
			if err != nil {
				return end(err)
			}
			if n == 0 {
				if idle++; idle > 2000 {
					return end(errors.New("no progress"))
				}
			} else {
				idle = 0
			}
			return holdBytes(buf[:n]), false, ""
		}
	}
	packets := func(read func(br bitreader.BitReader) (any, error)) stepper {
		br := bitreader.NewReader(src)
		return func() (*held, bool, string) {
			p, err := read(br)
			if err != nil {
				return end(err)
			}
			return holdValue(p), false, ""
		}
	}
	payloads := func(ch <-chan []byte, err func() error) stepper {
		return func() (*held, bool, string) {
			p, ok := <-ch
			if !ok {
				return end(err())
			}
			return holdBytes(p), false, ""
		}
	}

	switch c.Kind {
	case "ts packets":
		return packets(func(br bitreader.BitReader) (any, error) { return ts.NewPacket(br) })
	case "ts reused":
		p := new(ts.Packet)
		return packets(func(br bitreader.BitReader) (any, error) {
			err := p.Next(br)
			q := snapTS(p)
			return &q, err
		})
	case "ts payload":
		return reads(ts.NewPayloadReader(src, c.Where.build()))
	case "ts units":
		return reads(ts.NewPayloadUnitReader(src, c.Where.build()))
	case "ts demux", "ts demux payload", "ts demux units":
		d := ts.NewDemuxer(src)
		ch := d.Where(c.Where.build())
		done := d.Go()
		fin := func() error {
			<-done
			return d.Err()
		}
		switch c.Kind {
		case "ts demux payload":
			return payloads(ch.PayloadOnly(), fin)
		case "ts demux units":
			return payloads(ch.PayloadUnit(), fin)
		}
		return func() (*held, bool, string) {
			p, ok := <-ch
			if !ok {
				return end(fin())
			}
			return holdValue(p), false, ""
		}
	case "pes packets":
		return packets(func(br bitreader.BitReader) (any, error) { return pes.NewPacket(br) })
	case "pes reused":
		p := new(pes.Packet)
		return packets(func(br bitreader.BitReader) (any, error) {
			err := p.Next(br)
			q := snapPES(p)
			return &q, err
		})
	case "pes payload":
		return reads(pes.NewPayloadReader(src))
	case "ps headers":
		n := 0
		br := bitreader.NewReader(src)
		return func() (*held, bool, string) {
			if n == len(c.Packs) {
				return end(nil)
			}
			h, err := ps.NewPackHeader(br)
			if err != nil {
				return end(err)
			}
			for range c.Packs[n].Packets {
				if _, err := pes.NewPacket(br); err != nil {
					return end(err)
				}
			}
			n++
			return holdValue(h), false, ""
		}
	case "ps decoder", "ps decoder payload":
		d := ps.NewDecoder(bitreader.NewReader(src))
		done := d.Go()
		ok := make(chan bool, 1)
		go func() { ok <- <-done }()
		var pack *ps.Pack
		var raw <-chan *pes.Packet
		var pay <-chan []byte
		return func() (*held, bool, string) {
			if pack == nil {
				p, more := <-d.Packs()
				if !more {
					_, _, text := end(d.Err())
					return nil, true, fmt.Sprint(text, <-ok)
				}
				pack = p
				if c.Kind == "ps decoder" {
					raw = p.Packets()
				} else {
					pay = p.Packets().PayloadOnly()
				}
				return holdValue(p.PackHeader), false, ""
			}
			if c.Kind == "ps decoder" {
				if p, more := <-raw; more {
					return holdValue(p), false, ""
				}
			} else if p, more := <-pay; more {
				return holdBytes(p), false, ""
			}
			pack = nil
			return nil, false, ""
		}
	case "ps reader":
		return reads(ps.NewPackReader(src))
	}
	panic("kind " + c.Kind)
}

func TestI01(t *testing.T) {
	type track struct {
		held  []*held
		end   string
		after []string // what further reads give, after the end
	}
	// again reads once more from an instance that is at its end.
	again := func(s stepper, tr *track) {
		h, done, text := s()
		if h != nil {
			text += h.then
		}
		tr.after = append(tr.after, fmt.Sprint(done, text))
	}
	step := func(s stepper, tr *track) bool {
		h, done, text := s()
		if h != nil {
			tr.held = append(tr.held, h)
		}
		if done {
			tr.end = text
		}
		return !done && len(tr.held) < 100000
	}
	core.Run(t, core.Prop[isoCase]{
		ID:   "I01",
		Rule: "at least two instances with two operations each, in turn or concurrently",
		Gen: func(t *rapid.T) isoCase {
			c := isoCase{Concurrent: mux.Chance(t, 30, "concurrent")}
			n := rapid.IntRange(2, 4).Draw(t, "instances")
			for i := 0; i < n; i++ {
				kind := rapid.SampledFrom(isoKinds).Draw(t, "kind")
				if i > 0 && mux.Chance(t, 40, "alike") {
					kind = c.Insts[0].Kind
				}
				c.Insts = append(c.Insts, genIso(t, kind))
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 30).Draw(t, "order")
			return c
		},
		Check: func(c isoCase, x *core.Ctx) error {
			solo := make([]track, len(c.Insts))
			both := make([]track, len(c.Insts))
			alone := func() error {
				err := core.Bubble(x, func() error {
					for i := range c.Insts {
						s := c.Insts[i].start()
						for step(s, &solo[i]) {
						}
						for k := 0; k < 3 && c.Insts[i].again(); k++ {
							again(s, &solo[i])
						}
					}
					return nil
				})
				if err != nil {
					return fmt.Errorf("alone: %w", err)
				}
				return nil
			}
			// concurrent ones come first: what is made at first use is made by
			// several at once, then
			if !c.Concurrent {
				if err := alone(); err != nil {
					return err
				}
			}
			err := core.Bubble(x, func() error {
				var wg sync.WaitGroup
				run := make([]stepper, len(c.Insts))
				left := len(run)
				ended := make([]bool, len(run))
				if c.Concurrent {
					for i := range run {
						wg.Add(1)
						go func() {
							defer wg.Done()
							s := c.Insts[i].start()
							for step(s, &both[i]) {
							}
							for k := 0; k < 3 && c.Insts[i].again(); k++ {
								again(s, &both[i])
							}
						}()
					}
					wg.Wait()
					return nil
				}
				for i := range run {
					run[i] = c.Insts[i].start()
				}
				for k := 0; left > 0; k++ {
					i := c.Order[k%len(c.Order)]
					if k >= 4*len(c.Order) {
						i = k % len(run)
					}
					switch {
					case !ended[i]:
						if !step(run[i], &both[i]) {
							ended[i] = true
							left--
						}
					case c.Insts[i].again() && len(both[i].after) < 3:
						again(run[i], &both[i])
					}
				}
				for i := range run {
					for c.Insts[i].again() && len(both[i].after) < 3 {
						again(run[i], &both[i])
					}
				}
				return nil
			})
			how := "in turn"
			if c.Concurrent {
				how = "concurrently"
			}
			if err != nil {
				return fmt.Errorf("%s: %w", how, err)
			}
			if c.Concurrent {
				if err := alone(); err != nil {
					return err
				}
			}
			busy := 0
			for i := range c.Insts {
				name := fmt.Sprintf("%s (number %d of %d, %s)", c.Insts[i].Kind, i, len(c.Insts), how)
				a, b := solo[i], both[i]
				if len(a.held) != len(b.held) || a.end != b.end {
					return fmt.Errorf("%s: %d values and %s, alone %d and %s", name, len(b.held), b.end, len(a.held), a.end)
				}
				if fmt.Sprint(a.after) != fmt.Sprint(b.after) {
					return fmt.Errorf("%s: reading on after the end gives %.300q, alone %.300q", name, b.after, a.after)
				}
				for k := range a.held {
					if b.held[k].then != a.held[k].then {
						return fmt.Errorf("%s: value %d is %.300s, alone %.300s", name, k, b.held[k].then, a.held[k].then)
					}
					for _, h := range []*held{a.held[k], b.held[k]} {
						if now := h.now(); now != h.then {
							return fmt.Errorf("%s: value %d was %.300s when handed out, is %.300s now", name, k, h.then, now)
						}
					}
				}
				if len(a.held) > 1 {
					busy++
				}
				x.Class("%s", c.Insts[i].Kind)
			}
			x.Class("%s", how)
			if busy > 1 {
				x.NonTrivial([]byte(deepText(c)))
			}
			return nil
		},
	})
}
