package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"testing"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mpv"
	"verifharness/mux"
)

// T10, P05, S05, V14: a source that fails.
//
// The stream is read twice: from a source without fault, which gives the
// reference, and from one that fails at one offset, from then on (sticky) or
// once. What is delivered before an error is reported has to be what the
// reference delivers first; the sticky failure has to be reported as it is,
// after all that had arrived whole before it; a failure that happens once is
// reported, or nothing is lost by it.

type fault struct {
	At   int // offset, taken modulo the length + 1
	Once bool
	EOF  bool // the source just ends (sticky)
	Op   bool // an operation of the bit reader fails: At chooses where in the code, Nth which time
	Nth  int
	Err  string // the error of the source, see srcErr

	cur *opRun
}

// err is the error of the source.
func (f *fault) err() error {
	if f.Err == "" {
		return errSource
	}
	return srcErr(f.Err)
}

// opRun is the state of one run in which an operation may fail.
type opRun struct {
	at  int // -1: none
	n   int // operations so far
	hit bool
	err error

	sites map[[4]uintptr]int // callers of the operations, in order of appearance
	ops   [][]int            // for each its operations
}

// note remembers who asks for the operation, in a run without failure.
func (r *opRun) note() {
	var pcs [4]uintptr
	runtime.Callers(4, pcs[:])
	if r.sites == nil {
		r.sites = map[[4]uintptr]int{}
	}
	k, seen := r.sites[pcs]
	if !seen {
		k = len(r.ops)
		r.sites[pcs] = k
		r.ops = append(r.ops, nil)
	}
	r.ops[k] = append(r.ops[k], r.n)
}

// choose says which operation fails: one of a place in the code, most often
// the first or the last.
func (r *opRun) choose(f *fault) int {
	if len(r.ops) == 0 {
		return 0
	}
	ops := r.ops[f.At%len(r.ops)]
	switch f.Nth % 4 {
	case 0:
		return ops[0]
	case 1:
		return ops[len(ops)-1]
	}
	return ops[f.Nth/4%len(ops)]
}

// failingBits is a bit reader of which an operation fails (all from there on,
// or just one), without any effect. Only an operation that needs bits nobody
// has looked at before can fail.
type failingBits struct {
	bitreader.BitReader
	once  bool
	run   *opRun
	ahead uint // bits looked at and not consumed
}

// op says whether an operation that needs n bits fails.
func (b *failingBits) op(n uint) error {
	if n <= b.ahead {
		return nil
	}
	if b.run.at < 0 {
		b.run.note()
	}
	k := b.run.n
	b.run.n++
	if at := b.run.at; at >= 0 && (k == at || k > at && !b.once) {
		b.run.hit = true
		if k > at+20000 {
			panic(core.ErrSpin)
		}
		return b.run.err
	}
	return nil
}

func (b *failingBits) look(n uint) error {
	err := b.op(n)
	if err == nil {
		b.ahead = max(b.ahead, n)
	}
	return err
}

func (b *failingBits) take(n uint) error {
	err := b.op(n)
	if err == nil {
		b.ahead -= min(b.ahead, n)
	}
	return err
}

func (b *failingBits) Read(p []byte) (int, error) {
	if len(p) > 0 {
		if err := b.op(b.ahead + 1); err != nil {
			return 0, err
		}
	}
	b.ahead = 0
	return b.BitReader.Read(p)
}

func (b *failingBits) Align() (n uint, err error) {
	n, err = b.BitReader.Align()
	b.ahead -= min(b.ahead, n)
	return
}

func (b *failingBits) Skip(n uint) error {
	if err := b.take(n); err != nil {
		return err
	}
	return b.BitReader.Skip(n)
}

func (b *failingBits) Read1() (v bool, err error) {
	if err = b.take(1); err != nil {
		return
	}
	return b.BitReader.Read1()
}

func (b *failingBits) Read8(n uint) (v uint8, err error) {
	if err = b.take(n); err != nil {
		return
	}
	return b.BitReader.Read8(n)
}

func (b *failingBits) Read16(n uint) (v uint16, err error) {
	if err = b.take(n); err != nil {
		return
	}
	return b.BitReader.Read16(n)
}

func (b *failingBits) Read32(n uint) (v uint32, err error) {
	if err = b.take(n); err != nil {
		return
	}
	return b.BitReader.Read32(n)
}

func (b *failingBits) Read64(n uint) (v uint64, err error) {
	if err = b.take(n); err != nil {
		return
	}
	return b.BitReader.Read64(n)
}

func (b *failingBits) Peek1() (v bool, err error) {
	if err = b.look(1); err != nil {
		return
	}
	return b.BitReader.Peek1()
}

func (b *failingBits) Peek8(n uint) (v uint8, err error) {
	if err = b.look(n); err != nil {
		return
	}
	return b.BitReader.Peek8(n)
}

func (b *failingBits) Peek16(n uint) (v uint16, err error) {
	if err = b.look(n); err != nil {
		return
	}
	return b.BitReader.Peek16(n)
}

func (b *failingBits) Peek32(n uint) (v uint32, err error) {
	if err = b.look(n); err != nil {
		return
	}
	return b.BitReader.Peek32(n)
}

func (b *failingBits) Peek64(n uint) (v uint64, err error) {
	if err = b.look(n); err != nil {
		return
	}
	return b.BitReader.Peek64(n)
}

// bits makes the bit reader of a run.
func (f *fault) bits(br bitreader.BitReader) bitreader.BitReader {
	if !f.Op {
		return br
	}
	return &failingBits{BitReader: br, once: f.Once, run: f.cur}
}

func genFault(t *rapid.T, eof bool) fault {
	f := fault{At: rapid.OneOf(rapid.IntRange(0, 1<<20), rapid.IntRange(0, 400)).Draw(t, "at")}
	switch rapid.IntRange(0, 9).Draw(t, "fault") {
	case 0, 1, 2, 3:
		f.Once = true
	case 4:
		f.EOF = eof
	}
	if !f.EOF && mux.Chance(t, 20, "unexpected") {
		f.Err = "unexpected"
	}
	return f
}

// onOps lets an operation of the bit reader fail, most often only one.
func (f *fault) onOps(t *rapid.T) {
	if !f.EOF && mux.Chance(t, 45, "op") {
		f.Op = true
		f.Once = mux.Chance(t, 80, "oponce")
		f.Nth = rapid.IntRange(0, 1<<16).Draw(t, "nth")
	}
}

func (f *fault) kind() string {
	switch {
	case f.EOF:
		return "source ends"
	case f.Op && f.Once:
		return "bit reader fails once"
	case f.Op:
		return "bit reader fails for good"
	case f.Once:
		return "source fails once"
	}
	return "source fails for good"
}

// delivery is what one run delivered: items in order, each a comparable text,
// and the first error.
type delivery struct {
	items []string
	err   error
	clean bool // err is the regular end
}

// judge compares a run with a fault with the reference. whole is the number of
// items that had arrived completely before the fault.
func (f *fault) judge(got, ref delivery, whole int, hit bool) error {
	if !hit {
		// the fault was never met: the run is the reference
		if err := samePrefix(got.items, ref.items); err != nil {
			return err
		}
		if len(got.items) != len(ref.items) || fmt.Sprint(got.err) != fmt.Sprint(ref.err) {
			return fmt.Errorf("%d items and %v, without the fault %d and %v", len(got.items), got.err, len(ref.items), ref.err)
		}
		return nil
	}
	if err := samePrefix(got.items, ref.items); err != nil {
		return err
	}
	if len(got.items) < whole && !(f.Once && got.err == f.err()) {
		return fmt.Errorf("%d items delivered, %d had arrived before the fault (error %v)", len(got.items), whole, got.err)
	}
	if got.err == nil {
		return errors.New("no error at all")
	}
	if f.EOF {
		return nil
	}
	if f.Once {
		if got.err != f.err() && (len(got.items) != len(ref.items) || fmt.Sprint(got.err) != fmt.Sprint(ref.err)) {
			return fmt.Errorf("%d of %d items, then %v instead of %v or the failure", len(got.items), len(ref.items), got.err, ref.err)
		}
		return nil
	}
	if got.err != f.err() {
		return fmt.Errorf("after %d items the error is %v, the source's is %v", len(got.items), got.err, f.err())
	}
	return nil
}

func samePrefix(got, ref []string) error {
	for i := range got {
		if i >= len(ref) {
			return fmt.Errorf("item %d is delivered, without the fault there are %d: %.200s", i, len(ref), got[i])
		}
		if got[i] != ref[i] {
			return fmt.Errorf("item %d is %.300s, without the fault %.300s", i, got[i], ref[i])
		}
	}
	return nil
}

// bytesOf makes items of single bytes: order and number matter only.
func bytesOf(b []byte) []string {
	out := make([]string, len(b))
	for i, c := range b {
		out[i] = string([]byte{c})
	}
	return out
}

// drainFault reads until the first error that is not a mark.
func drainFault(r io.Reader, sizes []int, limit int, marks bool) (d delivery, violation error) {
	out, err := core.Drain(r, sizes, limit, func(e error) bool { return marks && e == ts.EOP }, func(off int) {})
	d.items = bytesOf(out.Data)
	d.err = out.Err
	d.clean = out.Err == io.EOF
	return d, err
}

// source makes the source of one run: the one with the fault says whether it was met.
func (f *fault) source(data []byte, chunks []int, with bool) *core.Faulty {
	s := &core.Faulty{Data: data, Sizes: chunks, At: -1}
	if with && !f.Op {
		s.At, s.Once, s.Err = f.At%(len(data)+1), f.Once, f.err()
		if f.EOF {
			s.Err = io.EOF
		}
	}
	return s
}

type faultCase struct {
	F      fault
	Via    string
	TS     []mux.TSPacket  `json:",omitempty"`
	Junk   []int           `json:",omitempty"` // bytes in front of each packet
	Where  *expr           `json:",omitempty"`
	Range  rangeSpec       `json:",omitempty"`
	PES    []mux.PESPacket `json:",omitempty"`
	Packs  []mux.PSPack    `json:",omitempty"`
	Seq    *mpv.SeqHeader  `json:",omitempty"`
	GOP    *mpv.GOP        `json:",omitempty"`
	S      *mpv.Stream     `json:",omitempty"`
	Sizes  []int
	Chunks []int
}

func faultChunks(t *rapid.T) []int {
	// one byte at a time, most often: then every place can be met exactly
	if mux.Chance(t, 60, "single") {
		return []int{1}
	}
	return mux.GenSizes(t, "chunk", false)
}

// run does the run with the fault and the reference.
func (c *faultCase) run(x *core.Ctx, data []byte, ends []int, read func(src io.Reader) (delivery, error)) error {
	c.F.cur = &opRun{at: -1}
	ref, err := read(c.F.source(data, c.Chunks, false))
	if err != nil {
		return fmt.Errorf("without the fault: %w", err)
	}
	if c.F.Op {
		c.F.cur = &opRun{at: c.F.cur.choose(&c.F), err: c.F.err()}
		got, err := read(c.F.source(data, c.Chunks, true))
		if err == nil {
			err = c.F.judge(got, ref, 0, c.F.cur.hit)
		}
		if err != nil {
			return fmt.Errorf("%s, %s at operation %d: %w", c.Via, c.F.kind(), c.F.cur.at, err)
		}
		x.Class("%s: %s", c.Via, c.F.kind())
		if c.F.cur.hit {
			x.NonTrivial([]byte(fmt.Sprint(data, c.F.cur.at, c.F.Once, c.Via, c.Sizes, c.Chunks)))
		}
		return nil
	}
	src := c.F.source(data, c.Chunks, true)
	got, err := read(src)
	if err != nil {
		return fmt.Errorf("%s at %d of %d: %w", c.F.kind(), src.At, len(data), err)
	}
	whole := 0
	for _, e := range ends {
		if e <= src.At {
			whole++
		}
	}
	if err := c.F.judge(got, ref, whole, src.Hit); err != nil {
		return fmt.Errorf("%s, %s at %d of %d: %w", c.Via, c.F.kind(), src.At, len(data), err)
	}
	x.Class("%s: %s", c.Via, c.F.kind())
	if src.Hit {
		x.Class("met: %s", c.F.kind())
	}
	if src.Hit && src.At < len(data) {
		x.NonTrivial([]byte(fmt.Sprint(data, c.F.At, c.F.Once, c.F.EOF, c.Via, c.Sizes, c.Chunks)))
	}
	return nil
}

func text(v any) string { return fmt.Sprintf("%+v", v) }

// deep writes out a value with what its pointers point to.
func deep(v reflect.Value, b *bytes.Buffer) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil ")
			return
		}
		deep(v.Elem(), b)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue // not for users to see
			}
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			deep(v.Field(i), b)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i), b)
		}
		b.WriteString("]")
	case reflect.Chan, reflect.Func, reflect.Map, reflect.UnsafePointer:
		b.WriteString("- ")
	default:
		fmt.Fprintf(b, "%v ", v)
	}
}

func deepText(v any) string {
	var b bytes.Buffer
	deep(reflect.ValueOf(v), &b)
	return b.String()
}

func TestT10(t *testing.T) {
	core.Run(t, core.Prop[faultCase]{
		ID:   "T10",
		Rule: "the source failed before its end while packets or payload were read",
		Gen: func(t *rapid.T) faultCase {
			c := faultCase{F: genFault(t, true), Via: rapid.SampledFrom([]string{"packet", "packet", "payload", "unit", "demux"}).Draw(t, "via")}
			if c.Via == "packet" {
				c.F.onOps(t)
			}
			n := rapid.IntRange(1, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.TS = append(c.TS, mux.GenPacket(t, mux.TSOpts{PIDs: somePIDs[:2], PUSIPct: 40}))
			}
			if mux.Chance(t, 30, "junk") {
				c.Junk = rapid.SliceOfN(rapid.IntRange(0, 187), n, n).Draw(t, "junk")
			}
			c.Where = &expr{Op: "pid", N: 0x21}
			if mux.Chance(t, 30, "other") {
				c.Where = genExpr(t, somePIDs, 2)
			}
			c.Range = genRange(t, c.TS)
			c.Sizes = mux.GenSizes(t, "read", true)
			c.Chunks = faultChunks(t)
			return c
		},
		Check: func(c faultCase, x *core.Ctx) error {
			var data []byte
			var ends []int // of the items
			from, to, _ := c.Range.bounds(c.TS)
			started := false
			for i := range c.TS {
				for k := 0; i < len(c.Junk) && k < c.Junk[i]; k++ {
					data = append(data, byte(k)&0x3f)
				}
				data = append(data, mux.BytesOf(c.TS[i:i+1])...)
				end := len(data)
				sel := c.Where.eval(&c.TS[i])
				started = started || sel && c.TS[i].PUSI
				switch c.Via {
				case "packet":
					ends = append(ends, end)
				case "demux":
					if sel && i >= from && i < to {
						ends = append(ends, end)
					}
				case "payload":
					if sel && i >= from && i < to {
						for range c.TS[i].Payload {
							ends = append(ends, end)
						}
					}
				case "unit":
					if sel && started {
						for range c.TS[i].Payload {
							ends = append(ends, end)
						}
					}
				}
			}
			return c.run(x, data, ends, func(src io.Reader) (d delivery, err error) {
				switch c.Via {
				case "packet":
					br := c.F.bits(bitreader.NewReader(src))
					for len(d.items) <= len(c.TS) {
						p, err := ts.NewPacket(br)
						if err != nil {
							d.err, d.clean = err, err == io.EOF
							return d, nil
						}
						q := snapTS(p)
						d.items = append(d.items, deepText(&q))
					}
					return d, errors.New("more packets than there are")
				case "payload":
					r := ts.NewPayloadReader(src, c.Where.build())
					if c.Range.Skip != nil {
						r.SkipUntil(c.Range.Skip.build())
					}
					if c.Range.Take != nil {
						r.TakeWhile(c.Range.Take.build())
					}
					return drainFault(r, c.Sizes, len(data)+1000, false)
				case "unit":
					return drainFault(ts.NewPayloadUnitReader(src, c.Where.build()), c.Sizes, len(data)+1000, true)
				}
				err = core.Bubble(x, func() error {
					dm := ts.NewDemuxer(src)
					if c.Range.Skip != nil {
						dm.SkipUntil(c.Range.Skip.build())
					}
					if c.Range.Take != nil {
						dm.TakeWhile(c.Range.Take.build())
					}
					ch := dm.Where(c.Where.build())
					done := dm.Go()
					for p := range ch {
						q := snapTS(p)
						d.items = append(d.items, deepText(&q))
					}
					<-done
					d.err = dm.Err()
					if d.err == nil {
						d.err = io.EOF // take-while ended it
					}
					d.clean = d.err == io.EOF
					return nil
				})
				return d, err
			})
		},
	})
}

func TestP05(t *testing.T) {
	core.Run(t, core.Prop[faultCase]{
		ID:   "P05",
		Rule: "the source failed before its end while packets or payload were read",
		Gen: func(t *rapid.T) faultCase {
			c := faultCase{F: genFault(t, true), Via: rapid.SampledFrom([]string{"packet", "packet", "packet", "reader"}).Draw(t, "via")}
			if c.Via == "packet" {
				c.F.onOps(t)
			}
			n := rapid.IntRange(1, 3).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.PES = append(c.PES, mux.GenPES(t, rapid.SampledFrom([]int{1, 3, 40, 300}).Draw(t, "max")))
			}
			if !c.F.EOF && c.PES[n-1].H != nil && mux.Chance(t, 20, "unbounded") {
				c.PES[n-1].Unbounded = true
			}
			c.Sizes = mux.GenSizes(t, "read", true)
			c.Chunks = faultChunks(t)
			return c
		},
		Check: func(c faultCase, x *core.Ctx) error {
			var data []byte
			var ends []int
			for i := range c.PES {
				data = append(data, c.PES[i].Bytes()...)
				switch {
				case c.PES[i].Unbounded && c.Via == "reader":
				case c.PES[i].Unbounded:
				case c.Via == "packet":
					ends = append(ends, len(data))
				default:
					for range wantPayload(&c.PES[i]) {
						ends = append(ends, len(data))
					}
				}
			}
			return c.run(x, data, ends, func(src io.Reader) (d delivery, err error) {
				if c.Via == "reader" {
					return drainFault(pes.NewPayloadReader(src), c.Sizes, len(data)+1000, false)
				}
				br := c.F.bits(bitreader.NewReader(src))
				for len(d.items) <= len(c.PES) {
					p, err := pes.NewPacket(br)
					if err != nil {
						d.err, d.clean = err, err == io.EOF
						return d, nil
					}
					d.items = append(d.items, deepText(p))
				}
				return d, errors.New("more packets than there are")
			})
		},
	})
}

func TestS05(t *testing.T) {
	core.Run(t, core.Prop[faultCase]{
		ID:   "S05",
		Rule: "the source failed before its end while pack headers, packs or payload were read",
		Gen: func(t *rapid.T) faultCase {
			c := faultCase{F: genFault(t, true), Via: rapid.SampledFrom([]string{"header", "header", "reader", "decoder"}).Draw(t, "via")}
			if c.Via != "reader" {
				c.F.onOps(t)
			}
			if c.Via == "header" {
				n := rapid.IntRange(1, 2).Draw(t, "n")
				for i := 0; i < n; i++ {
					c.Packs = append(c.Packs, mux.PSPack{H: mux.GenPackHeader(t, rapid.SampledFrom([]int{0, 3, 10}).Draw(t, "maxstreams"))})
				}
			} else {
				c.Packs = mux.GenPacks(t, 3, 3, rapid.SampledFrom([]int{3, 40, 300}).Draw(t, "max"))
			}
			c.Sizes = mux.GenSizes(t, "read", true)
			c.Chunks = faultChunks(t)
			return c
		},
		Check: func(c faultCase, x *core.Ctx) error {
			var data []byte
			var ends []int
			for i := range c.Packs {
				h, _ := c.Packs[i].H.Encode()
				data = append(data, h...)
				switch c.Via {
				case "header":
					ends = append(ends, len(data)+4) // the following start code is looked at
				case "decoder":
					ends = append(ends, len(data)+4)
				}
				for j := range c.Packs[i].Packets {
					data = append(data, c.Packs[i].Packets[j].Bytes()...)
					switch c.Via {
					case "decoder":
						ends = append(ends, len(data))
					case "reader":
						for range wantPayload(&c.Packs[i].Packets[j]) {
							ends = append(ends, len(data))
						}
					}
				}
			}
			data = append(data, mux.ProgramEnd...)
			return c.run(x, data, ends, func(src io.Reader) (d delivery, err error) {
				switch c.Via {
				case "reader":
					return drainFault(ps.NewPackReader(src), c.Sizes, len(data)+1000, false)
				case "header":
					br := c.F.bits(bitreader.NewReader(src))
					for range c.Packs {
						h, err := ps.NewPackHeader(br)
						if err != nil {
							d.err = err
							return d, nil
						}
						d.items = append(d.items, deepText(h))
					}
					d.err, d.clean = io.EOF, true
					return d, nil
				}
				err = core.Bubble(x, func() error {
					dec := ps.NewDecoder(c.F.bits(bitreader.NewReader(src)))
					done := dec.Go()
					var ok bool
					fin := make(chan struct{})
					go func() { ok = <-done; close(fin) }()
					for p := range dec.Packs() {
						d.items = append(d.items, deepText(p.PackHeader))
						for q := range p.Packets() {
							d.items = append(d.items, deepText(q))
						}
					}
					<-fin
					d.err = dec.Err()
					if ok != (d.err == nil) {
						return fmt.Errorf("success is %v, the error %v", ok, d.err)
					}
					if d.err == nil {
						d.err, d.clean = io.EOF, true
					}
					return nil
				})
				return d, err
			})
		},
	})
}

func TestV14(t *testing.T) {
	core.Run(t, core.Prop[faultCase]{
		ID:       "V14",
		Rule:     "the source failed before its end while headers or pictures were read",
		CPULimit: 60 * time.Second,
		Gen: func(t *rapid.T) faultCase {
			c := faultCase{F: genFault(t, false), Via: rapid.SampledFrom([]string{"pictures", "pictures", "pictures", "sequence header", "group header"}).Draw(t, "via")}
			c.F.onOps(t)
			switch c.Via {
			case "pictures":
				c.S = mpv.GenStream(t, mpv.Opts{Types: rapid.SampledFrom([]string{"I", "IP", "IPB"}).Draw(t, "types"), MaxPics: 4, MaxMB: 3, GroupMax: 4, Matrices: 15, Extras: 30, Repeat: 15, Sequences: 10})
			case "sequence header":
				c.Seq = mpv.GenSeq(t, 16, 16, true, mpv.Opts{Types: "IP", Matrices: 50})
			case "group header":
				c.GOP = mpv.GenGOP(t, true, mpv.Opts{})
			}
			c.Chunks = faultChunks(t)
			return c
		},
		Check: func(c faultCase, x *core.Ctx) error {
			e := &mpv.Enc{}
			switch c.Via {
			case "pictures":
				c.S.Expand()
				e = c.S.Encode()
			case "sequence header":
				c.Seq.Header(e)
			case "group header":
				c.GOP.Write(e)
			}
			e.Align()
			data := e.Buf
			var ends []int
			if c.Via == "pictures" {
				// a picture has arrived with the first slice of the next one
				slices := firstSlices(data)
				order, _ := c.S.Display()
				at := make([]int, len(order))
				for i, o := range order {
					at[o] = i
				}
				needed := 0
				for _, i := range at {
					needed = max(needed, i)
					if needed+1 < len(slices) {
						ends = append(ends, slices[needed+1])
					} else {
						ends = append(ends, len(data))
					}
				}
			} else {
				ends = []int{len(data) + 4}
				data = append(data, 0, 0, 1, 0xB8)
			}
			return c.run(x, data, ends, func(src io.Reader) (d delivery, err error) {
				br := c.F.bits(bitreader.NewReader(src))
				switch c.Via {
				case "sequence header":
					h, err := video.ReadSequenceHeader(br)
					if err == nil {
						d.items = append(d.items, deepText(h))
						err, d.clean = io.EOF, true
					}
					d.err = err
					return d, nil
				case "group header":
					h, err := video.ReadGOPHeader(br)
					if err == nil {
						d.items = append(d.items, deepText(h))
						err, d.clean = io.EOF, true
					}
					d.err = err
					return d, nil
				}
				vs := video.NewVideoSequence(src)
				vs.BitReader = c.F.bits(vs.BitReader)
				for {
					img, err := vs.Next()
					if err == video.EOS && src.(*core.Faulty).Off < len(data) {
						continue // another sequence follows
					}
					if err != nil {
						d.err, d.clean = err, err == video.EOS
						return d, nil
					}
					if len(d.items) > len(c.S.Items) {
						return d, errors.New("more pictures than there are")
					}
					f, err := mpv.FrameOf(img)
					if err != nil {
						return d, err
					}
					d.items = append(d.items, fmt.Sprintf("%d x %d %x", f.W, f.H, f.P))
				}
			})
		},
	})
}
