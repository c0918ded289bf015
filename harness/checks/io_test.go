package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mux"
)

// I03: the readers between the sources and the consumers of the standard
// library: whatever reads from them, and whatever they read from, the bytes
// are the same, in the caller's buffer and nowhere else.

type ioOp struct {
	Op string
	N  int
}

type ioCase struct {
	In     isoInst // Kind: "ts payload", "ts units", "pes payload", "pes in units" or "ps reader"
	Layout []int   // of the units
	Source string
	Ops    []ioOp
	Rest   string // how what is left is read
	Gap    int    // items that give no bytes, in a row
	GapAt  int
}

var (
	ioKinds   = []string{"ts payload", "ts units", "pes payload", "pes in units", "ps reader"}
	ioSources = []string{"bytes", "strings", "one byte", "half", "multi", "limit", "section", "bufio", "tee", "pipe", "buffer"}
	ioOps     = []string{"read", "read", "full", "at least", "copy", "byte", "limit", "nothing", "writer", "multi"}
	ioRests   = []string{"all", "copy", "bufio", "scanner", "buffer", "one byte", "read"}
)

// open makes the reader; shut ends its source.
func (c *ioCase) open(source string) (r io.Reader, shut func()) {
	var data []byte
	empty := []byte{0, 0, 1, 0xC0, 0, 3, 0x80, 0, 0} // a PES packet without payload
	switch c.In.Kind {
	case "ts payload", "ts units":
		null := append([]byte{0x47, 0x1F, 0xFF, 0x10}, bytes.Repeat([]byte{0xFF}, 184)...)
		at := min(c.GapAt, len(c.In.TS))
		data = append(data, mux.BytesOf(c.In.TS[:at])...)
		data = append(data, bytes.Repeat(null, c.Gap)...)
		data = append(data, mux.BytesOf(c.In.TS[at:])...)
	case "pes payload", "pes in units":
		at := c.GapAt % len(c.In.PES) // the last may be unbounded
		var units [][]byte
		for i := range c.In.PES {
			for k := 0; i == at && k < c.Gap; k++ {
				units = append(units, empty)
			}
			units = append(units, c.In.PES[i].Bytes())
		}
		if c.In.Kind == "pes payload" {
			data = bytes.Join(units, nil)
		} else {
			data = mux.Transport(units, 0x21, c.Layout, []int{0, 1})
		}
	case "ps reader":
		at := 1 + c.GapAt%len(c.In.Packs)
		data, _ = mux.ProgramBytes(c.In.Packs[:at])
		data = append(data, bytes.Repeat(empty, c.Gap)...)
		rest, _ := mux.ProgramBytes(c.In.Packs[at:])
		data = append(append(data, rest...), mux.ProgramEnd...)
	}
	var src io.Reader
	shut = func() {}
	switch source {
	case "chunks":
		src = core.NewChunks(data, c.In.Chunks)
	case "bytes":
		src = bytes.NewReader(data)
	case "strings":
		src = strings.NewReader(string(data))
	case "one byte":
		src = iotest.OneByteReader(bytes.NewReader(data))
	case "half":
		src = iotest.HalfReader(bytes.NewReader(data))
	case "multi":
		k := len(data) / 3
		src = io.MultiReader(bytes.NewReader(data[:k]), strings.NewReader(""), bytes.NewReader(data[k:]))
	case "limit":
		src = io.LimitReader(io.MultiReader(bytes.NewReader(data), bytes.NewReader(make([]byte, 400))), int64(len(data)))
	case "section":
		src = io.NewSectionReader(strings.NewReader("junk"+string(data)+"junk"), 4, int64(len(data)))
	case "bufio":
		src = bufio.NewReaderSize(core.NewChunks(data, c.In.Chunks), 16)
	case "tee":
		src = io.TeeReader(bytes.NewReader(data), io.Discard)
	case "pipe":
		pr, pw := io.Pipe()
		src, shut = pr, func() { pr.Close() }
		go func() {
			for i := 0; len(data) > 0; i++ {
				n := len(data)
				if len(c.In.Chunks) > 0 {
					n = max(1, min(n, c.In.Chunks[i%len(c.In.Chunks)]))
				}
				if _, err := pw.Write(data[:n]); err != nil {
					return
				}
				data = data[n:]
			}
			pw.Close()
		}()
	case "buffer":
		src = bytes.NewBuffer(data)
	}
	switch c.In.Kind {
	case "ts payload":
		r = ts.NewPayloadReader(src, c.In.Where.build())
	case "ts units":
		r = ts.NewPayloadUnitReader(src, c.In.Where.build())
	case "pes payload":
		r = pes.NewPayloadReader(src)
	case "pes in units":
		r = pes.NewPayloadReader(ts.NewPayloadUnitReader(src, ts.IsPID(0x21)))
	case "ps reader":
		r = ps.NewPackReader(src)
	}
	return
}

// onlyReader and onlyWriter have no other methods.
type onlyReader struct{ io.Reader }
type onlyWriter struct{ io.Writer }

// part is what comes up to an error.
type part struct {
	data []byte
	err  error
}

func TestI03(t *testing.T) {
	core.Run(t, core.Prop[ioCase]{
		ID:   "I03",
		Rule: "one of the five readers between one of eleven kinds of source and a sequence of ways of reading from it (io.ReadFull, ReadAtLeast, CopyN, LimitReader, MultiReader, bufio, ReadAll, Copy, a scanner, single reads into a buffer with guards that is overwritten after each); non-trivial: at least two ways of reading that gave bytes",
		Gen: func(t *rapid.T) ioCase {
			kind := ioKinds[uniform(t, len(ioKinds), "kind")]
			iso := kind
			if iso == "pes in units" {
				iso = "pes payload"
			}
			c := ioCase{In: genIso(t, iso)}
			c.In.Kind = kind
			if kind == "pes in units" {
				for i := range c.In.PES {
					if p := &c.In.PES[i]; p.H == nil {
						p.Unbounded = false
					} else if mux.Chance(t, 30, "unboundedunit") {
						p.Unbounded = true
					}
				}
				c.Layout = rapid.SliceOfN(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 182)), 1, 3).Draw(t, "layout")
			}
			c.Source = ioSources[uniform(t, len(ioSources), "source")]
			for n := rapid.IntRange(0, 8).Draw(t, "nops"); n > 0; n-- {
				c.Ops = append(c.Ops, ioOp{ioOps[uniform(t, len(ioOps), "op")], rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 600), rapid.SampledFrom([]int{184, 368, 4096})).Draw(t, "k")})
			}
			if mux.Chance(t, 10, "gap") {
				c.Gap = rapid.IntRange(1, 130).Draw(t, "gapn")
			}
			c.GapAt = rapid.IntRange(0, 6).Draw(t, "gapat")
			c.Rest = ioRests[uniform(t, len(ioRests), "rest")]
			return c
		},
		Check: func(c ioCase, x *core.Ctx) error {
			// what comes, read plainly
			var parts []part
			{
				r, _ := c.open("chunks")
				from := 0
				var marks []int
				out, err := core.Drain(r, []int{512}, 1<<22, func(err error) bool { return err == ts.EOP }, func(off int) { marks = append(marks, off) })
				if err != nil {
					return err
				}
				for _, m := range marks {
					parts = append(parts, part{out.Data[from:m], ts.EOP})
					from = m
				}
				parts = append(parts, part{out.Data[from:], out.Err})
				if out.Err != io.EOF {
					return fmt.Errorf("read plainly: %v", out.Err)
				}
			}
			total := 0
			for _, p := range parts {
				total += len(p.data)
			}
			r, shut := c.open(c.Source)
			defer shut()
			var ways int
			// got compares what an operation gave with what comes next.
			got := func(what string, data []byte) error {
				p := &parts[0]
				if len(data) > len(p.data) || !bytes.Equal(data, p.data[:len(data)]) {
					return fmt.Errorf("%s: %d bytes % .20x, expected of the %d bytes % .20x", what, len(data), data, len(p.data), p.data)
				}
				p.data = p.data[len(data):]
				if len(data) > 0 {
					ways++
				}
				return nil
			}
			// ended takes note of the error at the end of a part.
			ended := func(what string, err error) error {
				p := &parts[0]
				if len(p.data) > 0 || err != p.err {
					return fmt.Errorf("%s: error %v with %d bytes before %v", what, err, len(p.data), p.err)
				}
				if len(parts) > 1 {
					parts = parts[1:]
				}
				return nil
			}
			const guard, behind = 8, 400
			var buf []byte // of the previous read, and what it held
			var then []byte
			read := func(r io.Reader, k int) (data []byte, err error, bad error) {
				if !bytes.Equal(buf, then) {
					return nil, nil, errors.New("the buffer of an earlier read was changed after it")
				}
				for i := range buf {
					buf[i] = 0xEE // the caller uses it for something else
				}
				if len(buf) != guard+k+behind {
					buf = make([]byte, guard+k+behind)
				}
				for i := range buf {
					buf[i] = 0xA5
				}
				n, err := r.Read(buf[guard : guard+k])
				if n < 0 || n > k {
					return nil, nil, fmt.Errorf("read of %d bytes: n=%d", k, n)
				}
				for i := range buf {
					if (i < guard || i >= guard+k) && buf[i] != 0xA5 {
						return nil, nil, errors.New("bytes outside of the buffer were written")
					}
				}
				then = append(then[:0], buf...)
				return append([]byte{}, buf[guard:guard+n]...), err, nil
			}
			// either checks the outcome of an operation that wants k bytes.
			either := func(what string, data []byte, k int, err error) error {
				p := parts[0]
				if e := got(what, data); e != nil {
					return e
				}
				switch {
				case len(data) > k:
					return fmt.Errorf("%s: %d bytes", what, len(data))
				case len(data) == k:
					if err != nil {
						return fmt.Errorf("%s: all bytes and %v", what, err)
					}
					return nil
				case err == io.ErrUnexpectedEOF && p.err == io.EOF && len(data) > 0:
					err = io.EOF
				}
				return ended(what, err)
			}
			idle := 0
			for i, o := range c.Ops {
				what := fmt.Sprintf("%s, operation %d: %s %d", c.In.Kind, i, o.Op, o.N)
				var bad error
				switch o.Op {
				case "read", "multi":
					from := r
					if o.Op == "multi" {
						from = io.MultiReader(onlyReader{r})
					}
					data, err, e := read(from, o.N)
					if e != nil {
						return fmt.Errorf("%s: %v", what, e)
					}
					if bad = got(what, data); bad == nil && err != nil {
						bad = ended(what, err)
					}
					if len(data) == 0 && err == nil {
						if idle++; idle > 20 {
							bad = fmt.Errorf("%s: no progress", what)
						}
					}
				case "nothing":
					n, err := r.Read(nil)
					if n != 0 {
						return fmt.Errorf("%s: n=%d", what, n)
					}
					if err != nil {
						bad = ended(what, err)
					}
				case "full", "byte":
					k := o.N
					if o.Op == "byte" {
						k = 1
					}
					b := make([]byte, k)
					n, err := io.ReadFull(r, b)
					bad = either(what, b[:n], k, err)
				case "at least":
					b := make([]byte, o.N+100)
					n, err := io.ReadAtLeast(r, b, o.N)
					if n >= o.N {
						bad = got(what, b[:n])
						if err != nil {
							bad = fmt.Errorf("%s: %d bytes and %v", what, n, err)
						}
					} else {
						bad = either(what, b[:n], o.N, err)
					}
				case "copy":
					var w bytes.Buffer
					n, err := io.CopyN(&w, r, int64(o.N))
					if int(n) != w.Len() {
						return fmt.Errorf("%s: n=%d, %d bytes", what, n, w.Len())
					}
					bad = either(what, w.Bytes(), o.N, err)
				case "writer":
					var w bytes.Buffer
					n, err := io.CopyN(onlyWriter{&w}, r, int64(o.N))
					if int(n) != w.Len() {
						return fmt.Errorf("%s: n=%d, %d bytes", what, n, w.Len())
					}
					bad = either(what, w.Bytes(), o.N, err)
				case "limit":
					b, err := io.ReadAll(io.LimitReader(r, int64(o.N)))
					if err == nil && len(b) < o.N {
						err = io.EOF
					}
					bad = either(what, b, o.N, err)
				}
				if bad != nil {
					return bad
				}
			}
			x.Class("%s from %s", c.In.Kind, c.Source)
			x.Class("rest: %s", c.Rest)
			// the rest, part by part
			for {
				what := fmt.Sprintf("%s, the rest: %s", c.In.Kind, c.Rest)
				last := len(parts) == 1
				var data []byte
				var err error
				switch c.Rest {
				case "all":
					if data, err = io.ReadAll(r); err == nil {
						err = io.EOF
					}
				case "copy":
					var w bytes.Buffer
					if _, err = io.Copy(onlyWriter{&w}, r); err == nil {
						err = io.EOF
					}
					data = w.Bytes()
				case "buffer":
					var w bytes.Buffer
					if _, err = w.ReadFrom(r); err == nil {
						err = io.EOF
					}
					data = w.Bytes()
				case "bufio":
					// the same bufio.Reader would do for all parts: its error comes once
					br := bufio.NewReaderSize(r, 16+total%100)
					for err == nil {
						var b byte
						if b, err = br.ReadByte(); err == nil {
							data = append(data, b)
						}
					}
				case "scanner":
					s := bufio.NewScanner(r)
					s.Split(bufio.ScanBytes)
					for s.Scan() {
						data = append(data, s.Bytes()...)
					}
					if err = s.Err(); err == nil {
						err = io.EOF
					}
				case "one byte":
					if data, err = io.ReadAll(iotest.OneByteReader(r)); err == nil {
						err = io.EOF
					}
				case "read":
					for n := 0; err == nil; {
						var b []byte
						var e error
						if b, err, e = read(r, 97); e != nil {
							return fmt.Errorf("%s: %v", what, e)
						}
						data = append(data, b...)
						if len(b) > 0 {
							n = 0
						} else if n++; n > 1000 {
							return fmt.Errorf("%s: no progress", what)
						}
					}
				}
				if len(data) != len(parts[0].data) {
					return fmt.Errorf("%s: %d bytes, then %v; expected %d, then %v", what, len(data), err, len(parts[0].data), parts[0].err)
				}
				if e := got(what, data); e != nil {
					return e
				}
				if e := ended(what, err); e != nil {
					return e
				}
				if last {
					break
				}
			}
			if ways >= 2 {
				x.NonTrivial([]byte(fmt.Sprint(c.In.Kind, c.Source, c.Ops, c.Rest, total)))
			}
			return nil
		},
	})
}
