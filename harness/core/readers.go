package core

import (
	"errors"
	"fmt"
	"io"
	"runtime/metrics"
	"testing"
	"testing/synctest"

	"github.com/32bitkid/bitreader"
)

// Chunks hands out data in reads of the given sizes (cycled; none: all at
// once) and then Err (io.EOF by default), on its own, never with data. It
// panics when it is asked again and again after the end.
type Chunks struct {
	Data  []byte
	Sizes []int
	Err   error

	Off   int
	i     int
	after int
	Reads int
}

// ErrSpin is what a reader that is polled endlessly after its end panics with.
var ErrSpin = errors.New("verif: source polled endlessly after its end")

const spinLimit = 20000

func NewChunks(data []byte, sizes []int) *Chunks { return &Chunks{Data: data, Sizes: sizes} }

func (c *Chunks) Read(p []byte) (int, error) {
	c.Reads++
	if c.Off >= len(c.Data) {
		c.after++
		if c.after > spinLimit {
			panic(ErrSpin)
		}
		if c.Err != nil {
			return 0, c.Err
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(c.Sizes) > 0 {
		s := c.Sizes[c.i%len(c.Sizes)]
		c.i++
		if s < 1 {
			s = 1
		}
		if s < n {
			n = s
		}
	}
	n = copy(p[:n], c.Data[c.Off:])
	c.Off += n
	return n, nil
}

// ReadOutcome is what draining a reader gave.
type ReadOutcome struct {
	Data []byte
	Err  error
}

// Drain reads r to its end with buffers of the given sizes (cycled), checking
// the io.Reader contract on the way. isBoundary says which errors are markers
// after which reading goes on: they are passed to mark with the offset.
func Drain(r io.Reader, sizes []int, limit int, isMark func(error) bool, mark func(off int)) (out ReadOutcome, violation error) {
	if len(sizes) == 0 {
		sizes = []int{512}
	}
	idle := 0
	for i := 0; ; i++ {
		size := sizes[i%len(sizes)]
		buf := make([]byte, size+4)
		for k := range buf {
			buf[k] = 0xA5
		}
		n, err := r.Read(buf[:size:size])
		if n < 0 || n > size {
			return out, fmt.Errorf("Read(%d bytes) returned n=%d", size, n)
		}
		out.Data = append(out.Data, buf[:n]...)
		if len(out.Data) > limit {
			return out, fmt.Errorf("reader delivered more than %d bytes", limit)
		}
		if err != nil {
			if isMark != nil && isMark(err) {
				mark(len(out.Data))
				idle = 0
				if i > limit*4+100000 {
					return out, fmt.Errorf("reader signals boundaries endlessly")
				}
				continue
			}
			out.Err = err
			return out, nil
		}
		if n == 0 && size > 0 {
			idle++
			if idle > 1000 {
				return out, fmt.Errorf("reader makes no progress: 1000 reads returned 0, nil")
			}
		} else if n > 0 {
			idle = 0
		} else {
			// zero-length buffer
			idle++
			if idle > 100000 {
				return out, fmt.Errorf("no progress with zero-length reads")
			}
		}
	}
}

// CountingBits wraps a bit reader: it counts the bits that are consumed and
// panics when the number of operations exceeds the budget.
type CountingBits struct {
	bitreader.BitReader
	Ops    int
	Budget int
	Bits   uint64 // consumed, or asked to be skipped
}

// ErrBudget is what CountingBits panics with.
var ErrBudget = errors.New("verif: operation budget exceeded (no progress)")

func (c *CountingBits) op(n uint) {
	c.Ops++
	c.Bits += uint64(n)
	if c.Budget > 0 && c.Ops > c.Budget {
		panic(ErrBudget)
	}
}

func (c *CountingBits) Read(p []byte) (int, error) {
	c.op(0)
	n, err := c.BitReader.Read(p)
	c.Bits += uint64(n) * 8
	return n, err
}
func (c *CountingBits) Read1() (bool, error)          { c.op(1); return c.BitReader.Read1() }
func (c *CountingBits) Read8(n uint) (uint8, error)   { c.op(n); return c.BitReader.Read8(n) }
func (c *CountingBits) Read16(n uint) (uint16, error) { c.op(n); return c.BitReader.Read16(n) }
func (c *CountingBits) Read32(n uint) (uint32, error) { c.op(n); return c.BitReader.Read32(n) }
func (c *CountingBits) Read64(n uint) (uint64, error) { c.op(n); return c.BitReader.Read64(n) }
func (c *CountingBits) Peek1() (bool, error)          { c.op(0); return c.BitReader.Peek1() }
func (c *CountingBits) Peek8(n uint) (uint8, error)   { c.op(0); return c.BitReader.Peek8(n) }
func (c *CountingBits) Peek16(n uint) (uint16, error) { c.op(0); return c.BitReader.Peek16(n) }
func (c *CountingBits) Peek32(n uint) (uint32, error) { c.op(0); return c.BitReader.Peek32(n) }
func (c *CountingBits) Peek64(n uint) (uint64, error) { c.op(0); return c.BitReader.Peek64(n) }
func (c *CountingBits) Skip(n uint) error             { c.op(n); return c.BitReader.Skip(n) }
func (c *CountingBits) IsAligned() bool               { c.op(0); return c.BitReader.IsAligned() }
func (c *CountingBits) Align() (n uint, err error) {
	c.op(0)
	n, err = c.BitReader.Align()
	c.Bits += uint64(n)
	return n, err
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// AllocBytes is the total number of heap bytes allocated so far.
func AllocBytes() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// Bubble runs f in a synctest bubble (fake clock, deadlock detection) and
// returns its error; a deadlock or leaked goroutine is an error.
func Bubble(x *Ctx, f func() error) (err error) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		var inner error
		e := Protect(func() error {
			synctest.Test(x.T, func(*testing.T) {
				inner = Protect(f)
			})
			return nil
		})
		if inner != nil {
			err = inner
		} else {
			err = e
		}
	}()
	<-done
	return err
}

// Faulty hands out data like Chunks; at offset At it returns Err, once or from
// then on. Empty reads return nothing and never fail. At -1: no fault.
type Faulty struct {
	Data  []byte
	Sizes []int
	At    int
	Once  bool
	Err   error

	Hit   bool
	Off   int
	i     int
	after int
}

func (c *Faulty) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.Off == c.At && !(c.Once && c.Hit) || c.Off >= len(c.Data) {
		c.after++
		if c.after > spinLimit {
			panic(ErrSpin)
		}
	}
	if c.Off == c.At && !(c.Once && c.Hit) {
		c.Hit = true
		return 0, c.Err
	}
	if c.Off >= len(c.Data) {
		return 0, io.EOF
	}
	n := min(len(p), len(c.Data)-c.Off)
	if len(c.Sizes) > 0 {
		n = min(n, max(1, c.Sizes[c.i%len(c.Sizes)]))
		c.i++
	}
	if c.At > c.Off {
		n = min(n, c.At-c.Off)
	}
	copy(p, c.Data[c.Off:c.Off+n])
	c.Off += n
	return n, nil
}
